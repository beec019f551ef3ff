"""C24: faulty definitions are rejected where they stand, and their faultless twins accepted."""
import json, os, re, shutil, subprocess
import faults


def write(src, mods):
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(src)
    lib = "#![allow(warnings)]\n" + "".join("mod %s;\n" % m for m in mods)
    for m, text in mods.items():
        open(os.path.join(src, m + ".rs"), "w").write(faults.HEAD + text)
    open(os.path.join(src, "lib.rs"), "w").write(lib)


def check(cargo, src, mods):
    """Compiles the modules; returns (accepted, {module: [message]}, other errors)."""
    write(src, mods)
    r = cargo(["check", "-q", "-p", "rfault", "--message-format=json"])
    errs, other = {}, []
    for l in r.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get("reason") != "compiler-message" or m["target"]["name"] != "rfault": continue
        m = m["message"]
        if m["level"] != "error": continue
        def spans(m):
            for s in m["spans"]:
                while s:
                    yield s
                    s = (s.get("expansion") or {}).get("span")
        at = {os.path.basename(s["file_name"])[:-3] for s in spans(m) if s["is_primary"] or s.get("expansion") or True}
        hit = [x for x in at if x in mods]
        primary = [os.path.basename(s["file_name"])[:-3] for s in m["spans"] if s["is_primary"]]
        hit = [x for x in primary if x in mods] or hit
        if hit:
            for x in hit: errs.setdefault(x, []).append(m["message"])
        elif m["spans"] or not re.match(r"aborting|could not compile", m["message"]):
            other.append(m["message"])
    ok = r.returncode == 0
    if not ok and not errs and not other: other.append(r.stdout[-2000:])
    return ok, errs, other


def rejected(cargo, src, mods):
    """{module: messages} of the modules the compiler rejects. A stage of the compiler that fails
    hides later ones, so what remains is compiled again without what was rejected."""
    left, out = dict(mods), {}
    while left:
        ok, errs, other = check(cargo, src, left)
        if ok: return out, []
        if not errs: return out, other
        for m, e in errs.items():
            out[m] = e
            del left[m]
    return out, []


def run(cargo, src, seed, n):
    cs = faults.cases(seed, n)
    cs = [("d%d" % i, kind, good, bad) for i, (_, kind, good, bad) in enumerate(cs)]
    good, other = rejected(cargo, src, {m: g for m, _, g, _ in cs})
    if other: return None, other, cs
    bad, other = rejected(cargo, src, {m: b for m, _, _, b in cs})
    if other: return None, other, cs
    fails = []
    for m, kind, g, b in cs:
        if m in good:
            fails.append(("the faultless definition is rejected: " + good[m][0], kind, g, b, "good"))
        elif m not in bad:
            fails.append(("a definition with the fault `%s` is accepted" % kind, kind, g, b, "bad"))
    return fails, [], (cs, bad)
