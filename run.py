#!/usr/bin/env python3
"""Builds the harness against /repo's working tree and runs one check.

    run.py setup                 build everything once
    run.py <id> [quick|thorough] run the check of a property
    run.py <id> --replay FILE    run one recorded case again

Exit status: 0 the property held on everything explored, 1 violated (with a VIOLATION line), 2 the
check could not be carried out.
"""
import fcntl, hashlib, json, os, re, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
sys.path.insert(0, os.path.join(HERE, "tools"))


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUSTFLAGS", "RUSTC"))}
    e["PATH"] = e.get("PATH", "") + ":/root/.cargo/bin:/usr/local/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    return e


def tree_hash():
    h = hashlib.sha256()
    for top in ("steit", "steit-derive"):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "tests"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()


def cargo(args, cwd=HARNESS, timeout=800):
    return subprocess.run(["cargo", *args, "--offline"], cwd=cwd, env=env(), timeout=timeout,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")


def fresh():
    """Makes cargo rebuild the library whenever its text differs from what was built last, whatever
    the time stamps say."""
    stamp = os.path.join(TARGET, "tree")
    now = tree_hash()
    was = open(stamp).read() if os.path.exists(stamp) else ""
    if was != now and os.path.isdir(TARGET):
        cargo(["clean", "-p", "steit", "-p", "steit-derive"])
    os.makedirs(TARGET, exist_ok=True)
    open(stamp, "w").write(now)


def errors(out, n=40):
    lines = [l for l in out.splitlines()]
    keep = []
    for i, l in enumerate(lines):
        if l.startswith("error"):
            keep += lines[i:i + 8]
    return "\n".join((keep or lines)[:n])


def build(package):
    r = cargo(["build", "-q", "-p", package])
    return r.returncode == 0, r.stdout


def seed():
    s = os.environ.get("VERIF_SEED", "1")
    return int(s) if s.isdigit() else int.from_bytes(hashlib.sha256(s.encode()).digest()[:6], "big")


# ---------------------------------------------------------------- checks that compile definitions

RZOO, RFAULT = os.path.join(HARNESS, "rzoo", "src"), os.path.join(HARNESS, "rfault", "src")
# checks which also run over a zoo of random definitions
RANDOM = ("C01", "C02", "C03", "C04", "C05", "C06", "C10", "C11", "C14", "C15", "C16", "C17", "C20", "C22", "C26", "C27", "C29",
          "C30")
MINI = ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18",
        "C20", "C21", "C22", "C26", "C27", "C29", "C30")
# checks whose cases cost far more than the others'
SLOW = {"C26": 10, "C29": 12, "C30": 8}


def stubs():
    """The generated crates must exist for cargo to read the workspace."""
    for d in (RZOO, RFAULT):
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "lib.rs")
        if not os.path.exists(p):
            open(p, "w").write("")


def blame(out, crates):
    """{file: message} of the compile errors in generated definitions; None if other code fails."""
    hits, lines = {}, out.splitlines()
    bad = False
    for c in crates:
        # the compiler gives up on the types of a definition, and points at library code
        if "could not compile `%s`" % c in out and re.search(r"overflow (evaluating|while)|recursion limit|queries overflow", out):
            at = next(i for i, l in enumerate(lines) if re.search(r"overflow (evaluating|while)|recursion limit|queries overflow", l))
            return {c + "/src/" + ("d_rec.rs" if c == "zoo" else "lib.rs*"): "\n".join(lines[at:at + 8])}
    for i, l in enumerate(lines):
        if not l.startswith("error"):
            continue
        if "could not compile" in l or "aborting" in l:
            if "could not compile" in l and not any("`%s`" % c in l for c in crates):
                bad = True
            continue
        at = next((x.split("--> ", 1)[1] for x in lines[i + 1:i + 6] if "--> " in x), "")
        f = at.split(":")[0].strip()
        hits.setdefault(f, "\n".join(lines[i:i + 8]))
    if bad or not hits:
        return None
    return hits


def replay_file(prop, name, data):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (prop, name))
    json.dump(data, open(p, "w"), indent=1)
    return p


def evidence(prop, tier, coverage, began, violations):
    e = {"property": prop, "tier": tier, "seed": seed(), "level": "exploration", "coverage": coverage,
         "wall_s": round(time.time() - began, 2), "violations": violations}
    json.dump(e, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)


def random_zoo(zseed, n, flat=False):
    import rzoo
    for f in os.listdir(RZOO):
        os.remove(os.path.join(RZOO, f))
    z = rzoo.write(RZOO, zseed, n, flat)
    ok, out = build("rmain")
    return z, ok, out


def mini(check, zseed, cases, out, extra=()):
    """Runs a check over the random zoo: (exit status, output)."""
    r = subprocess.run([os.path.join(TARGET, "debug", "rmain"), check, "--tier", "quick", "--seed", str(zseed), "--jobs", "8",
                        "--cases", str(cases), "--out", out, "--replays", os.path.join(HERE, "replays"),
                        "--known", os.path.join(HERE, "KNOWN_FINDINGS"), *extra], cwd=HERE, stdout=subprocess.PIPE, text=True)
    return r.returncode, r.stdout


def source(f):
    p = os.path.join(HARNESS, f)
    try:
        text = open(p).read()
    except OSError:
        return ""
    return text.split("impl Bind for")[0].split("\nimpl<")[0][:4000]


def uncompilable(prop, hits, zseed, n):
    f = sorted(hits, key=lambda f: len(source(f)))[0]
    p = replay_file(prop, "compile-%s" % os.path.basename(f), {
        "property": prop, "message": "a well-formed definition does not compile", "zoo_seed": zseed, "zoo_size": n, "check": "compile",
        "file": f, "definition": source(f), "error": hits[f]})
    print("a well-formed definition does not compile: %s\n%s\n%s" % (f, source(f), hits[f]))
    print("VIOLATION property=%s replay=%s" % (prop, p))
    return 1


def mini_violation(prop, check, zseed, n, out, flat=False):
    inner = out.rsplit("replay=", 1)[1].strip() if "replay=" in out else ""
    data = json.load(open(inner)) if os.path.exists(inner) else {}
    p = replay_file(prop, "zoo%d-%s" % (zseed, check), {
        "property": prop, "message": data.get("message", ""), "zoo_seed": zseed, "zoo_size": n, "flat": flat, "check": check,
        "steps": data.get("steps", []), "tape": data.get("tape", [])})
    body = [l for l in out.splitlines() if not l.startswith(("VIOLATION", "KNOWN-FINDING"))]
    print("\n".join(l[:600] for l in body))
    print("(over the zoo of random definitions with seed %d, by the rules of %s)" % (zseed, check))
    print("VIOLATION property=%s replay=%s" % (prop, p))
    return 1


ZOO_SIZE = 16


def c23(tier, replay):
    began = time.time()
    if replay:
        d = json.load(open(replay))
        if d["check"] == "compile" and d["zoo_seed"] is None:
            ok, out = build("main")
            hits = None if ok else blame(out, ("zoo", "checks"))
            return uncompilable("C23", hits, None, None) if hits else 0 if ok else 2
        if d["check"] == "compile only":
            import c23c
            errs, other = c23c.check(cargo, RFAULT, {"z0": c23c.zoo(d["zoo_seed"], d["zoo_size"])[0]})
            if other and not errs:
                print(other[0])
                return 2
            if errs:
                print("\n".join(errs.values()))
                print("VIOLATION property=C23 replay=%s" % replay)
            return 1 if errs else 0
        z, ok, out = random_zoo(d["zoo_seed"], d["zoo_size"])
        if not ok:
            hits = blame(out, ("rzoo",))
            return uncompilable("C23", hits, d["zoo_seed"], d["zoo_size"]) if hits else 2
        if d["check"] == "compile":
            print("C23: the definitions compile")
            return 0
        inner = os.path.join(HERE, "build", "replay.json")
        open(inner, "w").write('{"tape": [%s]}' % ", ".join(map(str, d["tape"])))
        r, out = mini(d["check"], d["zoo_seed"], 1, "", ("--replay", inner))
        if r == 1:
            print("\n".join(l for l in out.splitlines() if not l.startswith("VIOLATION")))
            print("VIOLATION property=C23 replay=%s" % replay)
        return r
    ok, out = build("engine")
    if not ok:
        print(errors(out))
        print("ERROR in check C23: the harness does not build")
        return 2
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule":
           "Sets of random definitions that refer to each other must compile, with their constructors and setters used by name and type. "
           "Each zoo is a set of random definitions which must compile too; then every check of behaviour runs over it. Evaluations are "
           "definitions compiled plus cases run, non-trivial those which are by the rule of the check that ran them, plus every definition "
           "with two fields or variants or more.", "labels": {}, "samples": [], "zoos": []}
    # the fixed definitions
    ok, out = build("main")
    if not ok:
        hits = blame(out, ("zoo", "checks"))
        hits = hits and {f: m for f, m in hits.items() if f.startswith("zoo/src/d_") or f == "checks/src/item.rs"}
        if not hits:
            print(errors(out))
            print("ERROR in check C23: the harness does not build")
            return 2
        evidence("C23", tier, dict(cov, evaluations=1, distinct_nontrivial=1, samples=["a definition does not compile"]), began, 1)
        return uncompilable("C23", hits, None, None)
    # definitions that are only compiled, in sets that refer to each other
    import c23c
    import zoogen
    rounds, per, many = (1, 12, 40) if tier == "quick" else (10, 14, 48)
    for k in range(rounds):
        seeds = {"z%d" % i: seed() * 1000 + 500 + k * per + i for i in range(per)}
        made = {z: c23c.zoo(s, many) for z, s in seeds.items()}
        errs, other = c23c.check(cargo, RFAULT, {z: f for z, (f, _) in made.items()})
        if other and not errs:
            print("\n".join(other[:3]))
            print("ERROR in check C23: the definitions could not be judged")
            return 2
        for z, (files, zoo) in made.items():
            cov["evaluations"] += len(files) - 2
            cov["distinct_nontrivial"] += sum(1 for m in zoo.msgs if len(m.vars) > 1 or len(m.vars[0].fields) > 1)
        cov["labels"]["compiled only"] = cov["labels"].get("compiled only", 0) + sum(len(f) - 2 for f, _ in made.values())
        if errs:
            # the smallest definition the compiler complains about
            text = lambda f: made[f.split("/")[0]][0].get(f.split("/")[-1], "") if "/" in f else ""
            f = min(errs, key=lambda f: (not f.split("/")[-1].startswith(("d_", "o_")), len(text(f))))
            z = f.split("/")[0] if "/" in f else "z0"
            p = replay_file("C23", "compile-%s-%d" % (f.replace("/", "-"), seeds[z]), {
                "property": "C23", "message": "a well-formed definition does not compile", "zoo_seed": seeds[z], "zoo_size": many,
                "check": "compile only", "file": f, "definition": text(f), "error": errs[f]})
            evidence("C23", tier, dict(cov, samples=["a definition does not compile"]), began, 1)
            print("a well-formed definition does not compile (%d of them): %s\n%s\n%s" % (len(errs), f, text(f), errs[f][:2000]))
            print("VIOLATION property=C23 replay=%s" % p)
            return 1
    zoos, cases, size = (3, 16000, ZOO_SIZE) if tier == "quick" else (25, 60000, 24)
    for k in range(zoos):
        zs = seed() * 1000 + k
        z, ok, out = random_zoo(zs, size)
        cov["evaluations"] += len(z.msgs) + 12
        cov["distinct_nontrivial"] += sum(1 for m in z.msgs if len(m.vars) > 1 or len(m.vars[0].fields) > 1)
        if not ok:
            hits = blame(out, ("rzoo",))
            hits = hits and {f: m for f, m in hits.items() if f.startswith("rzoo/src/") and not f.endswith("/lib.rs")}
            if not hits:
                print(errors(out))
                print("ERROR in check C23: the random definitions of seed %d do not build" % zs)
                return 2
            evidence("C23", tier, dict(cov, samples=["a definition does not compile"]), began, 1)
            return uncompilable("C23", hits, zs, size)
        cov["samples"] += [{"zoo": zs, "definition": zoogen.definition(m)} for m in z.msgs[:2]]
        cov["zoos"].append({"seed": zs, "definitions": len(z.msgs), "types": len(z.targets)})
        for c in MINI:
            ev = os.path.join(HERE, "build", "mini-%s.json" % c)
            r, out = mini(c, zs, cases // SLOW.get(c, 1), ev)
            if r == 2:
                print(out)
                print("ERROR in check C23: %s over zoo %d" % (c, zs))
                return 2
            if r == 1:
                evidence("C23", tier, dict(cov, samples=["a violation, see its replay"]), began, 1)
                return mini_violation("C23", c, zs, size, out)
            e = json.load(open(ev))["coverage"]
            cov["evaluations"] += e["evaluations"]
            cov["distinct_nontrivial"] += e["distinct_nontrivial"]
            cov["labels"][c] = cov["labels"].get(c, 0) + e["evaluations"]
    evidence("C23", tier, cov, began, 0)
    print("C23: %d zoos, %d evaluations, %d distinct non-trivial, %.1fs" % (zoos, cov["evaluations"], cov["distinct_nontrivial"], time.time() - began))
    return 0


def c24_(tier, replay):
    import c24
    began = time.time()
    if replay:
        d = json.load(open(replay))
        which = d["compiled"]
        errs, other = c24.rejected(cargo, RFAULT, {"d": d[which]})
        if other:
            print(other[0])
            return 2
        if ("d" in errs) == (which == "good"):
            print(d["message"] + "\n" + d[which])
            print("VIOLATION property=C24 replay=%s" % replay)
            return 1
        print("C24: the case passes")
        return 0
    ok, out = build("engine")
    if not ok:
        print(errors(out))
        print("ERROR in check C24: the harness does not build")
        return 2
    n, rounds = (1200, 1) if tier == "quick" else (2500, 12)
    labels, texts, samples, total = {}, set(), [], 0
    for k in range(rounds):
        fails, other, info = c24.run(cargo, RFAULT, seed() * 1000 + k, n)
        if fails is None:
            print("\n".join(other[:3]))
            print("ERROR in check C24: the definitions could not be judged")
            return 2
        cs, bad = info
        total += 2 * len(cs)
        for m, kind, g, b in cs:
            labels[kind] = labels.get(kind, 0) + 1
            texts.add(b)
        samples += [{"fault": kind, "definition": b, "error": bad[m][0]} for m, kind, g, b in cs[:6] if m in bad]
        if fails:
            msg, kind, g, b, which = min(fails, key=lambda f: len(f[2] if f[4] == "good" else f[3]))
            p = replay_file("C24", "%s-%d" % (kind, seed()), {"property": "C24", "message": msg, "fault": kind, "compiled": which, "good": g, "bad": b})
            print("%s (%d of %d cases)\n%s" % (msg, len(fails), len(cs), g if which == "good" else b))
            print("VIOLATION property=C24 replay=%s" % p)
            break
    cov = {"evaluations": total, "distinct_nontrivial": len(texts), "rule":
           "A case is a random well-formed definition and the same definition with one fault; the first must compile and the second be rejected "
           "with an error located in it. Non-trivial: every faulty definition, counted once per distinct text.",
           "labels": labels, "samples": samples[:6]}
    evidence("C24", tier, cov, began, 1 if fails else 0)
    if fails:
        return 1
    print("C24: %d definitions, %d distinct faulty, %.1fs" % (total, len(texts), time.time() - began))
    return 0


def over_random(prop, tier):
    """After the fixed zoo, the same check over random definitions."""
    began = time.time()
    ev = os.path.join(HERE, "evidence", prop + ".json")
    first = json.load(open(ev))
    zoos, cases = (1, 20000) if tier == "quick" else (8, 200000)
    cases //= SLOW.get(prop, 1)
    for k in range(zoos):
        zs = seed() * 1000 + 500 + k
        z, ok, out = random_zoo(zs, ZOO_SIZE)
        if not ok:
            print("note: the random definitions of seed %d do not compile, see C23" % zs)
            return 0
        tmp = os.path.join(HERE, "build", "mini-%s.json" % prop)
        r, out = mini(prop, zs, cases, tmp)
        if r == 1:
            first["violations"] = 1
            json.dump(first, open(ev, "w"), indent=1)
            return mini_violation(prop, prop, zs, ZOO_SIZE, out)
        if r == 2:
            print(out)
            return 2
        e = json.load(open(tmp))["coverage"]
        c = first["coverage"]
        c["evaluations"] += e["evaluations"]
        c["distinct_nontrivial"] += e["distinct_nontrivial"]
        c.setdefault("random_definitions", []).append({"seed": zs, "types": e["types"], "evaluations": e["evaluations"], "labels": e["labels"], "samples": e["samples"][:2]})
    first["wall_s"] = round(first["wall_s"] + time.time() - began, 2)
    json.dump(first, open(ev, "w"), indent=1)
    print("%s: also over %d zoo(s) of random definitions, %.1fs" % (prop, zoos, time.time() - began))
    return 0


def without_zoo(prop, tier, why):
    """The fixed zoo does not compile, which is C23's to report where a definition is at fault. What can be
    said about any other property is still said, over random definitions that do compile."""
    began = time.time()
    ok, out = build("checks")
    if not ok:
        print(errors(out))
        print(f"ERROR in check {prop}: the harness does not build")
        return 2
    zoos, cases = (2, 20000) if tier == "quick" else (8, 200000)
    cases //= SLOW.get(prop, 1)
    done = 0
    total = None
    for k in range(3 * zoos):
        if done == zoos or not done and k == 8:
            break
        zs = seed() * 1000 + 900 + k
        # simpler and simpler ones
        flat, n = k > 0, ZOO_SIZE if k < 2 else 5
        z, ok, out = random_zoo(zs, n, flat)
        if not ok:
            continue
        done += 1
        tmp = os.path.join(HERE, "build", "mini-%s.json" % prop)
        r, out = mini(prop, zs, cases, tmp)
        if r == 1:
            e = {"evaluations": 1, "distinct_nontrivial": 1, "rule": "see the replay", "samples": ["a violation, see its replay"]}
            evidence(prop, tier, e, began, 1)
            return mini_violation(prop, prop, zs, n, out, flat)
        if r == 2:
            print(out)
            return 2
        e = json.load(open(tmp))["coverage"]
        if total is None:
            total = dict(e, evaluations=0, distinct_nontrivial=0)
        total["evaluations"] += e["evaluations"]
        total["distinct_nontrivial"] += e["distinct_nontrivial"]
    if not done:
        print(errors(why))
        print(f"ERROR in check {prop}: the harness does not build")
        return 2
    total["note"] = "the fixed zoo does not compile (see C23): random definitions only"
    evidence(prop, tier, total, began, 0)
    print("note: the fixed zoo does not compile, see C23\n%s" % errors(why, 10))
    print("%s: %d zoo(s) of random definitions only, %d evaluations, %.1fs" % (prop, done, total["evaluations"], time.time() - began))
    return 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    what = sys.argv[1]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    lock = open(os.path.join(HERE, "build", "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    stubs()
    if what == "setup":
        import c24
        fresh()
        ok, out = build("main")
        if not ok:
            print(errors(out))
            return 2
        random_zoo(seed() * 1000, ZOO_SIZE)
        c24.run(cargo, RFAULT, 1, 8)
        return 0
    replay = None
    tier = os.environ.get("VERIF_TIER", "quick")
    rest = sys.argv[2:]
    if rest[:1] == ["--replay"]:
        replay = rest[1]
    elif rest:
        tier = rest[-1]
        if tier not in ("quick", "thorough"):
            print("unknown tier " + tier)
            return 2
    fresh()
    if what == "C23":
        return c23(tier, replay)
    if what == "C24":
        return c24_(tier, replay)
    if replay and json.load(open(replay)).get("zoo_seed") is not None:
        d = json.load(open(replay))
        z, ok, out = random_zoo(d["zoo_seed"], d["zoo_size"], d.get("flat", False))
        if not ok:
            print(errors(out))
            return 2
        r, out = mini(what, d["zoo_seed"], 1, "", ("--replay", replay))
        print(out, end="")
        return r
    ok, out = build("main")
    if not ok and not replay:
        return without_zoo(what, tier, out)
    fcntl.flock(lock, fcntl.LOCK_UN)
    if not ok:
        print(errors(out))
        print(f"ERROR in check {what}: the harness does not build")
        return 2
    cmd = [os.path.join(TARGET, "debug", "main"), what, "--tier", tier, "--seed", str(seed()), "--jobs", "8",
           "--out", os.path.join(HERE, "evidence", what + ".json"), "--replays", os.path.join(HERE, "replays"),
           "--known", os.path.join(HERE, "KNOWN_FINDINGS")]
    if replay:
        cmd += ["--replay", replay]
    sys.stdout.flush()
    r = subprocess.run(cmd, cwd=HERE).returncode
    if r == 0 and not replay and what in RANDOM:
        fcntl.flock(lock, fcntl.LOCK_EX)
        r = over_random(what, tier)
    return r


if __name__ == "__main__":
    sys.exit(main())
