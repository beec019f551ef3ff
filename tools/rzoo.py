"""Random well-formed definitions."""
import random
from zoogen import *

KMAX = 0x1fffffff
PRIMS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool"]
KEYS = ["u8", "u16", "u32"]
WORDS = ["size", "reader", "writer", "path", "kind", "key", "tag", "value", "self_value", "state", "other", "wire_type",
         "field_number", "this", "io", "n", "hasher", "log", "parent", "type", "match", "merge", "handle", "x", "y",
         "len", "name", "id", "count", "a1", "b_2", "long_field_name_here", "_hidden", "runtime_", "size_cache_", "camelCase",
         "UPPER", "default", "f0", "f1", "item", "data", "entry", "self_", "crate_", "ok", "err", "some", "none", "t", "r",
         "replay", "result", "is_root", "tags", "cached_size", "new_x", "set_x", "as_mut_ref", "option", "fn", "impl", "loop",
         "nested", "eof", "error", "hash", "eq", "clone", "fmt", "read", "write", "serialize", "deserialize", "as", "for", "try"]
VNAMES = ["Alpha", "Beta", "GammaDelta", "E", "HTTPCode", "Type", "None_", "Move", "V2", "LongVariantName", "Ok", "Err", "Some", "None",
          "Read", "Write", "Zed", "Q1", "Default", "Unit", "Inner", "Key", "Path_", "Root"]
TNAMES = ["Alpha", "Knot", "Point", "Msg", "Team", "Player", "Board", "Cell", "Game", "Event", "Action", "HTTPReply", "X", "Hero", "Item_", "Deck", "Card", "Slot", "Effect", "Stat"]
DOCS = ["", "", "", "/// Words about it.\n", "#[allow(dead_code)]\n", "/** block\n comment */\n", "#[doc(hidden)]\n"]


def tag_text(r, t):
    k = r.random()
    if k < .15: return hex(t)
    if k < .25: return "{:_}".format(t)
    if k < .3: return bin(t)
    if k < .35: return oct(t)
    return str(t)


def rand_tag(r, used, zero=False):
    while True:
        k = r.random()
        if k < .5: t = r.randrange(0, 8)
        elif k < .7: t = r.randrange(8, 40)
        elif k < .85: t = r.choice([15, 16, 17, 127, 128, 129, 2047, 2048, 16383, 16384, 262143, 262144, 2097151, 2097152, 33554431, 33554432, KMAX - 1, KMAX])
        else: t = r.randrange(0, KMAX + 1)
        if t not in used:
            used.add(t)
            return t


class Zoo:
    def __init__(self, r, n=14, flat=False):
        self.flat = flat    # no definition contains itself
        self.r, self.msgs, self.targets, self.metas, self.shared = r, [], [], [], []
        self.names = set()
        self.meta = True    # whether types need metadata
        self.generics = []
        while len(self.msgs) < n:
            self.message()
        for _ in range(6):
            t = self.state_type(2, None)
            self.targets.append((t, t.startswith(("List<", "Map<", "Maybe<")) or self.is_msg_state(t)))
            self.metas.append(t)
        for _ in range(4):
            t = self.plain_type(2, None)
            self.targets.append((t, False))
            self.metas.append(t)
        self.targets = [t for i, t in enumerate(self.targets) if t[0] not in [x[0] for x in self.targets[:i]]]
        seen = [t for t, _ in self.targets]
        self.metas = [t for i, t in enumerate(self.metas) if t in seen and t not in self.metas[:i]]

    def is_msg_state(self, t):
        while t.startswith("Box<"): t = t[4:-1]
        if t.startswith(("List<", "Map<", "Maybe<")): return True
        h = t.split("<")[0]
        return any(m.name == h and m.state for m in self.msgs)

    # types -------------------------------------------------------
    def use_msg(self, state):
        """A message defined before, instantiated."""
        r = self.r
        c = [m for m in self.msgs if (m.state or not state) and not (self.meta and m.no_meta)]
        if not c: return "u16"
        m = r.choice(c)
        if not m.params: return m.name
        return "%s<%s>" % (m.name, ", ".join(self.arg(m) for _ in m.params))

    def arg(self, m):
        r = self.r
        hash_ = "Hash" in m.derives
        for _ in range(20):
            t = self.state_type(1, None) if m.state else self.plain_type(1, None)
            if (not hash_ or hashable(t, self.msgs)) and (not "Eq" in m.derives or self.eqable(t)): return t
        return "u8"

    def eqable(self, t):
        head, args = args_of(t)
        for m in self.msgs:
            if m.name == head: return "Eq" in m.derives and all(self.eqable(a) for a in args)
        return head in PRIMS + ["String", "Vec", "Option", "Box", "[]", "()"] and all(self.eqable(a) for a in args)

    def state_type(self, depth, rec, params=(), boxed_ok=True):
        """rec: name that may be used behind a container."""
        r = self.r
        k = r.random()
        if params and k < .3: return r.choice(params)
        if depth <= 0 or k < .35: return r.choice(PRIMS)
        if k < .55: return self.use_msg(True)
        if rec and k < .62:
            return r.choice(["List<%s>", "Map<u8, %s>", "Maybe<Box<%s>>", "List<Box<%s>>", "Map<u32, List<%s>>"]) % rec
        if k < .72: return "List<%s>" % self.state_type(depth - 1, None, params)
        if k < .82: return "Map<%s, %s>" % (r.choice(KEYS), self.state_type(depth - 1, None, params))
        if k < .92: return "Maybe<%s>" % self.state_type(depth - 1, None, params)
        return "Box<%s>" % self.state_type(depth - 1, None, params)

    def plain_type(self, depth, rec, params=(), meta=True):
        r = self.r
        k = r.random()
        if params and k < .3: return r.choice(params)
        if depth <= 0 or k < .3: return r.choice(PRIMS + ["String", "String", "Bytes"])
        if k < .5: return self.use_msg(False)
        if rec and k < .58: return r.choice(["Vec<%s>", "Option<Box<%s>>", "Vec<Box<%s>>"]) % rec
        if k < .7: return "Vec<%s>" % self.plain_type(depth - 1, None, params, meta)
        if k < .82: return "Option<%s>" % self.plain_type(depth - 1, None, params, meta)
        if k < .88: return "Box<%s>" % self.plain_type(depth - 1, None, params, meta)
        if not meta and k < .94:
            return r.choice(["HashMap<u8, %s>", "HashMap<String, %s>", "(u8, %s)", "(String, %s, bool)"]) % self.plain_type(depth - 1, None, (), meta)
        inner = self.plain_type(depth - 1, None, (), meta)
        return "[%s; %d]" % (inner, r.randrange(1, 4))

    def spell(self, t):
        """Another way of writing the type."""
        r = self.r
        k = r.random()
        if k > .12: return t
        if t in PRIMS or t == "String": return "(%s)" % t if k < .06 else ({"String": "std::string::String"}.get(t, t))
        h = t.split("<")[0].split("[")[0]
        if h in ("Vec", "Option", "Box"): return {"Vec": "std::vec::Vec", "Option": "std::option::Option", "Box": "std::boxed::Box"}[h] + t[len(h):]
        if h in ("List", "Map", "Maybe", "Bytes"): return "steit::types::" + t
        if any(m.name == h for m in self.msgs): return "super::" + t
        return t

    # definitions -------------------------------------------------
    def rename(self, state):
        """Other names for the parts the derive adds, as attributes and by part."""
        r = self.r
        out = {}
        if r.random() < .7: out["size_cache"] = r.choice(["zz_cache", "the_cache", "runtime" if state else "sc", "cache_"])
        if state and r.random() < .7:
            out["runtime"] = r.choice(["zz_runtime", "the_runtime", "size_cache" if out.get("size_cache") else "rt", "rt_"])
        if out.get("size_cache") == "runtime" and "runtime" not in out: out["runtime"] = "zz_runtime"
        return ['%s_renamed = "%s"' % x for x in out.items()], out

    def fields(self, m, state, params, rec, taken, shape, n, attrs, hash_, eq_, prefix, above=None):
        r = self.r
        tags, names, out = set(), set(), []
        reserved = []
        if r.random() < .2:
            reserved = [rand_tag(r, tags) for _ in range(r.randrange(1, 4))]
            attrs.append("reserved_tags(%s)" % ", ".join(map(str, reserved)))
        # the names in force here; those of the level above and the usual ones are free then
        base = {"size_cache": "size_cache", "runtime": "runtime"} if state else {"size_cache": "size_cache"}
        names_of = dict(base, **(above or {}))
        usual = list(names_of.values()) + ["size_cache", "runtime"]
        if r.random() < (.4 if above else .12):
            a, here = self.rename(state)
            names_of.update(here)
            if len(set(names_of.values())) == len(names_of): attrs += a
            else: names_of = dict(base, **(above or {}))
        own = set(names_of.values())
        free = [x for x in dict.fromkeys(usual) if x not in own]
        for i in range(n):
            name = None
            if shape != "tuple":
                for _ in range(50):
                    name = r.choice(free) if free and r.random() < .4 else r.choice(WORDS)
                    setter = prefix + name
                    if name in names or name in own or setter in taken or setter + "_with" in taken or (setter.endswith("_with") and setter[:-5] in taken):
                        name = None
                        continue
                    break
                if name is None: continue
                names.add(name)
                taken.add(prefix + name)
                taken.add(prefix + name + "_with")
            plain = not state or r.random() < .12
            ty = self.plain_type(3, None if state else rec, params, not m["no_meta"]) if plain else self.state_type(3, rec, params)
            if plain and state and params: ty = self.plain_type(2, None, (), not m["no_meta"])
            f = F(name, ty, 0, no_state=state and plain)
            if r.random() < .1: f.no_eq = True
            if r.random() < .1: f.no_hash = True
            if hash_ and not hashable(ty, self.msgs) and not (f.no_eq or f.no_hash): f.no_hash = True
            f.ty = self.spell(ty)
            f.tag = rand_tag(r, tags)
            f.tagtext = tag_text(r, f.tag)
            f.pre = r.choice(DOCS)
            f.attr_style = r.choice([0, 0, 1])
            if r.random() < .1: f.csharp = r.choice(["other_name", "someField", "Renamed"]) + str(i)
            if r.random() < .1: f.extra.append(r.choice(["no_state = false"] if not f.no_state else [])) if not f.no_state else None
            if r.random() < .1 and not f.no_hash: f.extra.append("no_hash = false")
            if r.random() < .1 and not f.no_eq: f.extra.append("no_eq_hash = false")
            out.append(f)
        return out

    def message(self):
        r = self.r
        while True:
            name = r.choice(TNAMES) + r.choice(["", "", "State", "Data", "2", "Of"])
            if name.lower().replace("_", "") not in self.names: break
        self.names.add(name.lower().replace("_", ""))
        state = r.random() < .7
        is_enum = r.random() < .45
        m = {"no_meta": not state and r.random() < .15}
        params = r.choice([[], [], [], [], ["T"], ["A", "B"]])
        if m["no_meta"]: params = []
        self.meta = not m["no_meta"]
        derives = []
        hash_ = r.random() < .45
        if hash_: derives.append("Hash")
        rec = name if not params and r.random() < .4 else None
        if self.flat or hash_ and rec: rec = None
        if r.random() < .5: derives.append("PartialEq")
        if r.random() < .3: derives.append("Default")
        r.shuffle(derives)
        attrs = []
        taken = {"new"}
        kw = {}
        if r.random() < .25: attrs.append(r.choice(["no_size_cache", "no_size_cache = true", "no_size_cache = false"]))
        if r.random() < .2: attrs.append(r.choice(["derive_ctors", "derive_ctors = true", "derive_ctors = false"]))
        if r.random() < .1: kw["ctor"] = r.choice(["make", "create", "build_it"])
        if r.random() < .15: kw["csharp"] = "Sharp" + name.replace("_", "")
        shapes = ["named", "named", "named", "tuple", "tuple", "unit"]
        if is_enum:
            nv = r.randrange(1, 6)
            zero = r.randrange(nv)
            vtags = {0}
            vs, vnames = [], set()
            vattrs = []
            above = None
            if r.random() < .2:
                a, above = self.rename(state)
                vattrs += a
            if r.random() < .15:
                vattrs.append("reserved_tags(%s)" % ", ".join(str(rand_tag(r, vtags)) for _ in range(2)))
            for i in range(nv):
                for _ in range(50):
                    vn = r.choice(VNAMES)
                    if vn not in vnames and snake(vn) not in [snake(x) for x in vnames]: break
                else: continue
                vnames.add(vn)
                shape = r.choice(shapes)
                va = []
                fs = [] if shape == "unit" else self.fields(m, state, params, rec, taken, shape, r.randrange(0, 5), va, hash_, False, snake(vn) + "_", above)
                if r.random() < .15: va.append(r.choice(["no_size_cache", "no_size_cache = true", "no_size_cache = false"]))
                tag = 0 if i == zero else rand_tag(r, vtags)
                v = V(vn, tag, fs, shape=shape, attrs=va, tagtext=tag_text(r, tag), pre=r.choice(DOCS))
                if r.random() < .1: v.csharp = "Var" + vn.replace("_", "")
                vs.append(v)
            # every parameter must be used
            for p in params:
                if not any(p in re.findall(r"\w+", f.ty) for v in vs for f in v.fields):
                    vs.append(V("Uses" + p, rand_tag(r, vtags), [F(None, p, 0)], shape="tuple"))
            # tuple variants: setter names f0.. may meet named ones of no other variant: prefixes differ
            msg = enum(name, vs, state=state, derives=derives, attrs=attrs + vattrs, params=params, **kw)
        else:
            shape = r.choice(shapes)
            fs = [] if shape == "unit" else self.fields(m, state, params, rec, taken, shape, r.choice([0, 1, 2, 3, 4, 6, 9]), attrs, hash_, False, "")
            if params:
                if shape == "unit": shape = "tuple"
                for p in params:
                    if not any(p in re.findall(r"\w+", f.ty) for f in fs):
                        used = {f.tag for f in fs} | {int(x) for a in attrs if a.startswith("reserved") for x in re.findall(r"\d+", a)}
                        fs.append(F(None if shape == "tuple" else "uses_" + p.lower(), p, rand_tag(r, used)))
            msg = struct(name, fs, shape=shape, state=state, derives=derives, attrs=attrs, params=params, **kw)
        msg.setters = not state and r.random() < .7
        msg.no_meta = m["no_meta"]
        msg.flags = []
        for flag, on in [("derive_setters", msg.setters), ("no_meta", msg.no_meta)]:
            if on: msg.flags.append(flag + r.choice(["", "", " = true"]))
            elif r.random() < .1: msg.flags.append(flag + " = false")
        msg.pre = r.choice(["", "", "/// A message.\n#[allow(dead_code)]"])
        msg.fvis = r.choice(["pub ", "pub ", "", "pub(crate) "])
        self.meta = True
        if params and r.random() < .4:
            b = r.choice(["State", "State + Clone", "Clone", "std::fmt::Debug + 'static"]) if state else r.choice(["Clone", "std::fmt::Debug + 'static"])
            if "Debug" in b: msg.binding_bounds = "std::fmt::Debug"
            if r.random() < .5: msg.bounds = b
            else: msg.where = ", ".join("%s: %s" % (p, b) for p in params)
        if any(re.search(r"\b(%s)\b" % "|".join(params), f.ty) and re.search(r"\b(List|Map|Maybe)<", f.ty) for v in msg.vars for f in v.fields if params):
            # List<T> and Map<K, T> exist for states only
            if msg.where: msg.where = ", ".join(w + " + State" for w in msg.where.split(", "))
            elif "State" not in msg.bounds: msg.bounds = "State" + (" + " + msg.bounds if msg.bounds else "")
        self.msgs.append(msg)
        inst = [name] if not params else ["%s<%s>" % (name, ", ".join(self.arg(msg) for _ in params)) for _ in range(2)]
        # arguments may not refer to the message itself
        inst = [t for t in inst if t.count(name) == 1] or (["%s<%s>" % (name, ", ".join(["u8"] * len(params)))] if params else [name])
        for t in inst:
            self.targets.append((t, state))
            if not msg.no_meta: self.metas.append(t)
            if state and r.random() < .3:
                t2 = r.choice(["Box<%s>", "List<%s>", "Map<u16, %s>", "Maybe<%s>"]) % t
                self.targets.append((t2, True))
                if not msg.no_meta: self.metas.append(t2)
        return msg




COMBOS = ["Serialize", "Deserialize", "State", "PartialEq", "Default", "Hash", "Eq", "Clone", "Debug", "PartialOrd", "Copy"]

def extras(r, n=12):
    """Definitions that are only compiled: any combination of derives."""
    out = []
    for i in range(n):
        while True:
            d = [c for c in COMBOS[:6] if r.random() < .4]
            if d: break
        # Hash, Eq and the standard derives on plain fields only
        std = [c for c in COMBOS[6:9] if r.random() < .4]
        if "Eq" in std and "PartialEq" not in d: std.remove("Eq")
        if {"Serialize", "State", "Deserialize"}.isdisjoint(d): tags = True
        d += std
        r.shuffle(d)
        state = "State" in d
        tys = ["u8", "i64", "bool", "List<u16>", "Maybe<i8>"] if state else ["u8", "String", "Vec<u8>", "Option<i32>", "bool"]
        if state and "Eq" in d: tys = tys[:3]
        vis = r.choice(["", "pub ", "pub(crate) ", "pub(super) "])
        attrs = [a + r.choice(["", "", " = true", " = false"]) for a in ["derive_ctors", "no_meta", "no_size_cache"] if r.random() < .25]
        if r.random() < .2: attrs.append('ctor_prefix = "make"')
        if "Default" in d or "Deserialize" in d or state:
            if r.random() < .3: attrs.append("derive_setters" + r.choice(["", "", " = true", " = false"]))
        head = "#[steit_derive(%s)]\n" % ", ".join(d)
        if attrs: head += "#[steit(%s)]\n" % ", ".join(attrs)
        def fs(named, k):
            ts = r.sample(range(0, 60), k)
            parts = ["#[steit(tag = %d)] %s%s" % (ts[j], "x%d: " % j if named else "", r.choice(tys)) for j in range(k)]
            if named: return " { %s }" % ", ".join(parts)
            return "(%s)" % ", ".join(parts)
        name = "Only%d" % i
        if r.random() < .5:
            named = r.random() < .6
            k = r.randrange(0, 4)
            body = "%sstruct %s%s%s" % (vis, name, fs(named, k), "" if named else ";")
        else:
            vt = [0] + r.sample(range(1, 300), r.randrange(0, 3))
            r.shuffle(vt)
            body = "%senum %s { %s }" % (vis, name, ", ".join("#[steit(tag = %d)] V%d%s" % (t, j, r.choice(["", fs(True, r.randrange(0, 3)), fs(False, r.randrange(0, 3))])) for j, t in enumerate(vt)))
        text = head + body
        if r.random() < .5:
            # another definition beside it, whose name differs in nothing but case and underscores
            other = r.choice(["only%d" % i, "Only%d_" % i, "ONLY%d" % i])
            if r.random() < .5: name, other, text = "OnlyAB%d" % i, "Only_a_b%d" % i, re.sub(r"\bOnly%d\b" % i, "OnlyAB%d" % i, text)
            text += "\n#[steit_derive(%s)]\nstruct %s(#[steit(tag = %d)] u8);" % (r.choice(["Serialize", "State", "Deserialize, Serialize"]), other, r.randrange(40))
        out.append(("Only%d" % i, text))
    return out


def write(out_dir, seed, n=14, flat=False, only=12):
    r = random.Random(seed)
    z = Zoo(r, n, flat)
    shared = [t for t, _ in z.targets if "<" not in t][:4]
    head = ""
    files = {}
    for name, text in extras(r, only):
        f = "o_%s.rs" % name.lower()
        files[f] = "#![allow(warnings)]\nuse steit::{steit_derive, types::{List, Maybe}};\n" + text + "\n"
        head += "mod %s;\n" % f[:-3]
    os.makedirs(out_dir, exist_ok=True)
    for f, t in files.items():
        open(os.path.join(out_dir, f), "w").write(t)
    emit(out_dir, z.msgs, z.targets, z.metas, [], head, keep=files)
    return z


if __name__ == "__main__":
    import sys
    z = write(sys.argv[1], int(sys.argv[2]))
    print(len(z.msgs), "definitions", len(z.targets), "targets", len(z.metas), "with metadata")
