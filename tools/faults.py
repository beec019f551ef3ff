"""Well-formed definitions and the same definitions with one fault each."""
import copy, random, re
from rzoo import KMAX, rand_tag, tag_text

PRIMS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "bool"]
STATE = PRIMS + ["List<u8>", "Map<u16, i32>", "Maybe<u8>", "Box<u32>", "List<List<bool>>", "Maybe<List<i64>>"]
PLAIN = PRIMS + ["String", "Vec<u8>", "Option<i32>", "Bytes", "[u8; 3]", "Box<String>", "Vec<Option<String>>"]


class Field:
    def __init__(self, name, ty, tag, attrs):
        self.name, self.ty, self.tag, self.attrs, self.tagged, self.raw = name, ty, tag, attrs, "tag = %s" % tag, ""


class Body:
    """A struct, or a variant."""
    def __init__(self, name, shape, fields):
        self.name, self.shape, self.fields = name, shape, fields
        self.tagged, self.attrs, self.raw, self.tag = None, [], "", None


class Def:
    def __init__(self, name):
        self.name, self.derives, self.attrs, self.generics, self.bodies, self.is_enum, self.raw, self.keyword = name, [], [], "", [], False, "", None


def lists(r, parts):
    """Reserved tags may be spelt in several ways and lists."""
    out = []
    for p in parts:
        m = re.match(r"reserved_tags\((\d+(?:, \d+)*)\)$", p)
        if not m:
            out.append(p)
            continue
        tags = [tag_text(r, int(x)) for x in m[1].split(", ")]
        cuts = [i for i in range(1, len(tags)) if r.random() < .4]
        for a, b in zip([0] + cuts, cuts + [len(tags)]):
            out.append("reserved_tags(%s%s)" % (", ".join(tags[a:b]), r.choice(["", "", "", ","])))
    r.shuffle(out)
    return out


def steit(r, parts, raw):
    out = ""
    parts = lists(r, parts)
    if len(parts) > 1 and r.random() < .2:
        out = " ".join("#[steit(%s)]" % p for p in parts)
    elif parts:
        out = "#[steit(%s)]" % ", ".join(parts)
    return (out + " " + raw).strip()


def show_fields(r, b, vis=""):
    if b.shape == "unit": return ""
    fs = []
    for f in b.fields:
        parts = ([f.tagged] if f.tagged else []) + f.attrs
        fs.append("%s %s%s%s" % (steit(r, parts, f.raw), vis, f.name + ": " if b.shape == "named" else "", f.ty))
    return " { %s }" % ",\n  ".join(fs) if b.shape == "named" else "(%s)" % ",\n  ".join(fs)


def show(d, style):
    r = random.Random(style)
    out = "#[steit_derive(%s)]\n" % ", ".join(d.derives)
    if d.attrs or d.raw: out += steit(r, d.attrs, d.raw) + "\n"
    if not d.is_enum:
        b = d.bodies[0]
        body = show_fields(r, b)
        return out + "%s %s%s%s%s\n" % (d.keyword or "struct", d.name, d.generics, body, "" if b.shape == "named" else ";")
    vs = []
    for b in d.bodies:
        parts = ([b.tagged] if b.tagged else []) + b.attrs
        vs.append("  %s %s%s,\n" % (steit(r, parts, b.raw), b.name, show_fields(r, b)))
    return out + "enum %s%s {\n%s}\n" % (d.name, d.generics, "".join(vs))


def body(r, name, shape, state, n, params):
    used = set()
    fs = []
    reserved = [rand_tag(r, used) for _ in range(r.randrange(1, 4))] if r.random() < .35 else []
    for i in range(n):
        attrs = [a for a in ["no_hash", "no_eq_hash", 'csharp_name = "n%d"' % i] if r.random() < .12]
        if "no_hash" in attrs and r.random() < .3: attrs[attrs.index("no_hash")] = "no_hash = true"
        plain = state and r.random() < .15
        if plain: attrs.append("no_state")
        t = rand_tag(r, used)
        fs.append(Field("x%d" % i, r.choice(PLAIN if plain or not state else STATE), t, attrs))
        fs[-1].tagged = "tag = " + tag_text(r, t)
    b = Body(name, shape, fs)
    b.reserved = reserved
    if reserved: b.attrs.append("reserved_tags(%s)" % ", ".join(map(str, reserved)))
    return b


def base(r, name):
    d = Def(name)
    state = r.random() < .55
    d.state = state
    d.derives = ["State"] if state else ["Serialize", "Deserialize"]
    for x in ["Clone", "Debug", "PartialEq"]:
        if r.random() < .4: d.derives.append(x)
    r.shuffle(d.derives)
    d.is_enum = r.random() < .5
    d.reserved = []
    if r.random() < .2: d.attrs.append("no_size_cache")
    if r.random() < .2: d.attrs.append('ctor_prefix = "make"')
    if r.random() < .2: d.attrs.append('csharp_name = "Other"')
    if d.is_enum:
        used = {0}
        if r.random() < .35:
            d.reserved = [rand_tag(r, used) for _ in range(2)]
            d.attrs.append("reserved_tags(%s)" % ", ".join(map(str, d.reserved)))
        n = r.randrange(1, 5)
        zero = r.randrange(n)
        for i in range(n):
            shape = r.choice(["named", "tuple", "unit"])
            b = body(r, "V%d" % i, shape, state, 0 if shape == "unit" else r.randrange(0, 4), [])
            b.tag = 0 if i == zero else rand_tag(r, used)
            b.tagged = "tag = " + tag_text(r, b.tag)
            d.bodies.append(b)
    else:
        shape = r.choice(["named", "named", "tuple", "unit"])
        b = body(r, name, shape, state, 0 if shape == "unit" else r.randrange(0, 6), [])
        d.attrs += b.attrs
        b.attrs = []
        d.reserved_fields = b.reserved
        d.bodies.append(b)
    if r.random() < .15:
        d.generics = "<T>" if not state else "<T: State>"
        used = {f.tag for f in d.bodies[-1].fields} | set(d.bodies[-1].reserved)
        if d.bodies[-1].shape == "unit": d.bodies[-1].shape = "tuple"
        d.bodies[-1].fields.append(Field("xt", "T", rand_tag(r, used), []))
    return d


# Each fault takes a definition and changes it, or returns False where it does not apply.

def pick_body(r, d, need=1):
    c = [b for b in d.bodies if len(b.fields) >= need]
    return r.choice(c) if c else None

def pick_field(r, d):
    b = pick_body(r, d)
    return r.choice(b.fields) if b else None

def dup_field_tag(r, d):
    b = pick_body(r, d, 2)
    if not b: return False
    f, g = r.sample(b.fields, 2)
    f.tagged = "tag = " + tag_text(r, g.tag)

def dup_variant_tag(r, d):
    if len(d.bodies) < 2: return False
    f, g = r.sample(d.bodies, 2)
    if f.tag == 0: f, g = g, f   # keep a variant tagged 0
    f.tagged = "tag = " + tag_text(r, g.tag)

def reserved_field(r, d):
    """A field's tag among the reserved ones of its struct or variant."""
    c = [b for b in d.bodies if b.fields]
    if not c: return False
    b = r.choice(c)
    f = r.choice(b.fields)
    holder = b if d.is_enum else d
    have = [i for i, a in enumerate(holder.attrs) if a.startswith("reserved_tags")] if b.reserved else []
    if have and r.random() < .5:
        f.tagged = "tag = " + tag_text(r, r.choice(b.reserved))
    elif have:
        holder.attrs[have[0]] = "reserved_tags(%s)" % ", ".join(map(str, sorted(b.reserved + [f.tag])))
    else:
        holder.attrs.append("reserved_tags(%s)" % ", ".join(map(str, r.sample([f.tag], 1) if r.random() < .5 else [KMAX - 5, f.tag])))

def reserved_variant(r, d):
    if not d.is_enum: return False
    b = r.choice(d.bodies)
    have = [i for i, a in enumerate(d.attrs) if a.startswith("reserved_tags")]
    if have and b.tag != 0 and r.random() < .5:
        b.tagged = "tag = " + tag_text(r, r.choice(d.reserved))
    elif have:
        d.attrs[have[0]] = "reserved_tags(%s)" % ", ".join(map(str, d.reserved + [b.tag]))
    else:
        d.attrs.append("reserved_tags(%d)" % b.tag)

def missing_field_tag(r, d):
    f = pick_field(r, d)
    if not f: return False
    f.tagged = None

def missing_variant_tag(r, d):
    if not d.is_enum: return False
    c = [b for b in d.bodies if b.tag != 0]
    if not c: return False
    r.choice(c).tagged = None

BAD_INT = ['"1"', "true", "1.5", "'1'", 'b"1"', "-1", "FOO", "1 + 1", '""', "b'1'"]

def bad_field_tag(r, d):
    f = pick_field(r, d)
    if not f: return False
    f.tagged = r.choice(["tag = " + r.choice(BAD_INT), "tag", "tag(%d)" % f.tag])

def bad_variant_tag(r, d):
    c = [b for b in d.bodies if b.tag]
    if not d.is_enum or not c: return False
    r.choice(c).tagged = r.choice(["tag = " + r.choice(BAD_INT), "tag", "tag(5)"])

HUGE = [KMAX + 1, KMAX + 1, KMAX + 2, 2 ** 30, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 64, 2 ** 64 + 1, 2 ** 128 + 1]

def huge_field_tag(r, d):
    f = pick_field(r, d)
    if not f: return False
    f.tagged = "tag = " + tag_text(r, r.choice(HUGE) if r.random() < .8 else r.randrange(KMAX + 1, 2 ** 32))

def huge_variant_tag(r, d):
    c = [b for b in d.bodies if b.tag]
    if not d.is_enum or not c: return False
    r.choice(c).tagged = "tag = " + tag_text(r, r.choice(HUGE) if r.random() < .8 else r.randrange(KMAX + 1, 2 ** 32))

def no_variants(r, d):
    if not d.is_enum: return False
    d.bodies = []
    d.generics = ""

def no_zero(r, d):
    if not d.is_enum: return False
    used = {b.tag for b in d.bodies} | set(d.reserved)
    for b in d.bodies:
        if b.tag == 0:
            b.tagged = "tag = " + tag_text(r, rand_tag(r, used))

def attrs_of(d):
    """Everything steit attributes may be attached to, with what is known there."""
    out = [(d, "type")]
    for b in d.bodies:
        if d.is_enum: out.append((b, "variant"))
        for f in b.fields: out.append((f, "field"))
    return out

FLAGS = {"type": ["no_size_cache", "derive_ctors", "derive_setters", "no_meta"], "variant": ["no_size_cache"],
         "field": ["no_hash", "no_eq_hash", "no_state"]}
STRS = {"type": ["csharp_name", "ctor_prefix", "size_cache_renamed"], "variant": ["csharp_name"], "field": ["csharp_name"]}

def dup_attr(r, d):
    x, level = r.choice(attrs_of(d))
    k = r.random()
    if level != "type" and k < .3:
        x.attrs.append(x.tagged if r.random() < .5 else "tag = 77")
        return
    name = r.choice(FLAGS[level] + STRS[level])
    x.attrs = [a for a in x.attrs if a.split(" ")[0] != name]
    one, two = [name if r.random() < .5 else name + " = " + r.choice(["true", "false"]) for _ in range(2)] if name in FLAGS[level] else \
        [name + ' = "%s"' % s for s in ("some_one", r.choice(["some_one", "some_two"]))]
    x.attrs.append(one)
    if r.random() < .5: x.raw += " #[steit(%s)]" % two
    else: x.attrs.append(two)

def dup_derive(r, d):
    c = [x for x in d.derives if x in ("State", "Serialize", "Deserialize", "PartialEq")]
    d.derives.insert(r.randrange(len(d.derives) + 1), r.choice(c))

UNKNOWN = ["tags = 1", "nope", "no_hashes", "csharp = \"a\"", "no_state_", "other(1)", "steit::tag = 3", "Tag = 1", "no_eq = true", "skip", "a::b", "default"]
MISPLACED = {"type": ["tag = 5", "no_hash", "no_state", "no_eq_hash"], "variant": ["no_hash", "no_state", "ctor_prefix_ = \"a\"", "no_eq_hash"],
             "field": ["no_size_cache", "reserved_tags(9)", "ctor_prefix = \"a\"", "derive_setters", "no_meta"]}

def unknown_attr(r, d):
    x, level = r.choice(attrs_of(d))
    a = r.choice(UNKNOWN + MISPLACED[level])
    if r.random() < .5: x.raw += " #[steit(%s)]" % a
    else: x.attrs.insert(r.randrange(len(x.attrs) + 1), a)

def literal_attr(r, d):
    x, level = r.choice(attrs_of(d))
    x.attrs.insert(r.randrange(len(x.attrs) + 1), r.choice(["5", '"tag"', "true"]))

def bare_attr(r, d):
    x, level = r.choice(attrs_of(d))
    x.raw += r.choice([" #[steit]", ' #[steit = "tag"]'])

def bad_value(r, d):
    x, level = r.choice(attrs_of(d))
    if r.random() < .5:
        name = r.choice(FLAGS[level])
        bad = name + " = " + r.choice(["1", '"true"', "1.0"])
    else:
        name = r.choice(STRS[level])
        bad = name + " = " + r.choice(["1", "true"])
    x.attrs = [a for a in x.attrs if a.split(" ")[0] != name] + [bad]

def bad_reserved(r, d):
    x, level = r.choice([a for a in attrs_of(d) if a[1] != "field"])
    x.attrs.append("reserved_tags(%s)" % r.choice(['"1"', "FOO", "true", "-1", "1.5", "x = 1", "4294967296"]))

def union_(r, d):
    if d.is_enum or d.bodies[0].shape != "named" or not d.bodies[0].fields: return False
    d.keyword = "union"
    for f in d.bodies[0].fields: f.ty = r.choice(PRIMS)
    d.generics = ""
    d.bodies[0].fields = [f for f in d.bodies[0].fields if f.name != "xt"] or [Field("x0", "u8", 0, [])]

def const_generic(r, d):
    d.generics = "<const N: usize>" if not d.generics else d.generics[:-1] + ", const N: usize>"

BAD_TYPES = ["fn(u8) -> u8", "*const u8", "&'static [u8]", "[u8]", "f32", "f64", "usize", "isize", "char", "std::rc::Rc<u8>", "u128", "i128",
             "dyn std::fmt::Debug", "std::cell::Cell<u8>", "()", "Result<u8, u8>", "std::collections::BTreeMap<u8, u8>", "!", "&'static str",
             "Option<f32>", "Vec<char>", "Option<fn()>", "<u8 as std::ops::Add>::Output", "Undefined", "(u8, u8)", "Vec<(u8, i8)>", "impl Clone"]

def bad_type(r, d):
    f = pick_field(r, d)
    if not f: return False
    if f.ty == "T": return False
    f.ty = r.choice(BAD_TYPES)
    d.attrs = [a for a in d.attrs if not a.startswith("no_meta")]

def plain_in_state(r, d):
    """A field of a state that is no state and not marked no_state."""
    if not d.state: return False
    b = pick_body(r, d)
    if not b: return False
    f = r.choice(b.fields)
    if f.ty == "T": return False
    f.ty = r.choice(["String", "Vec<u8>", "Option<u8>", "Bytes", "[u8; 2]"])
    f.attrs = [a for a in f.attrs if a != "no_state"]

FAULTS = [(dup_field_tag, 3), (dup_variant_tag, 3), (reserved_field, 4), (reserved_variant, 3), (missing_field_tag, 2), (missing_variant_tag, 2),
          (bad_field_tag, 2), (bad_variant_tag, 2), (huge_field_tag, 3), (huge_variant_tag, 3), (no_variants, 1), (no_zero, 3), (dup_attr, 5), (dup_derive, 1),
          (unknown_attr, 5), (literal_attr, 1), (bare_attr, 1), (bad_value, 2), (bad_reserved, 1), (union_, 1), (const_generic, 1), (bad_type, 4), (plain_in_state, 2)]

HEAD = "#![allow(warnings)]\nuse steit::{state::State, steit_derive, types::{Bytes, List, Map, Maybe}};\n"


def cases(seed, n):
    """n times (name, kind, well-formed text, faulty text)"""
    r = random.Random(seed)
    kinds = [f for f, w in FAULTS for _ in range(w)]
    out, seen = [], set()
    i = 0
    while len(out) < n:
        i += 1
        name = "D%d" % len(out)
        d = base(r, name)
        f = r.choice(kinds)
        bad = copy.deepcopy(d)
        if f(r, bad) is False: continue
        style = r.random()
        good, faulty = show(d, style), show(bad, style)
        if good == faulty: continue
        key = re.sub(r"\d+", "0", faulty)
        out.append((name, f.__name__.rstrip("_"), good, faulty))
    return out


if __name__ == "__main__":
    import sys
    for c in cases(int(sys.argv[1]), int(sys.argv[2])):
        print("==", c[1]); print(c[2]); print("--"); print(c[3])
