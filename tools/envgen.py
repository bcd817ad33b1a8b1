"""Programs that use the derive and the macros in many environments, with the output they must give."""
import functools, json, random

INT = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}


class En:
    """An enum of a program: path from the crate root, variants [(name, discriminant or None)]."""
    def __init__(self, name, vals, repr=None, ser=None, deny=False, no_ops=False, no_super=False, erepr=None, names=None, implicit=False):
        self.name, self.repr, self.ser, self.deny, self.no_ops, self.no_super, self.erepr = name, repr, ser, deny, no_ops, no_super, erepr
        self.vals = vals
        self.names = names or ["V%d" % i for i in range(len(vals))]
        self.implicit = implicit

    def opts(self, crate_name=None):
        o = []
        if crate_name:
            o.append('crate_name = "%s"' % crate_name)
        if self.repr:
            o.append('repr = "%s"' % self.repr)
        if self.ser:
            o.append('serialize_repr = "%s"' % self.ser)
        if self.deny:
            o.append("serialize_deny_unknown")
        if self.no_ops:
            o.append("no_ops")
        if self.no_super:
            o.append("no_super_impls")
        return "#[enumset(%s)]\n" % ", ".join(o) if o else ""

    def definition(self, derive="EnumSetType", crate_name=None, vis="pub "):
        d = derive + (", Clone, Copy, PartialEq, Eq" if self.no_super else "")
        vs = ", ".join(n if self.implicit else "%s = %d" % (n, v) for n, v in zip(self.names, self.vals))
        return "#[derive(%s)]\n%s%s%senum %s { %s }\n" % (d, self.opts(crate_name), "#[repr(%s)]\n" % self.erepr if self.erepr and self.vals else "", vis, self.name, vs)

    def words(self):
        """Length of to_vec."""
        return INT[self.repr] // 64 or 1 if self.repr in INT else (max(self.vals, default=0) // 64 + 1)

    def form(self):
        """Documented serialized form."""
        if self.ser:
            return self.ser
        m = max(self.vals, default=0)
        for k, w in INT.items():
            if m < w:
                return k
        return "array"


def catalogue(rng, small=False):
    C = [En("Small", [0, 1, 2, 3], implicit=True), En("Gap", [3, 9, 0]), En("Wide", [20, 0, 31]), En("Sixty", [5, 40, 63]), En("Two", [1, 70, 127, 64, 0]), En("Three", [0, 130, 191, 64]),
         En("Nothing", []), En("Single", [0], implicit=True), En("Single9", [9]), En("R8", [7, 0, 2], repr="u8"), En("R128", [127, 0, 64], repr="u128"), En("RArr", [2, 5, 1], repr="array"),
         En("NoOps", [1, 2, 65], no_ops=True), En("NoSuper", [1, 2, 15], no_super=True), En("Bare", [0, 8], no_ops=True, no_super=True), En("Er", [0, 12, 3], erepr="u16"),
         En("Big", [300, 0, 1, 200, 64]), En("Vast", [1023, 7, 640, 0], erepr="u16")]
    S = []
    for i, (ser, vals, r) in enumerate([("u8", [0, 7, 3], None), ("u16", [15, 1], "array"), ("u32", [31, 4], None), ("u64", [63, 0, 2], "u128"), ("u128", [127, 64, 1], None), ("list", [3, 66, 0], None),
                                        ("map", [3, 9, 0], "u64"), ("array", [3, 9, 0], None), ("array", [64, 200, 0], None), ("list", [1, 0, 2], None), ("map", [100, 0, 150], None),
                                        ("array", [127, 0], "u128"), ("u128", [5, 1], "u8"), ("list", [], None), ("map", [0], None)]):
        S.append(En("S%d" % i, vals, repr=r, ser=ser, deny=rng.random() < .5, no_ops=rng.random() < .2))
    return C + S if not small else rng.sample(C, 6) + rng.sample(S, 5)


def word_list(bits):
    out = []
    for b in bits:
        while len(out) <= b // 64:
            out.append(0)
        out[b // 64] |= 1 << (b % 64)
    return out


def num(bits):
    return sum(1 << b for b in bits)


def exercise(e, path, consts, E, rng, alloc, json_, put):
    """A function body exercising the enum at `path`, and the lines it prints. `E`: path of the crate
    there; `consts`: path of the constants defined next to the enum, {name: members}."""
    L, out = [], []
    vs = e.vals
    V = lambda v: "%s::%s" % (path, e.names[vs.index(v)])
    ES = "%s::EnumSet::<%s>" % (E, path)
    fixed = [0]

    def show(expr, bits):
        L.append("    %s(\"%s\", %d, %s.try_to_words());" % (put, e.name, fixed[0], expr))
        out.append("%s %d %s" % (e.name, fixed[0], " ".join(map(str, word_list(bits) or [0]))))
        fixed[0] += 1

    def shown(expr, n):
        L.append("    %s_num(\"%s\", %d, (%s) as u64);" % (put, e.name, fixed[0], expr))
        out.append("%s %d = %d" % (e.name, fixed[0], n))
        fixed[0] += 1
    allb = sorted(vs)
    show("%sall()" % (ES + "::"), allb)
    shown("%s::variant_count()" % ES, len(vs))
    shown("%s::bit_width()" % ES, max(vs, default=-1) + 1)
    a = sorted(rng.sample(vs, len(vs) // 2)) if vs else []
    b = sorted(rng.sample(vs, (len(vs) + 1) // 2)) if vs else []
    L.append("    let mut a = %s::new(); let mut b = %s::empty();" % (ES, ES))
    for v in a:
        L.append("    a.insert(%s);" % V(v))
    for v in b:
        L.append("    b |= %s;" % V(v))
    show("a", a)
    show("(a | b)", sorted(set(a) | set(b)))
    show("(a & b)", sorted(set(a) & set(b)))
    show("(a - b)", sorted(set(a) - set(b)))
    show("(a ^ b)", sorted(set(a) ^ set(b)))
    show("(!a)", sorted(set(vs) - set(a)))
    shown("a.len()", len(a))
    shown("(a == b)", int(a == b))
    L.append("    { let mut n = 1u64; for v in %s::all() { n = n.wrapping_mul(31).wrapping_add(v as u64 + 1); } %s_num(\"%s\", %d, n); }" % (ES, put, e.name, fixed[0]))
    n = 1
    for v in allb:
        n = (n * 31 + v + 1) % (1 << 64)
    out.append("%s %d = %d" % (e.name, fixed[0], n))
    fixed[0] += 1
    if vs and not e.no_ops:
        x, y = rng.choice(vs), rng.choice(vs)
        show("(%s | %s)" % (V(x), V(y)), sorted({x, y}))
        show("(%s & %s)" % (V(x), V(y)), sorted({x} & {y}))
        show("(%s ^ %s)" % (V(x), V(y)), sorted({x} ^ {y}))
        show("(%s - b)" % V(x), sorted({x} - set(b)))
        show("(!%s)" % V(x), sorted(set(vs) - {x}))
        shown("(%s == %s::only(%s))" % (V(x), ES, V(y)), int(x == y))
    if vs:
        x, y = rng.choice(vs), rng.choice(vs)
        shown("(%s == %s)" % (V(x), V(y)), int(x == y))
        L.append("    { let c = %s; let d = c; %s_num(\"%s\", %d, c.clone() as u64 + d as u64); }" % (V(x), put, e.name, fixed[0]))
        out.append("%s %d = %d" % (e.name, fixed[0], 2 * x))
        fixed[0] += 1
    for k, bits in consts.items():
        show(k, sorted(bits))
    if e.repr in INT:
        shown("(a.as_repr() & 0xff)", num(a) & 255)
        show("%s::from_repr_truncated(!0)" % ES, allb)
    show("%s::from_u128_truncated(!0)" % ES, [v for v in allb if v < 128])
    L.append("    { let w: [u64; 17] = %s::all().as_array(); %s_num(\"%s\", %d, w.iter().fold(0, |a, b| a ^ b)); }" % (ES, put, e.name, fixed[0]))
    out.append("%s %d = %d" % (e.name, fixed[0], functools.reduce(lambda a, b: a ^ b, word_list(allb), 0)))
    fixed[0] += 1
    if alloc:
        for k, bits in (("a", a), ("b", b), ("%s::empty()" % ES, [])):
            L.append("    { let v = %s.to_vec(); let s = %s::from_slice(&v); %s_num(\"%s\", %d, (s == %s) as u64 * 100 + v.len() as u64); }" % (k, ES, put, e.name, fixed[0], k))
            out.append("%s %d = %d" % (e.name, fixed[0], 100 + e.words()))
            fixed[0] += 1
            show("%s::from_slice(&%s.to_vec())" % (ES, k), bits)
    probes(e, V, ES, path, a, b, rng, L, show, shown)
    if json_:
        f = e.form()
        L.append("    { let j = ::serde_json::to_string(&a).unwrap(); let s: %s::EnumSet<%s> = ::serde_json::from_str(&j).unwrap(); ::std::println!(\"%s %d {} {}\", s == a, j); }" % (E, path, e.name, fixed[0]))
        doc = {"list": [n for v, n in sorted((v, n) for v, n in zip(vs, e.names) if v in a)],
               "map": {n: True for v, n in sorted((v, n) for v, n in zip(vs, e.names) if v in a)}}.get(f)
        if f in ("list", "map"):
            out.append("%s %d true %s" % (e.name, fixed[0], json.dumps(doc, separators=(",", ":"), ensure_ascii=False)))
        elif f == "array":
            out.append("%s %d true *" % (e.name, fixed[0]))
        else:
            out.append("%s %d true %d" % (e.name, fixed[0], num(a)))
        fixed[0] += 1
        if f in INT:
            # every bit of the type: refused or dropped
            full = len(vs) == INT[f] or not e.deny
            L.append("    { let r = ::serde_json::from_str::<%s::EnumSet<%s>>(\"%d\"); ::std::println!(\"%s %d {}\", r.map_or(99999, |s| s.len())); }" % (
                E, path, (1 << INT[f]) - 1, e.name, fixed[0]))
            out.append("%s %d %d" % (e.name, fixed[0], len(vs) if full else 99999))
            fixed[0] += 1
        if f == "array":
            L.append("    { let r = ::serde_json::from_str::<%s::EnumSet<%s>>(\"[%d,0,0,0,0,0,0,1]\"); ::std::println!(\"%s %d {}\", r.map_or(99999, |s| s.len())); }" % (
                E, path, 1 << 63, e.name, fixed[0]))
            out.append("%s %d %d" % (e.name, fixed[0], 99999 if e.deny else int(63 in vs)))
            fixed[0] += 1
    return "pub fn run() {\n%s\n}\n" % "\n".join(L), out


def probes(e, V, ES, path, a, b, rng, L, show, shown):
    """More of the interface on sets `a` and `b`, a random choice of it each time."""
    vs, A, B = e.vals, set(a), set(b)
    top = max(vs, default=-1)
    P = []
    add = lambda f, *x: P.append((f, x))
    for k, X, Y in (("a", A, B), ("b", B, A)):
        o = "b" if k == "a" else "a"
        add(shown, "%s.is_empty()" % k, int(not X))
        add(shown, "%s.is_disjoint(%s)" % (k, o), int(not X & Y))
        add(shown, "%s.is_subset(%s)" % (k, o), int(X <= Y))
        add(shown, "%s.is_superset(%s)" % (k, o), int(X >= Y))
        add(show, "%s.union(%s)" % (k, o), sorted(X | Y))
        add(show, "%s.intersection(%s)" % (k, o), sorted(X & Y))
        add(show, "%s.difference(%s)" % (k, o), sorted(X - Y))
        add(show, "%s.symmetrical_difference(%s)" % (k, o), sorted(X ^ Y))
        add(show, "%s.complement()" % k, sorted(set(vs) - X))
        for op, r in (("|=", X | Y), ("&=", X & Y), ("-=", X - Y), ("^=", X ^ Y)):
            add(show, "{ let mut s = %s; s %s %s; s }" % (k, op, o), sorted(r))
        add(show, "{ let mut s = %s; s.insert_all(%s); s }" % (k, o), sorted(X | Y))
        add(show, "{ let mut s = %s; s.remove_all(%s); s }" % (k, o), sorted(X - Y))
        add(show, "{ let mut s = %s; s.clear(); s }" % k, [])
        add(show, "{ let mut s = %s; s.extend(%s.iter()); s }" % (k, o), sorted(X | Y))
        add(show, "{ let mut s = %s; s.extend(Some(%s)); s }" % (k, o), sorted(X | Y))
        add(show, "%s.iter().collect::<%s>()" % (k, ES), sorted(X))
        add(show, "[%s, %s].iter().sum::<%s>()" % (k, o, ES), sorted(X | Y))
        add(shown, "%s.iter().rev().fold(1u64, |n, v| n.wrapping_mul(31).wrapping_add(v as u64 + 1))" % k,
            functools.reduce(lambda n, v: (n * 31 + v + 1) % (1 << 64), sorted(X, reverse=True), 1))
        add(shown, "{ let mut i = %s.into_iter(); let x = i.next(); let y = i.next_back(); i.len() as u64 * 4 + x.is_some() as u64 * 2 + y.is_some() as u64 }" % k,
            max(len(X) - 2, 0) * 4 + 2 * (len(X) > 0) + (len(X) > 1))
        for w in (8, 16, 32, 64):
            add(shown, "%s.as_u%d_truncated()" % (k, w), num(X) & ((1 << w) - 1))
            add(shown, "%s.try_as_u%d().map_or(77, |x| x)" % (k, w), num(X) if num(X) < 1 << w else 77)
            garbage = rng.getrandbits(w)
            add(show, "%s::from_u%d_truncated(%d)" % (ES, w, garbage), [v for v in sorted(vs) if v < 128 and garbage >> v & 1])
            add(shown, "%s::try_from_u%d(%d).is_some()" % (ES, w, garbage), int(not garbage & ~num(vs)))
            some = num([v for v in X if v < w])
            add(show, "%s::from_u%d(%d)" % (ES, w, some), [v for v in sorted(X) if v < w])
        add(shown, "(%s.as_u128_truncated() >> 64)" % k, (num(X) >> 64) & (1 << 64) - 1)
        n = rng.randrange(top // 64 + 3)
        add(shown, "%s.try_as_array::<%d>().is_some()" % (k, n), int(num(X) < 1 << 64 * n))
        add(shown, "{ let mut w = [5u64; %d]; %s.copy_into_slice_truncated(&mut w); w.iter().fold(7u64, |n, x| n.wrapping_mul(3).wrapping_add(*x)) }" % (n, k),
            functools.reduce(lambda s, i: (s * 3 + ((num(X) >> 64 * i) & (1 << 64) - 1)) % (1 << 64), range(n), 7))
        words = word_list(sorted(X)) + [0] * rng.randrange(3)
        add(show, "%s::from_array([%s])" % (ES, ", ".join("%du64" % w for w in words)), sorted(X))
        add(show, "%s::from_slice(&[%s])" % (ES, ", ".join("%du64" % w for w in words)), sorted(X))
        junk = [rng.getrandbits(64) for _ in range(n)]
        t = [v for v in sorted(vs) if v < 64 * n and junk[v // 64] >> v % 64 & 1]
        add(show, "%s::from_slice_truncated(&[%s])" % (ES, ", ".join("%du64" % w for w in junk)), t)
        add(show, "%s::from_array_truncated([%s])" % (ES, ", ".join("%du64" % w for w in junk)), t)
        add(shown, "%s::try_from_slice(&[%s]).is_some()" % (ES, ", ".join("%du64" % w for w in junk)), int(sum(map(lambda w: bin(w).count("1"), junk)) == len(t)))
        add(shown, "(%s == %s)" % (k, o), int(X == Y))
        add(shown, "%s.cmp(&%s).is_eq()" % (k, o), int(X == Y))
        if vs:
            x = rng.choice(vs)
            add(shown, "%s.contains(%s)" % (k, V(x)), int(x in X))
            add(shown, "{ let mut s = %s; s.insert(%s) as usize * 100000 + s.len() }" % (k, V(x)), (x not in X) * 100000 + len(X | {x}))
            add(shown, "{ let mut s = %s; s.remove(%s) as usize * 100000 + s.len() }" % (k, V(x)), (x in X) * 100000 + len(X - {x}))
            add(show, "%s::only(%s)" % (ES, V(x)), [x])
            add(show, "(%s | %s)" % (k, V(x)), sorted(X | {x}))
            add(show, "(%s - %s)" % (k, V(x)), sorted(X - {x}))
            add(show, "{ let s: %s = %s.into(); s }" % (ES, V(x)), [x])
            add(shown, "(%s == %s)" % (k, V(x)), int(X == {x}))
    for f, x in rng.sample(P, 22):
        f(*x)


# helpers of the programs: what prints words, in std and without
HELP = """trait Words { fn try_to_words(self) -> ([u64; 17], usize); }
impl<T: %(E)s::EnumSetType> Words for %(E)s::EnumSet<T> {
    fn try_to_words(self) -> ([u64; 17], usize) {
        let a: [u64; 17] = self.as_array();
        let mut n = 17;
        while n > 1 && a[n - 1] == 0 { n -= 1; }
        (a, n)
    }
}
"""
STD_PUT = """fn put(e: &str, k: usize, w: ([u64; 17], usize)) { print!("{} {}", e, k); for x in &w.0[..w.1] { print!(" {}", x); } println!(); }
fn put_num(e: &str, k: usize, n: u64) { println!("{} {} = {}", e, k, n); }
"""
C_PUT = """extern "C" { fn putchar(c: i32) -> i32; }
fn ch(c: u8) { unsafe { putchar(c as i32); } }
fn text(s: &str) { for c in s.bytes() { ch(c) } }
fn number(n: u64) { if n >= 10 { number(n / 10) } ch(b'0' + (n % 10) as u8) }
fn put(e: &str, k: usize, w: ([u64; 17], usize)) { text(e); ch(b' '); number(k as u64); let mut i = 0; while i < w.1 { ch(b' '); number(w.0[i]); i += 1; } ch(b'\\n'); }
fn put_num(e: &str, k: usize, n: u64) { text(e); ch(b' '); number(k as u64); text(" = "); number(n); ch(b'\\n'); }
"""


C_ALLOC = """extern "C" { fn malloc(n: usize) -> *mut u8; fn free(p: *mut u8); }
struct Malloc;
unsafe impl core::alloc::GlobalAlloc for Malloc {
    unsafe fn alloc(&self, l: core::alloc::Layout) -> *mut u8 { malloc(l.size() + 64 * (l.align() > 16) as usize) }
    unsafe fn dealloc(&self, p: *mut u8, _: core::alloc::Layout) { free(p) }
}
#[global_allocator] static MALLOC: Malloc = Malloc;
"""


def manual_serde(e, path):
    """Serialize/Deserialize of the variants by name, written out so that only the crate's own generated code is at stake."""
    ser = "".join("%s::%s => \"%s\"," % (path, n, n) for n in e.names)
    de = "".join("\"%s\" => Ok(%s::%s)," % (n, path, n) for n in e.names)
    return """impl ::serde::Serialize for %s { fn serialize<S: ::serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { %s } }
impl<'de> ::serde::Deserialize<'de> for %s { fn deserialize<D: ::serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    let s = <::std::string::String as ::serde::Deserialize>::deserialize(d)?;
    match &*s { %s _ => Err(::serde::de::Error::custom("unknown variant")) } } }
""" % (path, "s.serialize_str(match *self { %s })" % ser if e.names else "match *self {}", path, de)


def no_std_serde(e, path):
    return """impl ::serde::Serialize for %s { fn serialize<S: ::serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(*self as u32) } }
impl<'de> ::serde::Deserialize<'de> for %s { fn deserialize<D: ::serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
    match <u32 as ::serde::Deserialize>::deserialize(d)? { %s _ => Err(::serde::de::Error::custom("unknown variant")) } } }
""" % (path, path, "".join("%d => Ok(%s::%s)," % (v, path, n) for v, n in zip(e.vals, e.names)))


def constants(e, rng, E, vis="pub ", EP=None):
    """Constants next to the enum, using the macros; {name: members}."""
    vs = e.vals
    P = EP or e.name
    src, c = [], {}
    k = [0]

    def const(expr, bits):
        n = "C%d_%s" % (k[0], e.name.replace("r#", "").upper() if e.name.isascii() else "X")
        k[0] += 1
        src.append("#[allow(non_upper_case_globals)] %sconst %s: %s::EnumSet<%s> = %s;\n" % (vis, n, E, P, expr))
        c[n] = set(bits)
        return n
    V = lambda v: "%s::%s" % (P, e.names[vs.index(v)])
    const("%s::enum_set!()" % E, [])
    if vs:
        x, y, z = (rng.choice(vs) for _ in range(3))
        a = const("%s::enum_set!(%s | %s)" % (E, V(x), V(y)), [x, y])
        b = const("%s::enum_set_union!(%s, %s)" % (E, a, V(z)), [x, y, z])
        const("%s::enum_set_intersection!(%s, %s)" % (E, b, V(z)), [z])
        const("%s::enum_set_difference!(%s, %s)" % (E, b, V(x)), {x, y, z} - {x})
        const("%s::enum_set_symmetric_difference!(%s, %s)" % (E, b, V(z)), {x, y, z} - {z})
        const("%s::enum_set_complement!(%s)" % (E, b), set(vs) - {x, y, z})
        const("%s::enum_set!(%s | )" % (E, V(z)), [z])
        const("%s::enum_set!(%s)" % (E, V(z)), [z])
        for m in ("union", "intersection", "difference", "symmetric_difference"):       # one, and with a comma at the end
            const("%s::enum_set_%s!(%s%s)" % (E, m, V(x), rng.choice(["", ","])), [x])
            const("%s::enum_set_%s!(%s%s)" % (E, m, b, rng.choice(["", ","])), [x, y, z])
        const("%s::enum_set_complement!(%s)" % (E, V(z)), set(vs) - {z})
    return "".join(src), c


PRELUDE = ["Option", "Some", "None", "Result", "Ok", "Err", "Vec", "String", "Box", "ToString", "ToOwned", "Into", "From", "AsRef", "AsMut", "TryFrom", "TryInto", "Iterator",
           "IntoIterator", "DoubleEndedIterator", "ExactSizeIterator", "Extend", "FromIterator", "Drop", "Fn", "FnMut", "FnOnce", "Send", "Sync", "Sized", "Unpin",
           "Default", "Debug", "Hash", "Ord", "PartialOrd"]
DERIVED = ["Copy", "Clone", "PartialEq", "Eq"]     # also names of derive macros in another namespace
STD = ["Sub", "BitAnd", "BitOr", "BitXor", "Not", "SubAssign", "BitAndAssign", "Output", "Formatter", "Error", "Arguments", "Display", "Write", "Infallible", "Self_", "Item", "Iter",
       "PhantomData", "Range", "Ordering", "Hasher", "Cow", "Rc", "Arc", "Cell", "HashSet", "Sum", "MAX", "MIN"]
SERDE = ["Serialize", "Deserialize", "Serializer", "Deserializer", "SerializeSeq", "SerializeMap", "SeqAccess", "MapAccess", "Visitor", "EnumAccess", "Unexpected", "Value", "Expected",
         "IntoDeserializer", "Impossible", "DeserializeOwned", "DeserializeSeed", "StdError"]
OWN = ["EnumSet", "EnumSetIter", "EnumSetType", "EnumSetTypeWithRepr", "EnumSetTypePrivate", "EnumSetTypeRepr", "ArrayRepr", "Repr", "ConstHelper", "ALL_BITS", "BIT_WIDTH", "VARIANT_COUNT",
       "CONST_HELPER_INSTANCE", "PREFERRED_ARRAY_LEN"]
MODS = ["core", "std", "alloc", "serde", "serde2", "enumset", "ops", "cmp", "mem", "fmt", "hint", "result", "option", "convert", "marker", "clone", "prelude", "v1", "ser", "de", "primitive", "iter",
        "__internal", "core_export", "u8", "u16", "u32", "u64", "u128", "usize", "bool", "str", "set", "repr"]
FNS = ["drop", "size_of", "unreachable_unchecked", "swap", "replace", "transmute", "max", "min", "panic", "write", "concat", "stringify", "identity", "from_fn", "once", "only", "all", "empty"]
MACROS = ["panic", "write", "concat", "stringify", "assert", "assert_eq", "vec", "format", "matches", "unreachable", "todo", "println", "cfg", "line", "file", "env", "writeln",
          "debug_assert", "unimplemented", "eprintln"]


def hostile(rng, names, kinds=("struct", "unit", "tuple", "enum", "trait", "alias", "const")):
    """Items of these names."""
    out = []
    for n in names:
        k = rng.choice(kinds)
        out.append({"struct": "pub struct %s {}", "unit": "pub struct %s;", "tuple": "pub struct %s(());", "enum": "pub enum %s { Some, None, Ok, Err }", "trait": "pub trait %s { fn never(&self); }",
                    "alias": "pub type %s = ();", "const": "pub const %s: () = ();", "fn": "pub fn %s() {}", "mod": "pub mod %s { pub struct Nothing; }"}[k] % n)
    return "\n".join("#[allow(warnings)] " + x for x in out) + "\n"


def hostile_macros(names):
    return "".join("#[allow(unused_macros)] macro_rules! %s { ($($t:tt)*) => { compile_error!(\"the user's macro\") } }\n" % n for n in names)


class Program:
    def __init__(self, kind, code, expected, names=None, edition="2021", manifest=None, no_std=False, run=True, json_=False):
        self.kind, self.code, self.expected, self.names, self.edition, self.manifest = kind, code, expected, names or {"enumset": "enumset"}, edition, manifest
        self.no_std, self.run, self.json = no_std, run, json_


def assemble(kind, enums, rng, feats, E="::enumset", derive="EnumSetType", uses="use enumset::*;\n", crate_name=None, extra="", place="mod", edition="2021", no_std=False,
             vis="pub ", names=None, manifest=None, before=""):
    """A program with every enum in a module of its environment and an exercise for each."""
    json_ = "json" in feats and not no_std
    serde = ("serde" in feats or "json" in feats)
    alloc = "alloc" in feats
    if edition == "2015":
        before = "extern crate enumset;\n" + ("extern crate serde;\n" if serde else "") + ("extern crate serde_json;\n" if json_ else "") + before
    out = []
    user, exer, calls = "", "", []
    for e in enums:
        csrc, consts = constants(e, rng, E, vis="pub(crate) " if vis != "pub " else vis)
        mac = csrc
        base = "user"
        if place == "nested":
            inner = "pub mod a { pub mod b { %s\n%s%s%s } }\n" % (uses, e.definition(derive, crate_name, vis), mac, "")
            user += "pub mod n_%s { %s }\n" % (e.name.lower(), inner)
            base = "user::n_%s::a::b" % e.name.lower()
        else:
            user += e.definition(derive, crate_name, vis) + mac
        path = "crate::%s::%s" % (base, e.name) if edition != "2015" else "::%s::%s" % (base, e.name)
        root = "crate" if edition != "2015" else ""
        src, lines = exercise(e, path, {"%s::%s::%s" % (root, base, k): v for k, v in consts.items()}, E, rng, alloc, json_, "%s::put" % ("super"))
        out += lines
        calls.append("x_%s::run();" % e.name.lower())
        exer += "mod x_%s { #[allow(unused_imports)] use super::Words;\n%s}\n" % (e.name.lower(), src)
        if serde and e.ser in ("list", "map"):
            exer += (manual_serde if json_ else no_std_serde)(e, path)
    allow = "#![allow(warnings)]\n"
    use_in = "" if place == "nested" else uses
    if no_std:
        code = "#![no_std]\n#![no_main]\n" + allow + before + "mod user {\n%s%s%s}\n" % (use_in, extra, user) + HELP % dict(E=E) + C_PUT + exer
        code += "#[panic_handler] fn on_panic(_: &core::panic::PanicInfo) -> ! { loop {} }\n#[no_mangle] pub extern \"C\" fn rust_eh_personality() {}\n#[no_mangle] pub extern \"C\" fn _Unwind_Resume() {}\n"
        if alloc:       # this feature is the one that needs an allocator
            code += C_ALLOC
        code += "#[link(name = \"c\")] extern \"C\" {}\n#[no_mangle] pub extern \"C\" fn main() -> i32 { %s 0 }\n" % " ".join(calls)
    else:
        code = allow + before + "mod user {\n%s%s%s}\n" % (use_in, extra, user) + HELP % dict(E=E) + STD_PUT + exer + "fn main() { %s }\n" % " ".join(calls)
    nm = dict(names or {"enumset": "enumset"})
    if serde:
        nm["serde"] = "serde"
    if json_:
        nm["serde_json"] = "serde_json"
    return Program(kind, code, out, nm, edition, manifest, no_std, True, json_)


def in_bodies(rng, feats):
    """Enums defined inside functions, blocks, methods, constants and macros."""
    out, body = [], []
    json_ = False
    wraps = ["pub fn f%d() { %s }", "pub fn f%d() { let g = || { %s }; g() }", "pub fn f%d() { if true { { %s } } }", "pub struct M%d; impl M%d { pub fn go(&self) { %s } } pub fn f%d() { M%d.go() }",
             "pub trait T%d { fn go(&self) { %s } } impl T%d for [u8; %d] {} pub fn f%d() { T%d::go(&[0u8; %d]) }", "pub fn f%d() { const K: fn() = { fn inner() { %s } inner }; K() }",
             "macro_rules! mk%d { ($n:ident { $($v:ident = $d:tt),* }) => { pub fn f%d() { %s } } }"]
    code = "#![allow(warnings)]\nuse enumset::*;\n" + HELP % dict(E="::enumset") + STD_PUT
    calls = []
    for i, e in enumerate([En("Small", [0, 1, 2, 3]), En("Two", [1, 70, 127]), En("R8", [7, 0, 2], repr="u8"), En("Three", [0, 130, 191, 64]), En("Single", [0]), En("Nothing", []), En("Gap", [3, 9, 0])]):
        csrc, consts = constants(e, rng, "enumset", vis="")
        src, lines = exercise(e, e.name, consts, "::enumset", rng, "alloc" in feats, False, "crate::put")
        out += lines
        defn = e.definition(rng.choice(["EnumSetType", "enumset::EnumSetType", "::enumset::EnumSetType"]), vis="")
        inner = defn + csrc + src.replace("pub fn run() {", "{")
        if i == 3:
            code += "pub struct M; impl M { pub fn go(&self) { use crate::Words; %s } } pub fn f3() { M.go() }\n" % inner
        elif i == 4:
            code += "pub trait Tr { fn go(&self) { use crate::Words; %s } } impl Tr for [u8; 3] {} pub fn f4() { Tr::go(&[0u8; 3]) }\n" % inner
        elif i == 5:
            code += "pub fn f5() { const K: fn() = { fn inner() { use crate::Words; %s } inner }; K() }\n" % inner
        elif i == 6:
            m = "#[derive(EnumSetType)] %senum $n { $($v = $d),* }" % e.opts()
            code += "macro_rules! mk { ($n:ident { $($v:ident = $d:tt),* }) => { %s } }\npub fn f6() { use crate::Words; mk!(%s { %s }); %s }\n" % (
                m, e.name, ", ".join("%s = %d" % x for x in zip(e.names, e.vals)), csrc + src.replace("pub fn run() {", "{"))
        else:
            code += (["pub fn f%d() { use crate::Words; %s }\n", "pub fn f%d() { let g = || { use crate::Words; %s }; g() }\n", "pub fn f%d() { if true { { use crate::Words; %s } } }\n"][i]) % (i, inner)
        calls.append("f%d();" % i)
    code += "fn main() { %s }\n" % " ".join(calls)
    return Program("enums in function bodies, blocks, methods, constants and macros", code, out)


NAMES_OK = ["r#type", "r#match", "Größe", "_0", "_x", "a", "A", "None", "Some", "Ok", "Err", "Vec", "EnumSet", "EnumSetType", "u8", "u32", "bool", "Sub", "Not", "Into", "Repr", "ALL_BITS", "Output",
            "Item", "E", "T", "O", "S", "D", "self_", "core", "serde", "enumset", "BIT_WIDTH", "VARIANT_COUNT", "ConstHelper", "EMPTY", "IS_U8", "IS_U64", "x", "val", "set", "value", "helper", "other",
            "new", "only", "Copy", "Clone", "Eq", "Error", "Value", "Visitor", "CONST_HELPER_INSTANCE", "__O", "__S", "__D", "__EnumSetVisitor", "i", "accum", "r#async", "r#dyn", "Serialize", "Target", "IntoIter"]
ENUM_NAMES = ["r#type", "Option", "Result", "Some", "None", "Ok", "Vec", "String", "EnumSet", "EnumSetIter", "Repr", "Sub", "BitOr", "Not", "Into", "From", "Copy", "Clone", "PartialEq", "Eq", "Value", "Visitor", "Error",
              "Serializer", "Deserializer", "Serialize", "SeqAccess", "A", "D", "E", "O", "S", "T", "Output", "Ünïcode", "lower", "core", "serde", "ArrayRepr", "Self_", "X1", "Item", "Iterator", "Formatter",
              "Box", "Sized", "Default", "Debug", "Ordering", "MapAccess", "Infallible", "de", "ser", "value", "Target"]


def programs(seed, feats, quick):
    """Programs for one feature set."""
    rng = random.Random("env/%s/%s" % (seed, ",".join(feats)))
    if "std" in feats:          # the older name of the two
        feats = list(feats) + ["alloc", "pmc"]
    P = []
    cat = lambda small=False: catalogue(rng, small)
    P.append(assemble("glob import", cat(), rng, feats))
    P.append(assemble("no imports", cat(), rng, feats, derive="::enumset::EnumSetType", uses=""))
    P.append(assemble("only the derive imported", cat(True), rng, feats, uses="use enumset::EnumSetType;\n", edition="2018"))
    P.append(assemble("nested modules", cat(True), rng, feats, place="nested", derive="enumset::EnumSetType", uses="", edition="2024"))
    P.append(assemble("visible in the crate only", cat(True), rng, feats, vis="pub(crate) "))
    P.append(assemble("visible in the parent only", cat(True), rng, feats, vis="pub(super) "))
    P.append(assemble("visible in a path", cat(True), rng, feats, vis="pub(in crate) ", place="nested"))
    for ed in ("2015", "2018", "2024"):
        P.append(assemble("edition " + ed, cat(True), rng, feats, edition=ed, derive="EnumSetType", uses="use enumset::*;\n" if ed != "2015" else "use enumset::*;\nuse enumset;\n"))
    P.append(assemble("crate renamed, crate_name", cat(), rng, feats, E="::renamed", derive="renamed::EnumSetType", uses="", crate_name="renamed", names={"renamed": "enumset"}))
    P.append(assemble("crate renamed, crate_name, glob", cat(True), rng, feats, E="::enum_set2", uses="use enum_set2::*;\n", crate_name="enum_set2", names={"enum_set2": "enumset"}))
    # names of all sorts
    other = ["sets2", "r2d2_sets", "Sets", "e", "enumset2", "enumset_derive2", "_sets", "core2", "SETS", "x86_64", "my_enum_set_", "s_1", "enum_set", "réglages"]
    for n in rng.sample(other, 2):
        P.append(assemble("crate renamed, crate_name", cat(True), rng, feats, E="::" + n, derive=n + "::EnumSetType", uses="", crate_name=n, names={n: "enumset"}))
    if "pmc" in feats:
        for n in rng.sample(other[:-1], 4) + rng.sample(["my-sets", "a-b-c", "sets-2", "enum-set"], 2):
            c, q = n.replace("-", "_"), rng.choice(["", '"'])
            dep = rng.choice(['[dependencies]\n%s = { package = "enumset", version = "1" }\n', '[dependencies.%s]\npackage = "enumset"\npath = "../enumset"\n', '[dev-dependencies]\n%s = { version = "1", package = "enumset" }\n']) % (q + n + q)
            P.append(assemble("crate renamed in Cargo.toml, proc-macro-crate", cat(True), rng, feats, E="::" + c, derive=c + "::EnumSetType", uses="", names={c: "enumset"},
                              manifest='[package]\nname = "prog"\nversion = "0.1.0"\nedition = "2021"\n' + dep))
        for dep in ('[dependencies]\nother_name = { package = "enumset", version = "1" }\n', '[dev-dependencies]\nother_name = { package = "enumset", path = "x" }\n',
                    '[target.\'cfg(unix)\'.dependencies]\nother_name = { package = "enumset", version = "1" }\n', '[dependencies.other_name]\npackage = "enumset"\nversion = "1"\n'):
            P.append(assemble("crate renamed in Cargo.toml, proc-macro-crate", cat(True), rng, feats, E="::other_name", derive="other_name::EnumSetType", uses="", names={"other_name": "enumset"},
                              manifest='[package]\nname = "prog"\nversion = "0.1.0"\nedition = "2021"\n' + dep))
        P.append(assemble("crate_name wins over Cargo.toml", cat(True), rng, feats, E="::third", derive="third::EnumSetType", uses="", crate_name="third", names={"third": "enumset"},
                          manifest='[package]\nname = "prog"\nversion = "0.1.0"\n[dependencies]\nother_name = { package = "enumset", version = "1" }\n'))
        P.append(assemble("not renamed, proc-macro-crate", cat(True), rng, feats, derive="enumset::EnumSetType", uses="",
                          manifest='[package]\nname = "prog"\nversion = "0.1.0"\n[dependencies]\nenumset = "1"\n'))
    if "json" not in feats:     # serde_json is there with its std
        kind = "no_std" + (" with an allocator" if "alloc" in feats else " without allocator")
        P.append(assemble(kind, cat(), rng, feats, no_std=True))
        P.append(assemble(kind + ", no imports", cat(True), rng, feats, no_std=True, derive="::enumset::EnumSetType", uses=""))
    for _ in range(3 if quick else 12):
        for what, names, kinds in (("prelude", PRELUDE + DERIVED, ("struct", "unit", "tuple", "enum", "trait", "alias", "const")), ("std", STD, ("struct", "unit", "tuple", "enum", "trait", "alias", "const")),
                                   ("serde", SERDE, ("struct", "unit", "tuple", "enum", "trait", "alias", "const")), ("enumset", OWN, ("struct", "unit", "tuple", "enum", "trait", "alias", "const")),
                                   ("module", MODS, ("mod",)), ("function", FNS, ("fn",))):
            P.append(assemble("scope with %s names" % what, cat(True), rng, feats, derive="::enumset::EnumSetType", uses="", extra=hostile(rng, rng.sample(names, max(len(names) * 3 // 4, 1)), kinds)))
    P.append(assemble("scope with everything", cat(), rng, feats, derive="::enumset::EnumSetType", uses="", extra=hostile(rng, PRELUDE + STD + SERDE + OWN) + hostile(rng, MODS, ("mod",)) + hostile(rng, FNS, ("fn",))))
    P.append(assemble("macros named like std's", cat(), rng, feats, derive="::enumset::EnumSetType", uses="", extra=hostile_macros(MACROS)))
    # names of enums and variants
    for _ in range(2 if quick else 8):
        es = []
        for i, base in enumerate(cat(True)):
            base.names = rng.sample(NAMES_OK, len(base.vals))
            es.append(base)
        P.append(assemble("names of variants", es, rng, feats, derive="::enumset::EnumSetType", uses=""))
        picks = rng.sample(ENUM_NAMES, 24)
        es = []
        for n in picks:
            base = rng.choice(cat())
            base.name = n
            es.append(base)
        P.append(named(es, rng, feats))
    P.append(in_bodies(rng, feats))
    return P


def named(enums, rng, feats):
    """Enums of awkward names, each in a module of its own."""
    json_ = "json" in feats
    serde = json_ or "serde" in feats
    code = "#![allow(warnings)]\n" + HELP % dict(E="::enumset") + STD_PUT
    out, calls = [], []
    for i, e in enumerate(enums):
        csrc, consts = constants(e, rng, "::enumset", vis="pub ")
        src, lines = exercise(e, "crate::m%d::%s" % (i, e.name), {"crate::m%d::%s" % (i, k): v for k, v in consts.items()}, "::enumset", rng, "alloc" in feats, json_, "super::put")
        out += lines
        code += "mod m%d { %s%s }\nmod x%d { use super::Words; %s }\n" % (i, e.definition("::enumset::EnumSetType"), csrc, i, src)
        if serde and e.ser in ("list", "map"):
            code += "mod s%d { %s }\n" % (i, (manual_serde if json_ else no_std_serde)(e, "crate::m%d::%s" % (i, e.name)))
        calls.append("x%d::run();" % i)
    code += "fn main() { %s }\n" % " ".join(calls)
    p = Program("names of enums", code, out, {"enumset": "enumset"}, json_=json_)
    if serde:
        p.names["serde"] = "serde"
    if json_:
        p.names["serde_json"] = "serde_json"
    return p
