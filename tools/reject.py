"""Programs the documentation rules out, each with its closest permitted twin."""
import random

BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}
HEAD = "#![allow(warnings)]\nuse enumset::*;\n"


def lit(rng, v):
    return rng.choice([str, hex, oct, bin])(v) if v < 1 << 20 or rng.random() < .3 else rng.choice([str, hex])(v)


def opts(rng, *fixed, exclude=()):
    """An #[enumset(..)] attribute with the given options at a random place among harmless ones."""
    o = [x for x in ("no_ops", "no_super_impls", "serialize_deny_unknown") if x not in exclude and rng.random() < .15]
    for f in fixed:
        o.insert(rng.randint(0, len(o)), f)
    if not o:
        return "", o
    if len(o) > 1 and rng.random() < .3:
        k = rng.randint(1, len(o) - 1)
        return "#[enumset(%s)] #[enumset(%s)] " % (", ".join(o[:k]), ", ".join(o[k:])), o
    return "#[enumset(%s)] " % ", ".join(o), o


def body(names):
    return "{ %s }" % ", ".join(names)


def enum(attr, variants, name="E", generics="", derive="EnumSetType", where=""):
    extra = ", Clone, Copy, PartialEq, Eq" if "no_super_impls" in attr else ""
    # lists and maps of variants need the variants to be serializable when serde is there
    extra += "/*SERDE*/" if '"list"' in attr or '"map"' in attr else ""
    return HEAD + "#[derive(%s%s)] %spub enum %s%s %s%s\n" % (derive, extra, attr, name, generics, where, body(variants))


def values_upto(rng, m, n, implicit):
    """n variants whose largest discriminant is m; the variant with the largest is implicit if asked."""
    n = max(2 if implicit else 1, min(n, m + 1))
    if implicit and m < 1:
        implicit = False
    low = rng.sample(range(0, m - 1 if implicit else m), min(n - 1 - (1 if implicit else 0), max(0, m - 1))) if m > 1 else []
    vs = [("L%d" % i, v) for i, v in enumerate(low)]
    out = ["%s = %s" % (k, lit(rng, v)) for k, v in vs]
    big = ["P = %s" % lit(rng, m - 1), "Q"] if implicit else ["Q = %s" % lit(rng, m)]
    at = rng.randint(0, len(out))
    return out[:at] + big + out[at:]


def item_shapes(rng):
    """Items that are not fieldless, non-generic enums."""
    n = rng.randint(1, 5)
    vs = ["V%d" % i for i in range(n)]
    a, o = opts(rng)
    good = enum(a, vs)
    at = rng.randrange(n)

    def data(x):
        w = list(vs)
        w[at] = vs[at] + x
        return enum(a, w)
    ex = ", Clone, Copy, PartialEq, Eq" if "no_super_impls" in a else ""
    kind = rng.choice(["tuple", "tuple2", "struct", "struct2", "unit payload", "never payload", "struct item", "unit struct", "tuple struct", "union",
                       "type parameter", "lifetime", "const parameter", "defaulted type parameter", "two parameters", "last of many"])
    # (`V()` and `V {}` carry no data: the documentation neither rules them out nor promises them)
    if kind in ("tuple", "tuple2", "struct", "struct2", "unit payload", "never payload"):
        x = {"tuple": "(u8)", "tuple2": "(u32, bool)", "struct": "{ x: u8 }", "struct2": "{ x: u8, y: () }", "unit payload": "(())", "never payload": "(core::convert::Infallible)"}[kind]
        return kind, data(x), good
    if kind == "last of many":
        w = ["V%d" % i for i in range(rng.randint(60, 140))]
        return kind, enum(a, w[:-1] + [w[-1] + "(bool)"]), enum(a, w)
    if kind == "struct item":
        return kind, HEAD + "#[derive(EnumSetType%s)] %spub struct E { pub a: u8 }\n" % (ex, a), good
    if kind == "unit struct":
        return kind, HEAD + "#[derive(EnumSetType%s)] %spub struct E;\n" % (ex, a), good
    if kind == "tuple struct":
        return kind, HEAD + "#[derive(EnumSetType%s)] %spub struct E(u8);\n" % (ex, a), good
    if kind == "union":
        return kind, HEAD + "#[derive(EnumSetType)] pub union E { a: u8, b: i8 }\n", good
    g = {"type parameter": "<T>", "lifetime": "<'a>", "const parameter": "<const N: usize>", "defaulted type parameter": "<T = u8>",
         "two parameters": "<'a, T: 'a>"}[kind]
    # a fieldless enum cannot use its parameters otherwise: const parameters need no use; types and
    # lifetimes would be refused by rustc anyhow
    return kind, enum(a, vs, generics=g), good


def discriminants(rng):
    n = rng.randint(1, 6)
    at = rng.randrange(n)
    base = rng.sample(range(2, 40), n)
    e = rng.choice(["i8", "i16", "i32", "i64", "isize", "i128"])
    a, o = opts(rng)
    attr = "#[repr(%s)] %s" % (e, a)

    def prog(x, attr=attr, pre="", k=None):
        vs = ["V%d = %s" % (i, lit(rng, base[i])) for i in range(n)]
        vs[at] = "V%d = %s" % (at, x)
        if k:
            vs = vs[:at + 1] + k + vs[at + 1:]
        return enum(attr, vs) + pre
    v = base[at]
    wide = "#[repr(%s)] %s" % (rng.choice(["u32", "i64", "u64", "u128", "i128"]), a)
    wider = "#[repr(%s)] %s" % (rng.choice(["i64", "u64", "u128", "i128"]), a)
    small = rng.choice([50, 63, 200, 1000])
    c = rng.choice([
        ("negative", lambda: (prog("-%d" % rng.choice([1, 2, v, 100])), prog(str(v)))),
        ("negative hex", lambda: (prog("-0x%x" % rng.choice([1, v])), prog("0x%x" % v))),
        ("negated zero", lambda: (prog("-0"), prog("0"))),
        ("suffixed negative", lambda: (prog("-1%s" % e), prog("1%s" % e))),
        ("sum", lambda: (prog("%d + 1" % v), prog(str(v + 41)))),
        ("shift", lambda: (prog("1 << %d" % (v % 6)), prog(str(41 + v)))),
        ("constant", lambda: (prog("K", pre="const K: %s = %d;\n" % (e, v)), prog(str(v), pre="const K: %s = %d;\n" % (e, v)))),
        ("cast", lambda: (prog("%du8 as %s" % (v, e)), prog("%d" % v))),
        ("char cast", lambda: (prog("'a' as %s" % e, attr="#[repr(u32)] " + a) if False else prog("true as %s" % e), prog("1"))),
        ("block", lambda: (prog("{ %d }" % v), prog("%d" % v))),
        ("parenthesized", lambda: (prog("(%d + 0)" % v), prog("%d" % v))),
        ("not", lambda: (prog("!%d" % v, attr="#[repr(u8)] " + a), prog("%d" % v, attr="#[repr(u8)] " + a))),
        ("byte literal", lambda: (prog("b'a'", attr="#[repr(u8)] " + a), prog("97", attr="#[repr(u8)] " + a))),
        ("constant function", lambda: (prog("k()", pre="const fn k() -> %s { %d }\n" % (e, v)), prog(str(v), pre="const fn k() -> %s { %d }\n" % (e, v)))),
        ("associated constant", lambda: (prog("%s::MAX" % e), prog("127"))),
        ("first too large", lambda: (prog("0xFFFFFFC0", wide), prog(str(small), wide))),
        ("last of u32", lambda: (prog(lit(rng, 0xFFFFFFFF), wide), prog(lit(rng, small), wide))),
        ("between", lambda: (prog(lit(rng, rng.randint(0xFFFFFFC0, 0xFFFFFFFF)), wide), prog(lit(rng, small), wide))),
        ("2^32", lambda: (prog("0x1_0000_0000", wider), prog("0x0_0000_0010", wider) if 16 not in base else prog("0x0_0000_0031", wider))),
        ("2^32 plus a little", lambda: (prog(str((1 << 32) + rng.choice([1, 5, 41, 63])), wider), prog(str(small), wider))),
        ("2^63", lambda: (prog(str((1 << 63) - 1), wider), prog(str(small), wider))),
        ("implicit after the limit", lambda: (prog("0xFFFFFFBF", wide, k=["W"]), prog(str(small), wide, k=["W"]))),
    ])
    bad, good = c[1]()
    return c[0], bad, good


def options(rng):
    n = rng.randint(1, 5)
    vs = ["V%d" % i for i in range(n)]
    fam = rng.choice(["unknown", "misspelt", "wrong form", "repeated", "repeated other value", "repeated across attributes", "bad repr", "bad serialize_repr", "unknown beside known",
                      "bad enum repr"])
    r = rng.choice(list(BITS))
    s = rng.choice(list(BITS) + ["list", "map", "array"])
    plain = rng.choice(["no_ops", "no_super_impls", "serialize_deny_unknown"])
    o1 = rng.choice(['repr = "%s"' % r, 'serialize_repr = "%s"' % s, plain])

    def E(*os, ex=()):
        a, _ = opts(rng2, *os, exclude=("no_ops", "no_super_impls", "serialize_deny_unknown"))
        return enum(a, vs)
    rng2 = random.Random(rng.random())
    if fam == "unknown":
        x = rng.choice(["foo", "foo = \"u8\"", "repr_c", "ops", "super_impls", "no_op", "serialize", "derive(Debug)", "bits = 8", "deny_unknown", "crate = \"enumset\"", "no_impls"])
        return fam, E(x), E(o1)
    if fam == "misspelt":
        x = rng.choice(["no_ops_", "No_ops", "noops", "no_super_impl", "serialise_repr = \"u8\"", "serialize_rep = \"u8\"", "reprs = \"u8\"", "Repr = \"u8\"",
                        "serialize_deny_unknowns", "internal_repr = \"u8\"", "crate_names = \"enumset\""])
        return fam, E(x), E(o1)
    if fam == "unknown beside known":
        return fam, E("bogus", o1), E(o1)
    if fam == "wrong form":
        x, y = rng.choice([('repr("u8")', 'repr = "u8"'), ("repr", 'repr = "u8"'), ("repr = 8", 'repr = "u8"'), ("no_ops(x)", "no_ops"), ('no_ops = "perhaps"', "no_ops"),
                           ("serialize_repr", 'serialize_repr = "list"'), ("serialize_repr(list)", 'serialize_repr = "list"'), ("serialize_deny_unknown = 3", "serialize_deny_unknown"),
                           ("crate_name", 'crate_name = "enumset"')])
        return fam + " " + x, E(x), E(y)
    if fam == "repeated":
        x = rng.choice([o1, 'crate_name = "enumset"'])
        return fam, enum("#[enumset(%s, %s)] " % (x, x), vs), enum("#[enumset(%s)] " % x, vs)
    if fam == "repeated other value":
        x, y = rng.choice([('repr = "%s"' % r, 'repr = "%s"' % rng.choice([k for k in BITS if k != r])),
                           ('repr = "%s"' % r, 'repr = "array"'), ('serialize_repr = "%s"' % s, 'serialize_repr = "%s"' % rng.choice([k for k in BITS if k != s]))])
        return fam, enum("#[enumset(%s, %s)] " % (x, y), vs), enum("#[enumset(%s)] " % y, vs)
    if fam == "repeated across attributes":
        x, y = rng.choice([(o1, o1), ('repr = "%s"' % r, 'repr = "%s"' % rng.choice(list(BITS))), ('serialize_repr = "list"', 'serialize_repr = "map"')])
        return fam, enum("#[enumset(%s)] #[enumset(%s)] " % (x, y), vs), enum("#[enumset(%s)] " % y, vs)
    if fam == "bad repr":
        x = rng.choice(["u7", "u256", "i8", "i32", "usize", "isize", "U8", "list", "map", "C", "", " u8", "u8 ", "[u8]", "Array", "vec", "[u64; 2]", "bool", "f32", "u65", "8", "u"])
        return fam, E('repr = "%s"' % x), E('repr = "%s"' % r)
    if fam == "bad serialize_repr":
        x = rng.choice(["u7", "i8", "usize", "isize", "List", "MAP", "", "arr", "seq", "string", "u8 ", "set", "u256", "bits", "vec", "i64", "f64"])
        return fam, E('serialize_repr = "%s"' % x), E('serialize_repr = "%s"' % s)
    if fam == "bad enum repr":
        # packed/transparent and the like are not enum representations at all; align is one that the derive rules out
        x = rng.choice(["packed", "transparent", "f32"])
        return fam, HEAD + "#[derive(EnumSetType)] #[repr(%s)] pub enum E { A, B }\n" % x, HEAD + "#[derive(EnumSetType)] #[repr(u8)] pub enum E { A, B }\n"


def reprs(rng):
    key = rng.choice(["repr", "serialize_repr"])
    r = rng.choice(list(BITS))
    w = BITS[r]
    # just too large, much too large, and so large that a remainder of it would fit
    far = rng.random() < .35
    over = rng.choice([256, 512, 768, 65536, 1000]) + rng.choice([0, 3, w - 1]) - w if far else rng.choice([0, 0, 0, 1, 7, 8, 64, 200])
    impl = rng.random() < .4
    n = rng.choice([1, 2, 3, 6, 20])
    o = '%s = "%s"' % (key, r)
    others = []
    if key == "serialize_repr":
        if rng.random() < .5:
            others.append('repr = "array"')
    else:
        if rng.random() < .4:
            others.append('serialize_repr = "%s"' % rng.choice(["list", "map", "array"]))
    a, _ = opts(rng, o, *others)
    dense = rng.random() < .2 and over == 0
    if dense:
        return "%s %s, dense" % (key, r), enum(a, ["V%d" % i for i in range(w + 1)]), enum(a, ["V%d" % i for i in range(w)])
    return "%s %s%s%s" % (key, r, ", implicit" if impl else "", ", just" if over == 0 else ", wrapping" if far else ""), enum(a, values_upto(rng, w + over, n, impl)), enum(a, values_upto(rng, w - 1, n, impl))


def two(rng, layout=None):
    """Two enums of (often) the same layout."""
    k = rng.choice([(3, ""), (12, ""), (40, ""), (70, ""), (3, '#[enumset(repr = "u8")] '), (20, '#[enumset(repr = "u32")] '), (5, '#[enumset(repr = "array")] ')]) if layout is None else layout
    n, a = k
    return HEAD + "".join("#[derive(EnumSetType%s)] %spub enum %s { %s }\n" % (", Debug", a, nm, ", ".join("V%d" % i for i in range(n))) for nm in ("A", "B"))


def mixing(rng):
    h = two(rng)
    V = lambda t: "%s::V%d" % (t, rng.randint(0, 2))
    S = lambda t: "(%s)" % rng.choice(["%s::V0 | %s::V1" % (t, t), "EnumSet::<%s>::all()" % t, "EnumSet::<%s>::new()" % t, "EnumSet::only(%s::V2)" % t, "!%s::V0" % t])
    x = lambda t: rng.choice([V, S])(t)
    kind = rng.choice(["op", "op", "assign", "compare", "order", "method", "method", "method", "collect", "extend", "from", "only", "let", "arg", "return", "zip"])
    op = rng.choice(["|", "&", "^", "-"])
    st = rng.getstate()

    def both(f, detail=""):
        rng.setstate(st)
        bad = f("B")
        rng.setstate(st)
        good = f("A")
        return kind + detail, h + bad, h + good
    if kind == "op":
        swap = rng.random() < .5
        sa, sb = rng.choice([(V, V), (V, S), (S, V), (S, S)])

        def f(t):
            l, r = sa("A"), sb(t)
            if swap:
                l, r = sa(t), sb("A")
            return "pub fn f() { let s = %s %s %s; let _ = s; }\n" % (l, op, r)
        st = rng.getstate()
        return both(f, " %s%s" % (op, {(V, V): "", (V, S): " set", (S, V): " variant", (S, S): " sets"}[sa, sb]))
    if kind == "assign":
        return both(lambda t: "pub fn f() { let mut s = EnumSet::<A>::new(); s %s= %s; }\n" % (op, x(t)), " " + op)
    if kind == "compare":
        neg = rng.choice(["==", "!="])
        lv = rng.random() < .5
        return both(lambda t: "pub fn f() -> bool { %s %s %s }\n" % (("A::V0", neg, S(t)) if lv else (S("A"), neg, x(t))))
    if kind == "order":
        return both(lambda t: "pub fn f() { let _ = %s; }\n" % (rng.choice(["%s < %s", "%s >= %s", "core::cmp::max(%s, %s)", "%s.cmp(&%s)", "%s.partial_cmp(&%s)"]) % (S("A"), S(t))))
    if kind == "method":
        m = rng.choice(["insert", "remove", "contains", "union", "intersection", "difference", "symmetrical_difference", "is_subset", "is_superset", "is_disjoint",
                        "insert_all", "remove_all"])
        st = rng.getstate()

        def f(t):
            return "pub fn f() { let mut s = %s; s.%s(%s); }\n" % (S("A"), m, V(t) if m in ("insert", "remove", "contains") else S(t))
        return both(f, " " + m)
    if kind == "collect":
        which = rng.randrange(7)
        st = rng.getstate()

        def f(t):
            c = (["[%s, %s].into_iter().collect::<EnumSet<A>>()" % (V(t), V(t)), "[%s, %s].into_iter().collect::<EnumSet<A>>()" % (S(t), S(t)),
                            "%s.iter().collect::<EnumSet<A>>()" % S(t), "[%s].into_iter().sum::<EnumSet<A>>()" % V(t), "[%s].iter().sum::<EnumSet<A>>()" % V(t),
                            "[%s].into_iter().sum::<EnumSet<A>>()" % S(t), "[%s].iter().sum::<EnumSet<A>>()" % S(t)])[which]
            return "pub fn f() { let _ = %s; }\n" % c
        return both(f, str(which))
    if kind == "extend":
        return both(lambda t: "pub fn f() { let mut s = EnumSet::<A>::new(); s.extend([%s]); }\n" % (x(t)))
    if kind == "from":
        return both(lambda t: "pub fn f() { let _ = EnumSet::<A>::from(%s); let s: EnumSet<A> = %s.into(); }\n" % (V(t), V("A")))
    if kind == "only":
        return both(lambda t: "pub fn f() -> EnumSet<A> { EnumSet::only(%s) }\n" % V(t))
    if kind == "let":
        return both(lambda t: "pub fn f() { let _: EnumSet<A> = %s; }\n" % S(t))
    if kind == "arg":
        return both(lambda t: "fn g(x: EnumSet<A>) {}\npub fn f() { g(%s) }\n" % S(t))
    if kind == "return":
        return both(lambda t: "pub fn f() -> A { for x in %s { return x } panic!() }\n" % S(t))
    return both(lambda t: "pub fn f() { for (mut x, y) in %s.iter().zip(%s.iter()) { x = y; } }\n" % (S("A"), S(t)))


def macros(rng):
    h = two(rng)
    consts = "".join("const %s1: EnumSet<%s> = enum_set!(%s::V0 | %s::V1); const %s2: EnumSet<%s> = EnumSet::all(); const %s3: EnumSet<%s> = enum_set!();\n" % (
        t, t, t, t, t, t, t, t) for t in "AB")
    m = rng.choice(["enum_set", "enum_set_union", "enum_set_intersection", "enum_set_difference", "enum_set_symmetric_difference"])
    n = rng.randint(2, 5)
    vi = [rng.choice(["%s::V%d" % ("%s", rng.randint(0, 2)), "%s%d" % ("%s", rng.randint(1, 3))]) for _ in range(n)]
    k = rng.randrange(n)
    typed = rng.random() < .5
    run_time = rng.random() < .3

    def prog(ts):
        args = [v % t for v, t in zip(vi, ts)]
        e = "%s!(%s)" % (m, (" | " if m == "enum_set" else ", ").join(args))
        if run_time:
            return h + consts + "pub fn f() { let s = %s; let _ = s; }\n" % e
        return h + consts + "const C: EnumSet<A> = %s;\n" % e
    kind = "macro " + m
    if rng.random() < .15:
        # all of the other enum, used as this one's set
        e = rng.choice(["enum_set_complement!(%s1)", "enum_set!(%s::V0)", "enum_set!(%s::V0 | %s2)", "enum_set_union!(%s1,)", "enum_set_intersection!(%s1, %s2)"])
        f = lambda t: h + consts + "pub const C: EnumSet<A> = %s;\n" % e.replace("%s", t)
        return kind + " as another set", f("B"), f("A")
    ts = ["A"] * n
    ts[k] = "B"
    # the constant's type must not settle it: the rest of the arguments do
    return kind + (" first" if k == 0 else " last" if k == n - 1 else " middle"), prog(ts), prog(["A"] * n)


def repr_use(rng):
    n = rng.choice([3, 8])
    vs = ["V%d" % i for i in range(n)]
    r = rng.choice(list(BITS))
    a1, _ = opts(rng, 'repr = "%s"' % r)
    kind = rng.choice(["no repr", "no repr", "array", "other type in", "other type out", "bound", "assoc"])
    m = rng.choice(["from_repr", "try_from_repr", "from_repr_truncated", "as_repr", "unchecked"])
    t = rng.choice([k for k in BITS if k != r])
    E = lambda a: enum(a, vs)

    def use(ty, out=None):
        e = {"from_repr": "let _ = EnumSet::<E>::from_repr(1%s);" % ty, "try_from_repr": "let _ = EnumSet::<E>::try_from_repr(1%s);" % ty,
             "from_repr_truncated": "let _ = EnumSet::<E>::from_repr_truncated(1%s);" % ty, "as_repr": "let x: %s = EnumSet::<E>::all().as_repr();" % ty,
             "unchecked": "let _ = unsafe { EnumSet::<E>::from_repr_unchecked(1%s) };" % ty}[m]
        return "pub fn f() { %s }\n" % e
    if kind == "no repr":
        b = rng.choice(["", "#[enumset(serialize_repr = \"u8\")] ", "#[repr(u8)] ", "#[repr(C)] ", "#[enumset(no_ops)] "])
        # even with the type the set would have in memory
        mem = "u8"
        return kind + " " + m, E(b) + use(mem), E('#[enumset(repr = "u8")] ') + use(mem)
    # also sets of two words, of which only u128 is an integer
    wide = rng.random() < .4
    far = ["V0", "V1 = %d" % rng.choice([64, 90, 127])] if wide else vs
    a128 = '#[enumset(repr = "u128")] ' if wide else a1
    no = rng.choice(['#[enumset(repr = "array")] ', "", "#[repr(u8)] "] if wide else ['#[enumset(repr = "array")] '])
    W = lambda a: enum(a, far)
    how = "wide " if wide else ""
    if kind == "array":
        rest = "pub fn f() { let %s; let _ = x; }\n" % rng.choice(["x = EnumSet::<E>::all().as_repr()", "x = EnumSet::<E>::from_repr_truncated(Default::default())",
                "x = EnumSet::<E>::try_from_repr(EnumSet::<E>::new().as_repr())", "x: EnumSet<E> = EnumSet::from_repr(EnumSet::<E>::new().as_repr())"] if no != '#[enumset(repr = "array")] ' or not wide else ["x = EnumSet::<E>::all().as_repr()"])
        name = "as_repr" if "all()" in rest else "truncated" if "truncated" in rest else "try" if "try_" in rest else "from"
        return ("%s%s %s %s" % (how, kind, no, name) if wide else kind), W(no) + rest, W(a128) + rest
    if kind in ("other type in", "other type out"):
        return kind + " " + m, E(a1) + use(t), E(a1) + use(r)
    if kind == "bound":
        rest = "pub fn g<T: EnumSetTypeWithRepr>() {}\npub fn f() { g::<E>() }\n"
        b = rng.choice(["", '#[enumset(repr = "array")] ', "#[repr(u8)] "])
        return "%s%s %s" % (how, kind, b), W(b) + rest, W(a128) + rest
    if wide:
        rest = "pub fn f() { let _: <E as EnumSetTypeWithRepr>::Repr = %s; }\n"
        return "%s%s %s" % (how, kind, no), W(no) + rest % "todo!()", W(a128) + rest % "todo!()"
    rest = "pub fn f() { let _: <E as EnumSetTypeWithRepr>::Repr = 1%s; }\n"
    return kind, E(a1) + rest % t, E(a1) + rest % r


def suppressed(rng):
    k = rng.choice([3, 12, 40, 70])
    vs = ["V%d" % i for i in range(k)]
    o2 = rng.choice(["", ', repr = "array"', ', repr = "u128"', ", serialize_deny_unknown"])
    if rng.random() < .75:
        e = rng.choice(["E::V0 | E::V1", "E::V0 & E::V1", "E::V0 ^ E::V1", "E::V0 - E::V1", "!E::V0", "E::V0 == EnumSet::only(E::V1)", "E::V0 | EnumSet::all()", "E::V0 & EnumSet::new()",
                        "E::V2 - EnumSet::all()", "E::V2 ^ EnumSet::only(E::V1)", "E::V0 != EnumSet::new()"])
        rest = "pub fn f() { let _ = %s; }\n" % e
        # the permitted twins: without the option, or the same on sets
        good = enum("#[enumset(%s)] " % o2[2:] if o2 else "", vs) + rest
        if rng.random() < .4:
            good = enum("#[enumset(no_ops%s)] " % o2, vs) + "pub fn f() { let _ = %s; }\n" % e.replace("!E::V0", "!EnumSet::only(E::V0)").replace("E::V0 ", "EnumSet::only(E::V0) ").replace("E::V2 ", "EnumSet::only(E::V2) ")
        return "no_ops " + e, enum("#[enumset(no_ops%s)] " % o2, vs) + rest, good
    # no_super_impls without the impls the trait needs
    missing = rng.choice(["Copy", "Clone", "PartialEq", "Eq", "all"])
    have = [] if missing == "all" else {"Copy": ["Clone", "PartialEq", "Eq"], "Clone": ["PartialEq", "Eq"], "PartialEq": ["Clone", "Copy"], "Eq": ["Clone", "Copy", "PartialEq"]}[missing]
    p = lambda h: HEAD + "#[derive(%s)] #[enumset(no_super_impls%s)] pub enum E { %s }\n" % (", ".join(h + ["EnumSetType"]), o2, ", ".join(vs))
    return "no_super_impls without " + missing, p(have), p(["Clone", "Copy", "PartialEq", "Eq"])


def unsafe_use(rng):
    """The unchecked conversions are unsafe functions; only enums that derive EnumSetType have sets."""
    n, a, words = rng.choice([(3, "", 1), (8, "", 1), (20, "", 1), (64, "", 1), (70, "", 2), (130, "", 3), (5, '#[enumset(repr = "array")] ', 1), (5, '#[enumset(repr = "u128")] ', 2)])
    vs = ["V%d" % i for i in range(n)]
    if rng.random() < .3:
        h = enum(a, vs) + "%s#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)] pub enum F { %s }\n" % (rng.choice(["", "#[repr(u8)] "]), ", ".join(vs))
        ty = rng.choice(["F", "F", "u8", "bool", "()", "Option<E>", "EnumSet<E>", "core::cmp::Ordering"])
        k, use = rng.choice([("field", "pub struct S { pub s: EnumSet<%s> }"), ("all", "pub fn f() { let _ = EnumSet::<%s>::all(); }"), ("new", "pub fn f() { let _ = EnumSet::<%s>::new(); }"),
                             ("iter", "pub fn f(x: EnumSetIter<%s>) {}"), ("bound", "fn g<T: EnumSetType>() {} pub fn f() { g::<%s>() }"), ("array", "pub fn f(x: [EnumSet<%s>; 2]) { let _ = x.iter().count(); }")])
        return "no set, %s" % k, h + use % ty, h + use % "E"
    r = rng.choice(["u8", "u16", "u32", "u64", "u128", "usize", "array", "slice", "repr"])
    if r == "repr":
        r2 = rng.choice([k for k in BITS if BITS[k] >= min(n, 128) or BITS[k] >= n]) if n <= 128 else "u128"
        n = min(n, BITS[r2])
        h, call = enum('#[enumset(repr = "%s")] ' % r2, vs[:n]), "from_repr_unchecked(1)"
    else:
        h = enum(a, vs)
        call = {"array": "from_array_unchecked([1; %d])" % rng.choice([1, words]), "slice": "from_slice_unchecked(&[1])"}.get(r, "from_%s_unchecked(1)" % r)
    b, g = rng.choice([("pub fn f() { let _ = EnumSet::<E>::%s; }", "pub fn f() { let _ = unsafe { EnumSet::<E>::%s }; }"), ("pub fn f() -> EnumSet<E> { EnumSet::%s }", "pub unsafe fn f() -> EnumSet<E> { EnumSet::%s }"),
                       ("fn g(f: fn(EnumSet<E>)) {} pub fn f() { let s: EnumSet<E> = <EnumSet<E>>::%s; g(|_| ()); }", "fn g(f: fn(EnumSet<E>)) {} pub fn f() { let s: EnumSet<E> = unsafe { <EnumSet<E>>::%s }; g(|_| ()); }")])
    return "unchecked %s" % r, h + b % call, h + g % call


FAMILIES = [("unsafe", unsafe_use, 10), ("item", item_shapes, 16), ("discriminant", discriminants, 20), ("option", options, 18), ("repr too small", reprs, 20), ("mixed enums", mixing, 22),
            ("mixed macros", macros, 14), ("repr conversion", repr_use, 12), ("suppressed", suppressed, 10)]


def cases(seed, n):
    """About n different cases: (family, kind, rejected program, permitted program)."""
    rng = random.Random("reject/%s" % seed)
    seen = set()
    out = []
    total = sum(w for _, _, w in FAMILIES)
    for fam, f, w in FAMILIES:
        want = n * w // total
        kinds = {}
        for _ in range(want * 12):
            kind, bad, good = f(rng)
            if bad not in seen:
                seen.add(bad)
                kinds.setdefault(kind, []).append((bad, good))
        # every kind alike
        while want and kinds:
            for k in sorted(kinds):
                if want:
                    bad, good = kinds[k].pop()
                    out.append((fam, k, bad, good))
                    want -= 1
                if not kinds[k]:
                    del kinds[k]
    return out
