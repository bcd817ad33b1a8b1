#!/usr/bin/env python3
"""Shape catalogue and source generator for the enum "zoo" that the monitors run over.

A Shape is a fieldless enum definition plus everything the oracles need to know about it, computed
here from the Rust reference (implicit discriminant = previous + 1), not from enumset.
"""
import random, re

INTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}


class Shape:
    def __init__(self, name, discs, explicit="auto", erepr=None, repr=None, ser=None, deny=False,
                 no_ops=False, no_super=False, tags=(), lit=None, vnames=None, decor=None, legacy=None):
        self.name = name
        self.discs = list(discs)          # in declaration order
        self.erepr, self.repr, self.ser, self.deny = erepr, repr, ser, deny
        self.no_ops, self.no_super, self.tags = no_ops, no_super, tuple(tags)
        self.vnames = vnames or ["V%d" % i for i in range(len(self.discs))]
        self.legacy = legacy              # deprecated spelling of serialize_repr
        self.decor = decor                # random source for the spelling of the definition
        prev = -1
        self.explicit = []                # literal text or None
        for i, d in enumerate(self.discs):
            if d == prev + 1 and not (explicit == "all"):
                self.explicit.append(None)
            else:
                self.explicit.append((lit or str)(d))
            prev = d

    @property
    def max(self):
        return max(self.discs) if self.discs else 0

    @property
    def width(self):
        return self.max + 1 if self.discs else 0

    @property
    def words(self):
        return max(1, (self.width + 63) // 64)

    def max_size(self):
        """Documented storage: explicit repr, else smallest integer, else words of u64."""
        if self.repr in INTS:
            return INTS[self.repr] // 8
        if self.repr == "array" or self.max >= 64:
            return 8 * self.words
        for n, b in INTS.items():
            if self.max < b:
                return b // 8

    def serde_kind(self):
        if self.ser:
            return self.ser
        for n, b in INTS.items():
            if self.max < b:
                return n
        return "array"

    def options(self):
        o = []
        if self.repr: o.append('repr = "%s"' % self.repr)
        if self.legacy: o += self.legacy
        elif self.ser: o.append('serialize_repr = "%s"' % self.ser)
        if self.deny: o.append("serialize_deny_unknown")
        if self.no_ops: o.append("no_ops")
        if self.no_super: o.append("no_super_impls")
        return o

    def definition(self, derive="EnumSetType", vis="pub ", extra=""):
        s = ""
        if self.erepr:
            s += "#[repr(%s)] " % self.erepr
        s += "#[derive(%s)] " % derive
        if self.no_super:
            s += "#[derive(Copy, Clone, PartialEq, Eq)] "
        s += extra
        if self.decor:
            return self.decorated(derive, vis, extra)
        if self.options():
            s += "#[enumset(%s)] " % ", ".join(self.options())
        vs = ", ".join(n + (" = %s" % e if e is not None else "")
                       for n, e in zip(self.vnames, self.explicit))
        return s + "%senum %s { %s }" % (vis, self.name, vs)

    def decorated(self, derive, vis, extra):
        """The same definition in another spelling: order and splitting of attributes, comments,
        cfg, literal suffixes, trailing commas."""
        rng = random.Random(self.decor)
        attrs = []
        if self.erepr: attrs.append("#[repr(%s)]" % self.erepr)
        elif rng.random() < 0.2: attrs.append("#[repr(Rust)]") 
        if self.no_super: attrs.append("#[derive(Copy, Clone, PartialEq, Eq)]")
        if rng.random() < 0.4: attrs.append("#[derive(%s)]" % rng.choice(["Hash", "PartialOrd, Ord", "Hash, PartialOrd, Ord"]) if self.discs else "#[derive(Hash)]")
        if rng.random() < 0.3: attrs.append("#[allow(dead_code)]")
        if rng.random() < 0.3: attrs.append('#[doc = "Some enum."]')
        if rng.random() < 0.2: attrs.append("#[non_exhaustive]")
        if rng.random() < 0.2: attrs.append("#[cfg_attr(all(), allow(unused))]")
        rng.shuffle(attrs)
        # the derive comes before its helper attributes
        attrs.insert(rng.randint(0, len(attrs)), "#[derive(%s)]" % derive)
        if extra: attrs.append(extra.strip())
        o = self.options()
        rng.shuffle(o)
        while o:
            k = rng.randint(1, len(o))
            a = "#[enumset(%s%s)]" % (", ".join(o[:k]), rng.choice(["", ","]))
            attrs.insert(rng.randint(attrs.index("#[derive(%s)]" % derive) + 1, len(attrs)), a)
            o = o[k:]
        if rng.random() < 0.15: attrs.append("#[enumset()]")
        suffix = self.erepr if self.erepr not in (None, "C", "Rust") else "isize"
        vs = []
        for n, e in zip(self.vnames, self.explicit):
            v = ""
            if rng.random() < 0.15: v += "/** A variant. */ "
            if rng.random() < 0.1: v += "#[allow(non_camel_case_types)] "
            if rng.random() < 0.1: v += "#[cfg(all())] "
            if rng.random() < 0.08: v += "#[cfg(any())] Gone%d = %d, " % (len(vs), rng.choice([0, 5, 70, 900]))
            v += n
            if e is not None:
                if rng.random() < 0.3: e = "_".join(e[i:i + 3] for i in range(0, len(e), 3)) if e.isdigit() else e
                if rng.random() < 0.25: e += rng.choice(["", "_"]) + suffix
                v += rng.choice([" = ", "="]) + e
            vs.append(v)
        return "%s %senum %s { %s%s }" % (" ".join(attrs), vis, self.name, ", ".join(vs), rng.choice(["", ","]) if vs else "")

    def zoo(self):
        serde = ""
        if self.serde_kind() in ("list", "map"):
            serde = '#[cfg_attr(feature = "serde", derive(serde::Serialize, serde::Deserialize))] '
        d = self.definition(extra=serde)
        ord_ = "derived" if re.search(r"derive\([^)]*\bOrd\b", d) else "own"
        body = "zoo_impl!(%s, %s, %s, src = r##\"%s\"##, words = %d, width = %d, size = %d, ser = \"%s\", deny = %s, vars = [%s]);\n" % (
            self.name, "no_ops" if self.no_ops else "ops", ord_, d.replace(serde, ""), self.words, self.width,
            self.max_size(), self.serde_kind(), "true" if self.deny else "false",
            ", ".join("%s = %d" % (n, v) for n, v in zip(self.vnames, self.discs)))
        if self.repr in INTS:
            body += "zoo_repr!(%s, %s);\n" % (self.name, self.repr)
        else:
            body += "zoo_norepr!(%s);\n" % self.name
        return d + "\n" + body


def dense(n):
    return range(n)


def lits(rng):
    def f(d):
        return rng.choice([str(d), hex(d), bin(d), oct(d), "0b%s" % "_".join(bin(d)[2:]), "%d" % d])
    return f


def random_shape(rng, name, maxvar=24, allow_ser=False, maxd=None):
    cap = maxd or rng.choice([8, 9, 16, 17, 32, 33, 64, 65, 66, 128, 129, 190, 256, 400, 700])
    n = rng.randint(1, min(maxvar, cap))
    mode = rng.randint(0, 4)
    if maxvar >= 24 and rng.random() < 0.12:      # nearly dense
        cap = min(cap, 300)
        gone = set(rng.sample(range(cap), rng.randint(0, max(0, min(cap - 1, 8)))))
        n, mode = cap - len(gone), 5
    if mode == 0:
        ds = rng.sample(range(cap), n)
    elif mode == 1:
        ds = sorted(rng.sample(range(cap), n))
    elif mode == 2:
        ds = sorted(rng.sample(range(cap), n), reverse=True)
    elif mode == 3:                      # runs, with word boundaries
        ds, seen = [], set()
        while len(ds) < n:
            b = rng.choice([rng.randrange(cap), 63, 64, 127, 128, 191, 192, cap - 1, 0, 62])
            for k in range(rng.randint(1, 5)):
                if b + k < cap and b + k not in seen and len(ds) < n:
                    ds.append(b + k); seen.add(b + k)
            if len(seen) >= cap: break
    elif mode == 5:
        ds = [x for x in range(cap) if x not in gone]
        if rng.random() < 0.3: rng.shuffle(ds)
    else:                                # boundaries only
        c = [x for x in (0, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 129, 191, 192, 255, 256, cap - 1) if x < cap]
        c = list(dict.fromkeys(c)); rng.shuffle(c); ds = c[:n]
    m = max(ds)
    erepr = None
    if rng.random() < 0.5:
        er = ["C", "u32", "i32", "u64", "i64", "usize", "isize", "u128", "i128"]
        if m < 256: er += ["u8"] * 2
        if m < 128: er += ["i8"] * 2
        if m < 65536: er += ["u16"] * 2
        if m < 32768: er += ["i16"]
        erepr = rng.choice(er)
    repr = None
    if rng.random() < 0.45:
        repr = rng.choice([k for k, b in INTS.items() if m < b] + ["array"])
    ser, deny = None, False
    if allow_ser:
        ser = rng.choice([None] + [k for k, b in INTS.items() if m < b] + ["array", "array", "list", "map"])
        deny = rng.random() < 0.4
    return Shape(name, ds, erepr=erepr, repr=repr, ser=ser, deny=deny,
                 no_ops=rng.random() < 0.1, no_super=rng.random() < 0.1, tags=("random",), lit=lits(rng),
                 explicit=rng.choice(["auto", "auto", "all"]))


def core_shapes():
    S = []
    for n in (1, 2, 3, 7, 8, 9, 16, 17, 32, 33, 63, 64, 65, 100, 127, 128, 129, 192, 193, 256, 300):
        S.append(Shape("Dense%d" % n, dense(n)))
    for ds in ([0, 63], [0, 64], [63, 64], [62, 63, 64, 65], [0, 127], [127, 128], [0, 191], [191, 192],
               [0, 200, 400], [1000], [5], [64], [63], [100, 200, 300, 400, 500, 600, 700, 800],
               [0, 511, 512], [1, 3, 6, 7], [9, 14], [20, 30], [40, 62], [10, 20, 30, 40, 50, 60, 70, 80],
               [64, 128, 192, 256, 320], [63, 127, 191, 255, 319], [130, 131], [300, 2, 150, 64, 63, 301]):
        S.append(Shape("Sparse" + "_".join(map(str, ds)), ds))
    S += [
        Shape("ReprU8", [0, 1, 2], repr="u8"), Shape("ReprU8Full", dense(8), repr="u8"),
        Shape("ReprU16", [0, 7, 8, 15], repr="u16"), Shape("ReprU16Wide", [0, 1, 5], repr="u16"),
        Shape("ReprU32", [0, 15, 16, 31], repr="u32"), Shape("ReprU32Wide", dense(4), repr="u32"),
        Shape("ReprU64", [0, 31, 32, 63], repr="u64"), Shape("ReprU64Full", dense(64), repr="u64"),
        Shape("ReprU64Wide", [3], repr="u64"),
        Shape("ReprU128", [0, 63, 64, 127], repr="u128"), Shape("ReprU128Full", dense(128), repr="u128"),
        Shape("ReprU128Wide", dense(3), repr="u128"), Shape("ReprU128Mid", [60, 61, 62, 66, 67], repr="u128"),
        Shape("Array1", dense(5), repr="array"), Shape("Array1Full", dense(64), repr="array"),
        Shape("Array1Ends", [0, 63], repr="array"),
        Shape("Array2", [0, 1, 2, 64], repr="array"), Shape("Array2Hi", [64, 65, 66, 127], repr="array"),
        Shape("Array3", [0, 1, 128], repr="array"),
        Shape("Mixed", [5, 1, 2, 0, 12, 11, 7]), Shape("MixedHi", [200, 199, 64, 63, 0, 130, 131]),
        Shape("CReprU8", [0, 1, 2, 3, 200, 255], erepr="u8"), Shape("CReprI8", [0, 5, 127], erepr="i8"),
        Shape("CReprU16", [300, 5, 6], erepr="u16"), Shape("CReprI16", dense(10), erepr="i16"),
        Shape("CReprU32", [700, 3, 64], erepr="u32"), Shape("CReprI32", dense(6), erepr="i32"),
        Shape("CReprU64", [0, 64, 65], erepr="u64"), Shape("CReprI64", dense(20), erepr="i64"),
        Shape("CReprUsize", [1, 2, 90], erepr="usize"), Shape("CReprIsize", dense(26), erepr="isize"),
        Shape("CReprC", [3, 4, 70], erepr="C"), Shape("CReprU128", [0, 1, 129], erepr="u128"),
        Shape("CReprI128", dense(12), erepr="i128"),
        Shape("CReprOne", [7], erepr="u8"), Shape("CReprHoles", [0, 2, 4, 6, 250], erepr="u8", repr="array"),
        Shape("Empty", []), Shape("EmptyU8", [], repr="u8"), Shape("EmptyU128", [], repr="u128"),
        Shape("EmptyArray", [], repr="array"),
        Shape("OneHi", [77]), Shape("OneArr", [0], repr="array"), Shape("OneU128", [127], repr="u128"),
        Shape("NoOps", [0, 9, 65], no_ops=True), Shape("NoSuper", [1, 2, 8], no_super=True),
        Shape("NoBoth", dense(70), no_ops=True, no_super=True, erepr="u8"),
    ]
    # nearly full storage: more variants than holes, with and without the top bit
    for nm, ds, r in (("U8", hole(8, 3), "u8"), ("U8Low", hole(7, 0), None), ("U16", hole(16, 0, 9), None), ("U16Low", hole(15, 7), "u16"),
                      ("U32", hole(32, 15), None), ("U32Low", hole(31, 8, 16), "u32"), ("U64", hole(64, 31), None), ("U64Low", hole(62, 0, 40), "u64"),
                      ("U128", hole(128, 64), "u128"), ("U128Low", hole(90, *range(70, 80)), "u128"), ("U128Lo", hole(81, 64, 66), "u128"),
                      ("Arr1", hole(64, 1), "array"), ("Arr2", hole(128, 63), None), ("Arr2Low", hole(101, *range(64, 100)), None),
                      ("Arr3", hole(192, 1, 100), None), ("Arr3Low", hole(140, 0, 64), "array"), ("Arr4", hole(256, 255, *range(120, 200)) + [255], None)):
        S.append(Shape("Near" + nm, ds, repr=r))
    # every number of words, and more members than a byte or two bytes' worth of flags could count
    for ds in ([0, 290], [1, 64, 383], [3, 447], [5, 70, 200, 511], [0, 640, 703], [2, 130, 767], [7, 1023], [0, 1024, 1087]):
        S.append(Shape("Words%d" % (max(ds) // 64 + 1), ds))
    S.append(Shape("Dense520", dense(520)))
    # discriminants that need more than 16 bits
    S.append(Shape("Huge", [1, 255, 256, 65535, 65536, 65537, 65792]))
    return S


def hole(n, *holes):
    return [x for x in range(n) if x not in holes]


def serde_shapes():
    S = []
    i = 0

    def add(ds, **k):
        nonlocal i
        S.append(Shape("S%02d_%s_%s%s" % (i, k.get("ser") or "def", k.get("repr") or "auto",
                                          "_deny" if k.get("deny") else ""), ds, **k))
        i += 1
    # default representation at every width boundary
    for ds in ([0], [0, 7], [0, 8], [0, 15], [16, 3], [0, 31], [32], [63, 5], [0, 64], [127, 2, 64], [128, 0],
               [63, 64, 128, 191], [192, 1], [], [300, 20, 100], dense(8), dense(64), dense(128), dense(130)):
        add(ds)
    for ds in ([0, 2, 5], [0, 100], [1, 130, 200], [5, 63], dense(8), [0, 1, 2, 3, 30]):
        add(ds, deny=True)
    # the default form does not follow the storage
    for r, ds in (("u16", [0, 1]), ("u32", [2, 7]), ("u64", [0, 8]), ("u128", [0, 5]), ("u128", [1, 31]), ("u128", [40, 63]), ("array", [3]), ("array", [0, 14]), ("array", [33, 2])):
        add(ds, repr=r)
    # integers over every storage
    for deny in (False, True):
        add([0, 2, 6], ser="u8", deny=deny)
        add([0, 1, 7], ser="u8", repr="u128", deny=deny)
        add([0, 2, 7], ser="u8", repr="array", deny=deny)
        add([1, 9, 15], ser="u16", deny=deny)
        add([1, 3], ser="u16", repr="u64", deny=deny)
        add([0, 1], ser="u32", repr="u8", deny=deny)
        add([0, 31], ser="u32", repr="array", deny=deny)
        add([0, 33, 63], ser="u64", deny=deny)
        add([2, 4], ser="u64", repr="u16", deny=deny)
        add([0, 63], ser="u64", repr="array", deny=deny)
        add([0, 1, 2], ser="u128", deny=deny)
        add([0, 64, 127], ser="u128", deny=deny)
        add([0, 64, 127], ser="u128", repr="u128", deny=deny)
        add([0, 60], ser="u128", repr="array", deny=deny)
        # word lists
        add([0, 1, 5], ser="array", deny=deny)
        add([0, 63], ser="array", repr="u64", deny=deny)
        add([0, 64, 120], ser="array", repr="u128", deny=deny)
        add([0, 5], ser="array", repr="array", deny=deny)
        add([0, 64, 129], ser="array", deny=deny)
        add([1, 250], ser="array", deny=deny)
        add([], ser="array", deny=deny)
        # lists and maps of variants
        for r in ("list", "map"):
            add([0, 1, 2, 9], ser=r, deny=deny)
            add([3, 200, 64], ser=r, deny=deny)
            add([2], ser=r, repr="u128", deny=deny)
            add([0, 4], ser=r, repr="array", deny=deny)
    # the deprecated spellings; of both, the list wins
    add([3, 1, 70], ser="list", legacy=["serialize_as_list"]); add([3, 1, 70], ser="map", legacy=["serialize_as_map"])
    add([0, 2, 1], ser="list", legacy=["serialize_as_map", "serialize_as_list"], deny=True)
    add([], ser="list"); add([], ser="map"); add(dense(70), ser="list"); add(dense(66), ser="map")
    # sizes past the thresholds of a byte, and nearly full storage
    for r in ("list", "map"):
        add(dense(129), ser=r); add(dense(260), ser=r, deny=True); add(hole(300, 5, 64), ser=r)
    add([1, 70, 260, 500]); add([0, 320, 577, 900]); add(dense(300)); add(hole(270, 100, 269), deny=True); add([2, 448], deny=True)
    for ds in (hole(8, 2), hole(16, 5), hole(32, 0), hole(64, 33), hole(128, 70), hole(100, 64), hole(13, 3)):
        add(ds); add(ds, deny=True)
    add(hole(128, 64), repr="u128"); add(hole(90, 3, 70), repr="u128", deny=True); add(hole(90, 3, 70), repr="u128", ser="array")
    add(hole(64, 0), repr="array", ser="u64"); add(hole(64, 0), repr="array", ser="u128", deny=True)
    add([0, 256, 65536, 65537]); add([1, 65535, 65537], ser="map"); add([2, 65538, 66], ser="list")
    add([5, 64, 1], ser="list", erepr="u8", no_ops=True); add([5, 2], ser="map", no_super=True)
    return S


def miri_shapes():
    return [Shape("MDense3", dense(3)), Shape("MOne", [9]), Shape("MEmpty", []), Shape("MDense9", dense(9)),
            Shape("M8", [0, 7]), Shape("M31", [0, 15, 16, 31]), Shape("M63", [0, 62, 63]),
            Shape("M64", [0, 63, 64]), Shape("M127", [64, 127]), Shape("M128", [1, 127, 128]),
            Shape("M4w", [0, 63, 64, 128, 191, 192, 255]), Shape("M6w", [320, 2, 130]),
            Shape("M8w", [0, 70, 300, 511], erepr="u16"), Shape("M13w", [1, 800, 64]), Shape("MNear", hole(71, 64, 3)),
            Shape("MU8", [1, 2, 5], repr="u8"), Shape("MU16", [0, 15], repr="u16"),
            Shape("MU32", [0, 31], repr="u32"), Shape("MU64", [0, 63], repr="u64"),
            Shape("MU128", [0, 64, 127], repr="u128"), Shape("MArr", [0, 3, 63], repr="array"),
            Shape("MEu8", [0, 3, 200, 255], erepr="u8"), Shape("MEi8", [0, 127], erepr="i8"),
            Shape("MEu16", [0, 300, 5], erepr="u16"), Shape("MEi16", [400, 2], erepr="i16"),
            Shape("MEu32", [70, 2, 1], erepr="u32"), Shape("MEu64", [66, 0], erepr="u64"),
            Shape("MEi64", [1, 65], erepr="i64"), Shape("MEusize", [0, 40], erepr="usize"),
            Shape("MEC", [3, 90], erepr="C"), Shape("MEu128", [5, 140], erepr="u128"),
            Shape("MHoles", [0, 2, 4, 6], erepr="u8"), Shape("MGap", [0, 1, 2, 4, 5, 255]),
            Shape("MOrder", [5, 1, 0, 7, 6, 100])]


def ffi_shapes(small=False):
    S = []
    for r, b in INTS.items():
        sets = [[0], [b - 1], [0, b - 1], [b - 1, 0, 1], [2, 4], dense(b)]
        if b > 8: sets += [[7, 8], [b // 2 - 1, b // 2], [3, 1, b // 2]]
        if b == 128: sets += [[63, 64], [0, 64, 127], [64, 65, 126]]
        sets += [[1, 2, 5], []]
        if small: sets = [sets[2], sets[4], sets[-3]]
        for i, d in enumerate(sets):
            S.append(Shape("F%s_%d" % (r, i), d, repr=r,
                           erepr=[None, "u8", "C", "u16", "i32"][i % 5] if d else None))
    S.append(Shape("FNoOps", [0, 9], repr="u16", no_ops=True))
    S.append(Shape("FNoSuper", [1, 33], repr="u64", no_super=True))
    return S


NAMES = ["r#type", "r#match", "r#fn", "Größe", "名前", "_0", "_x", "a", "A", "None", "Some", "Ok", "Err", "Vec", "Option", "EnumSet", "EnumSetType",
         "u8", "u32", "Sub", "Not", "Into", "Repr", "ALL_BITS", "Output", "Item", "E", "T", "O", "S", "D", "self_", "core", "serde", "enumset", "Deref",
         "BIT_WIDTH", "ConstHelper", "EMPTY", "IS_U8", "x", "val", "set", "value", "helper", "other", "new", "only", "r#async", "Copy", "Clone", "Eq"]


def decl_shapes(rng):
    S = core_shapes() + serde_shapes()
    for ds in ([4095], [0, 1300, 2600], [10000], list(range(500, 700)), [2047, 2048, 0], list(range(0, 1100, 11))):
        S.append(Shape("Big%d_%d" % (len(ds), max(ds)), ds))
    S.append(Shape("BigArray", [0, 1279, 1280], repr="array", erepr="u16"))
    # every documented option next to every other
    i = 0
    for r in (None, "u8", "u16", "u32", "u64", "u128", "array"):
        for ser in (None, "u8", "u16", "u32", "u64", "u128", "list", "map", "array"):
            k = i % 8
            S.append(Shape("Opt%d" % i, [[0, 1], [7, 0], [3], dense(8)][i % 4], repr=r, ser=ser, deny=bool(k & 1), no_ops=bool(k & 2), no_super=bool(k & 4),
                           erepr=[None, "u8", "C", "i64"][i // 4 % 4], decor="%d/%d" % (i, rng.random() * 1e9), lit=lits(rng)))
            i += 1
    # values of every kind of literal: 0 prefixes, boundaries of the literal types
    for j, e in enumerate(["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "i128", "usize", "isize", "C"]):
        S.append(Shape("Lit_%s" % e, [127, 0, 1, 64, 63, 9, 10, 100], erepr=e, decor="lit%d" % j, lit=lits(rng), explicit="all"))
    for j in range(4):
        n = rng.sample(NAMES, 30)
        sh = Shape("Names%d" % j, rng.sample(range(90), 30), vnames=n, decor="n%d" % j)
        S.append(sh)
    return S


def strata(rng):
    """One sparse enum for every stretch of 16 (32 above 320) highest discriminants; which one depends on the seed."""
    S = []
    for lo in [*range(64, 320, 16), *range(320, 640, 32)]:
        m = lo + rng.randrange(16 if lo < 320 else 32)
        pool = [x for x in range(m) if x % 64 in (0, 1, 62, 63)] + rng.sample(range(m), 6)
        S.append(Shape("Str%d" % m, list(dict.fromkeys(rng.sample(pool, rng.randint(2, 5)) + [m])), repr=rng.choice([None, None, "array", "u128" if m < 128 else None])))
    return S


def crossed(rng, half):
    """Storage next to serialized form: half of all the combinations, the other half in the next round."""
    S, i = [], 0
    for r in (None, "u8", "u16", "u32", "u64", "u128", "array"):
        for ser in (None, "u8", "u16", "u32", "u64", "u128", "array", "list", "map"):
            i += 1
            if i % 2 == half and (r or ser):
                m = min([INTS.get(x, 128) for x in (r, ser)]) - 1
                m = rng.choice([m, rng.randint(0, min(m, 7)), rng.randint(0, m)])
                S.append(Shape("X_%s_%s" % (r, ser), list(dict.fromkeys([m, rng.randint(0, m), rng.randint(0, m)])), repr=r, ser=ser, deny=i // 2 % 2 == 0))
    return S


def shapes(profile, seed, nrandom):
    rng = random.Random("%s/%s" % (profile, seed))
    base = {"core": core_shapes, "serde": serde_shapes, "miri": miri_shapes, "ffi": ffi_shapes, "decl": lambda: decl_shapes(rng),
            "ffi-miri": lambda: ffi_shapes(True)}[profile]()
    if profile in ("core", "serde", "decl") and nrandom:
        base += strata(rng)
    if profile == "serde" and nrandom:
        base += crossed(rng, seed // 1000 % 2)
    for k in range(nrandom):
        if profile.startswith("ffi"):
            r = rng.choice(list(INTS))
            sh = random_shape(rng, "Rand%d" % k, maxd=rng.randint(1, INTS[r]))
            sh.repr = r
            base.append(sh)
            continue
        sh = random_shape(rng, "Rand%d" % k, allow_ser=profile in ("serde", "decl"), maxvar=8 if profile == "miri" else 24)
        if profile == "decl":
            sh.decor = "%s/%d" % (seed, k)
        base.append(sh)
    return base


def zoo_source(shs):
    s = "// generated by tools/gen.py\n"
    for sh in shs:
        s += "// @shape %s\n" % sh.name + sh.zoo()
    s += "// @end\n\npub fn visit_all<V: Visitor>(v: &V) -> Vec<Job<'_>> {\n    vec![\n"
    for sh in shs:
        s += '        v.visit::<%s>("%s"),\n' % (sh.name, sh.name)
    s += "    ]\n}\n"
    return s


# ---------------------------------------------------------------- constants for C12
MACROS = {"enum_set": "|", "enum_set_union": "|", "enum_set_intersection": "&", "enum_set_difference": "-",
          "enum_set_symmetric_difference": "^"}


def const_programs(shs, seed, per):
    rng = random.Random("const/%s" % seed)
    out = []
    mods = []
    for sh in shs:
        vs = list(zip(sh.vnames, sh.discs))
        full = frozenset(sh.discs)
        lines, pool, checks, assoc = ["pub struct Self_; pub type Alias = E;"], [], [], set()

        def new(expr, val, how):
            # a constant of the module, a static, one of a type, the result of a constant function or of a block
            n = "C%d" % len(pool)
            if how == "assoc":
                assoc.add(n)
                lines.append("impl Self_ { pub const %s: EnumSet<E> = %s; } pub const %s: EnumSet<E> = Self_::%s;" % (n, expr, n, n))
            elif how == "fn":
                lines.append("pub const fn f%d() -> EnumSet<E> { let x = %s; x } pub const %s: EnumSet<E> = f%d();" % (len(pool), expr, n, len(pool)))
            elif how == "block":
                lines.append("pub const %s: EnumSet<E> = { const INNER: [EnumSet<E>; 2] = [EnumSet::new(), %s]; if COUNT >= 0 { INNER[1] } else { INNER[0] } };" % (n, expr))
            else:
                lines.append("pub %s %s: EnumSet<E> = %s;" % (how, n, expr))
            pool.append((None if how == "static" else n, val))
            checks.append((n, expr, val))
        new("EnumSet::new()", frozenset(), "const")
        new("EnumSet::empty()", frozenset(), "const")
        new("EnumSet::all()", full, "const")
        new("enum_set!(%s)" % rng.choice(["", "", "|", "| |"]), frozenset(), "const")
        if vs:
            for i in sorted({0, len(vs) - 1, max(range(len(vs)), key=lambda k: vs[k][1])}):
                new("enum_set!(E::%s)" % vs[i][0], frozenset([vs[i][1]]), "const")
            for n in (2, len(vs)):
                pick = vs if n == len(vs) else [rng.choice(vs) for _ in range(n)]
                if len(pick) > 40: pick = rng.sample(pick, 40)
                new("enum_set!(%s)" % " | ".join("E::" + a for a, _ in pick), frozenset(d for _, d in pick), "const")

        def operand():
            # constants are used twice as often as bare variants
            c = [x for x in pool if x[0]]
            if vs and rng.random() < 0.35:
                a, d = rng.choice(vs)
                return rng.choice(["E::", "E::", "E::", "self::E::", "Alias::", "super::super::zoo::%s::" % sh.name]) + a, frozenset([d])
            if rng.random() < .08:
                return rng.choice([("EnumSet::<E>::EMPTY", frozenset()), ("EnumSet::<E>::ALL", full), ("enumset::EnumSet::<Alias>::ALL", full)])
            n, v = rng.choice(c)
            return rng.choice([n, n, n, "self::" + n, "Self_::" + n if n in assoc else n]), v
        for _ in range(per):
            m = rng.choice(list(MACROS) + ["enum_set_complement"])
            how = rng.choice(["const"] * 7 + ["static", "assoc", "fn", "block"])
            if m == "enum_set_complement":
                e, v = operand()
                new("enum_set_complement!(%s)" % e, full - v, how)
                continue
            k = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
            ops = [operand() for _ in range(k)]
            v = ops[0][1]
            for _, w in ops[1:]:
                v = {"|": v | w, "&": v & w, "-": v - w, "^": v ^ w}[MACROS[m]]
            if m == "enum_set":
                args = " | ".join(e for e, _ in ops) + rng.choice(["", "", " |", " |", " | |", " | | |"])
            else:
                args = ", ".join(e for e, _ in ops) + rng.choice(["", ","])
            new("%s!(%s)" % (m, args), frozenset(v), how)
        s = "// @shape %s\npub mod c_%s {\n    use enumset::*; use super::super::zoo::%s as E;\n" % (sh.name, sh.name.lower(), sh.name)
        s += "".join("    %s\n" % l for l in lines)
        s += "    pub const COUNT: u32 = EnumSet::<E>::variant_count();\n    pub const WIDTH: u32 = EnumSet::<E>::bit_width();\n"
        # a pattern match on constants: first constant with equal value must win
        s += "    pub fn matched(x: EnumSet<E>) -> usize { match x {\n"
        seen = set()
        table = {}
        for idx, (n, _, v) in enumerate(checks):
            if pool[idx][0] and v not in seen and len(seen) < 12:
                seen.add(v)
                table[v] = idx
                s += "        %s => %d,\n" % (n, idx)
        s += "        _ => usize::MAX,\n    } }\n"
        s += "    pub fn run(ctx: &crate::Ctx) {\n        crate::c12_meta::<E>(ctx, COUNT, WIDTH);\n"
        for n, e, v in checks:
            s += "        crate::c12_check::<E>(ctx, %s, r#\"%s\"#, &[%s], matched, %s);\n" % (
                n, e, ", ".join(map(str, sorted(v))), table.get(v, "usize::MAX"))
        s += "    }\n}\n"
        mods.append(s)
        out.append(sh.name)
    src = "".join(mods) + "// @end\n"
    src += "pub fn run_all() -> Vec<(&'static str, fn(&crate::Ctx))> { vec![%s] }\n" % ", ".join(
        '("%s", c_%s::run as fn(&crate::Ctx))' % (n, n.lower()) for n in out)
    return src


# ---------------------------------------------------------------- FFI declarations for C08
def ffi_source(shs):
    s, names = "", []
    for sh in shs:
        if sh.repr not in INTS:
            continue
        r, n = sh.repr, sh.name
        names.append(n)
        vs = sh.vnames if len(sh.vnames) <= 12 else sh.vnames[:4] + sh.vnames[-4:]
        E = "zoo::%s" % n
        s += "// @shape %s\npub mod f_%s {\n    use super::*;\n" % (n, n.lower())
        s += "    pub const ALL: %s = EnumSet::<%s>::all().as_repr();\n    pub const NONE: %s = EnumSet::<%s>::new().as_repr();\n" % (r, E, r, E)
        for i, v in enumerate(vs):
            s += "    pub const K%d: %s = enum_set!(%s::%s).as_repr();\n" % (i, r, E, v)
        # declarations as a user writes them: the compiler must consider the types proper for foreign code
        s += "    extern \"C\" { pub fn undefined_%s(a: EnumSet<%s>, b: *mut EnumSet<%s>) -> EnumSet<%s>; }\n" % (n.lower(), E, E, E)
        s += "    pub extern \"C\" fn defined(a: EnumSet<%s>) -> EnumSet<%s> { a }\n" % (E, E)
        s += "    pub static EACH: &[(%s, u128)] = &[%s];\n" % (E, ", ".join("(%s::%s, K%d as u128)" % (E, v, i) for i, v in enumerate(vs)))
        s += "    pub fn run(c: &crate::Ctx) { run_ffi::<%s>(c, Consts { all: ALL as u128, empty: NONE as u128, each: EACH, bits: %d, align: std::mem::align_of::<%s>() }) }\n}\n// @end\n" % (E, INTS[r], r)
    s += "pub fn run_all() -> Vec<(&'static str, fn(&crate::Ctx))> { vec![%s] }\n" % ", ".join(
        '("%s", f_%s::run as fn(&crate::Ctx))' % (n, n.lower()) for n in names)
    return s


# ---------------------------------------------------------------- facts about definitions for C13
def decl_source(shs):
    s, names = "", []
    for sh in shs:
        E = "zoo::%s" % sh.name
        SET = "EnumSet<%s>" % E
        ops, sup, rep = not sh.no_ops, True, sh.repr in INTS
        P = []
        for tr in ("Sub", "BitAnd", "BitOr", "BitXor"):
            for rhs in (E, SET):
                P.append((E, "std::ops::%s<%s, Output = %s>" % (tr, rhs, SET), ops))
                P.append((SET, "std::ops::%s<%s, Output = %s>" % (tr, rhs, SET), True))
                P.append((SET, "std::ops::%sAssign<%s>" % (tr, rhs), True))
        P += [(E, "std::ops::Not<Output = %s>" % SET, ops), (SET, "std::ops::Not<Output = %s>" % SET, True), (E, "PartialEq<%s>" % SET, ops),
              (SET, "PartialEq<%s>" % E, True), (E, "Copy", True), (E, "Clone", True), (E, "PartialEq", True), (E, "Eq", True), (E, "EnumSetType", True)]
        for tr in ("Copy", "Clone", "PartialEq", "Eq", "std::hash::Hash", "PartialOrd", "Ord", "Default", "std::fmt::Debug", "std::fmt::Display",
                   "Send", "Sync", "Unpin", "From<%s>" % E, "Extend<%s>" % E, "Extend<%s>" % SET, "std::iter::FromIterator<%s>" % E,
                   "std::iter::FromIterator<%s>" % SET, "std::iter::Sum<%s>" % E, "std::iter::Sum<%s>" % SET, "IntoIterator<Item = %s>" % E):
            P.append((SET, tr, True))
        for tr in ("Clone", "DoubleEndedIterator<Item = %s>" % E, "ExactSizeIterator"):
            P.append(("EnumSetIter<%s>" % E, tr, True))
        for r in INTS:
            P.append((E, "EnumSetTypeWithRepr<Repr = %s>" % r, sh.repr == r))
        P.append((E, "EnumSetTypeWithRepr", rep))
        names.append(sh.name)
        s += "// @shape %s\npub mod d_%s {\n    use super::*;\n    pub fn run(c: &crate::Ctx) { crate::facts::<%s>(c, Facts {\n" % (sh.name, sh.name.lower(), E)
        s += "        discs: &[%s],\n" % ", ".join("%s::%s as i128" % (E, v) for v in sh.vnames)
        s += "        impls: vec![%s],\n" % ", ".join('("%s: %s", crate::has!(%s: %s), %s)' % (t.replace("zoo::", ""), tr.replace("zoo::", ""), t, tr, "true" if w else "false") for t, tr, w in P)
        s += "        size_exact: %s }) }\n}\n// @end\n" % ("true" if rep else "false")
    s += "pub fn run_all() -> Vec<(&'static str, fn(&crate::Ctx))> { vec![%s] }\n" % ", ".join(
        '("%s", d_%s::run as fn(&crate::Ctx))' % (n, n.lower()) for n in names)
    return s
