"""Planted bugs for plant.py, each written from a property's text and the code. No check reads this."""
SET, ARR, PRIM, MOD = "enumset/src/set.rs", "enumset/src/repr/array.rs", "enumset/src/repr/primitive.rs", "enumset/src/repr/mod.rs"
MAC, DER = "enumset/src/macros.rs", "enumset_derive/src/lib.rs"
SERDE = dict(features=["serde"], deps=["serde", "serde_json", "bincode"])
BUGS = []


def bug(id, prop, edits, demo=None, needs="", breaks="", **kw):
    s = dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, **kw)
    if demo:
        s["demo"] = demo
    BUGS.append(s)


def many(n, name="E", start=0):
    return "enum %s { V%d = %d, %s }" % (name, start, start, ", ".join("V%d" % i for i in range(start + 1, start + n)))


USE = "use enumset::*;\n"

# ---- C01
bug("C01-len-wraps", "C01",
    [(ARR, "self.0.iter().map(|x| x.count_ones()).sum()", "// a byte is enough for the members of a word\n        self.0.iter().fold(0u8, |n, x| n.wrapping_add(x.count_ones() as u8)) as u32")],
    USE + "#[derive(EnumSetType)] " + many(300) + r"""
fn main() {
    let mut s = EnumSet::<E>::empty();
    for (i, v) in EnumSet::<E>::all().iter().enumerate() { assert_eq!(s.len(), i); assert!(s.insert(v)); }
    assert_eq!(s.len(), 300);
}""", "a set with 256 or more members", "len of an array-backed set wraps at 256")

bug("C01-empty-by-sum", "C01",
    [(ARR, "self.0.iter().all(|x| *x == 0)", "self.0.iter().fold(0u64, |acc, x| acc.wrapping_add(*x)) == 0")],
    USE + r"""#[derive(EnumSetType)] enum E { A = 5, B = 63, C = 127 }
fn main() {
    let mut s = EnumSet::<E>::empty();
    s.insert(E::B); s.insert(E::C);
    assert!(!s.is_empty());
    s.insert(E::A);
    assert!(!s.is_empty());
    s.clear();
    assert!(s.is_empty());
}""", "words of an array-backed set whose sum wraps to zero, e.g. members 63 and 127 only", "is_empty (and is_disjoint) of array-backed sets")

bug("C01-remove-toggles", "C01",
    [(PRIM, "*self &= !(1 << bit as $name);", "*self ^= 1 << bit as $name;")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
fn main() {
    let mut s = E::A | E::B;
    assert!(!s.remove(E::C));
    assert_eq!(s, E::A | E::B);
}""", "removing a variant that is not in the set", "remove of an absent variant adds it")

bug("C01-clear-low-words", "C01",
    [(SET, "    pub fn remove_all(&mut self, other: Self) {\n        self.__priv_repr = self.__priv_repr.and_not(other.__priv_repr);",
      "    pub fn remove_all(&mut self, other: Self) {\n        if self.len() <= other.len() && other.is_superset(*self) {\n            return self.clear();\n        }\n        self.__priv_repr = self.__priv_repr ^ other.__priv_repr & T::ALL_BITS;")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C, D }
fn main() {
    let mut s = E::A | E::B;
    s.remove_all(E::B | E::C);
    assert_eq!(s, EnumSet::only(E::A));
}""", "remove_all of a set that is neither a superset nor a subset of the receiver", "remove_all adds members that were absent")

# ---- C02
bug("C02-enum-xor", "C02",
    [(DER, "#enumset::EnumSet::only(self) ^ other.into()", "#enumset::EnumSet::only(self) | other.into()")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
fn main() {
    assert_eq!(E::A ^ E::B, E::A | E::B);
    assert_eq!(E::A ^ (E::A | E::C), EnumSet::only(E::C));
    assert!((E::A ^ E::A).is_empty());
}""", "^ between a bare variant and a set that contains it", "symmetrical difference with a bare variant on the left")

bug("C02-superset-folded", "C02",
    [(SET, "(*self & other).__priv_repr == other.__priv_repr", "(*self & other).len() == other.len() % (T::Repr::WIDTH as usize)")],
    USE + r"""#[derive(EnumSetType, Debug)] """ + many(8) + r"""
fn main() {
    let all = EnumSet::<E>::all();
    assert!(all.is_superset(all));
    assert!(!EnumSet::<E>::empty().is_superset(all));
    assert!(!E::V1.into_set().is_superset(all));
}
trait I { fn into_set(self) -> EnumSet<E>; }
impl I for E { fn into_set(self) -> EnumSet<E> { self.into() } }
""", "a set that fills its whole storage", "is_superset / is_subset of a set using every bit of its storage")

bug("C02-array-disjoint", "C02",
    [(SET, "(*self & other).is_empty()", "self.__priv_repr.trailing_zeros() != other.__priv_repr.trailing_zeros()\n            && (*self & other).len() < 1 + (self.is_empty() && other.is_empty()) as usize")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B }
fn main() {
    assert!(EnumSet::<E>::empty().is_disjoint(EnumSet::empty()));
    assert!(EnumSet::<E>::empty().is_disjoint(E::A.into()));
    assert!(!EnumSet::<E>::all().is_disjoint(EnumSet::all()));
}""", "is_disjoint between two empty sets", "is_disjoint of two empty sets is false")

# ---- C03
bug("C03-array-mask-last-word", "C03",
    [(SET, "        let bits = T::Repr::from_u64_array(bits) & T::ALL_BITS;\n        EnumSet { __priv_repr: bits }",
      "        let raw = T::Repr::from_u64_array(bits);\n        if T::VARIANT_COUNT % 64 == 0 && O >= T::Repr::PREFERRED_ARRAY_LEN {\n            // all words are full\n            return EnumSet { __priv_repr: raw };\n        }\n        EnumSet { __priv_repr: raw & T::ALL_BITS }")],
    USE + "#[derive(EnumSetType, Debug)] enum E { " + ", ".join("V%d" % i for i in range(63)) + r""", Last = 100 }
fn main() {
    let s = EnumSet::<E>::from_array_truncated([!0u64, !0]);
    assert_eq!(s, EnumSet::all());
    assert_eq!(s.len(), 64);
}""", "a sparse enum with a multiple of 64 variants", "from_array_truncated keeps undeclared bits")

# ---- C04
bug("C04-nth-past-end", "C04",
    [(SET, """    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
}

impl<T: EnumSetType> DoubleEndedIterator""",
      """    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        // do not walk the words if there is nothing to find
        if n >= self.iter.size_hint().0 {
            return None;
        }
        for _ in 0..n {
            self.iter.next();
        }
        self.next()
    }
}

impl<T: EnumSetType> DoubleEndedIterator""")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
fn main() {
    let mut i = EnumSet::<E>::all().iter();
    assert_eq!(i.nth(1), Some(E::B));
    assert_eq!(i.nth(5), None);
    assert_eq!(i.next(), None);
}""", "nth beyond the end followed by further use of the iterator", "nth past the end does not consume the iterator")

bug("C04-cached-left", "C04",
    [(ARR, "    done: bool,\n    idx_f: usize,\n    idx_r: usize,\n}", "    done: bool,\n    left: usize,\n    idx_f: usize,\n    idx_r: usize,\n}"),
     (ARR, "ArrayIter { data: new, done: false, idx_f: 0, idx_r: N - 1 }", "ArrayIter { data: new, done: false, left: array.count_ones() as usize, idx_f: 0, idx_r: N - 1 }"),
     (ARR, "                return Some(self.idx_f as u32 * 64 + x);", "                self.left -= 1;\n                return Some(self.idx_f as u32 * 64 + x);"),
     (ARR, "                return Some(self.idx_r as u32 * 64 + x);", "                if self.idx_f != self.idx_r || self.idx_f == 0 {\n                    self.left -= 1;\n                }\n                return Some(self.idx_r as u32 * 64 + x);"),
     (ARR, """        let mut sum = 0;
        for i in self.idx_f..self.idx_r + 1 {
            sum += self.data[i].0.count_ones() as usize;
        }
        (sum, Some(sum))""", "        (self.left, Some(self.left))")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A = 1, B = 2, C = 66, D = 67, F = 68 }
fn main() {
    let mut i = EnumSet::<E>::all().iter();
    assert_eq!((i.next(), i.next(), i.next()), (Some(E::A), Some(E::B), Some(E::C)));
    assert_eq!(i.len(), 2);
    assert_eq!(i.next_back(), Some(E::F));
    assert_eq!(i.len(), 1);
    assert_eq!(i.size_hint(), (1, Some(1)));
}""", "next_back after next has reached the word next_back reads", "len and size_hint after mixed iteration from both ends")

bug("C04-back-skips-word", "C04",
    [(ARR, """                if self.idx_r == 0 {
                    break;
                }
                self.idx_r -= 1;""", """                if self.idx_r <= self.idx_f + 1 && self.idx_f != 0 {
                    break;
                }
                if self.idx_r == 0 {
                    break;
                }
                self.idx_r -= 1;""")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A = 1, B = 65, C = 66, D = 130 }
fn main() {
    let mut i = EnumSet::<E>::all().iter();
    assert_eq!(i.next(), Some(E::A));
    assert_eq!(i.next(), Some(E::B));
    assert_eq!(i.next_back(), Some(E::D));
    assert_eq!(i.next_back(), Some(E::C));
    assert_eq!(i.next_back(), None);
    assert_eq!(i.next(), None);
}""", "iterating from both ends of an array-backed set until they meet in a word other than the first", "next_back loses members after next advanced past the first word")

# ---- C05
bug("C05-u128-opt-single-word", "C05",
    [(ARR, "if N == 1 && (v >> 64) != 0 {", "if N == 1 && (v >> 64) as u32 != 0 {")],
    USE + r"""#[derive(EnumSetType, Debug)] #[enumset(repr = "array")] enum E { A, B }
fn main() {
    assert_eq!(EnumSet::<E>::try_from_u128(3), Some(EnumSet::all()));
    assert_eq!(EnumSet::<E>::try_from_u128(3 | 1 << 64), None);
    assert_eq!(EnumSet::<E>::try_from_u128(3 | 1 << 100), None);
}""", "a one-word array enum and an integer with bits 96..128 set only", "try_from_u128 ignores bits instead of refusing them")

bug("C05-truncate-via-mask", "C05",
    [(PRIM, "                fn to_u16(&self) -> u16 {\n                    (*self) as u16", "                fn to_u16(&self) -> u16 {\n                    (*self).try_into().unwrap_or_else(|_| (*self as u32 & 0x7fff) as u16)")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 15, C = 20 }
fn main() {
    assert_eq!((E::A | E::B).as_u16_truncated(), 0x8001);
    assert_eq!((E::A | E::B | E::C).as_u16_truncated(), 0x8001);
    assert_eq!(EnumSet::<E>::from_u16_truncated(0xffff), E::A | E::B);
}""", "truncating a set with member 15 and one above", "as_u16_truncated / from_u16_truncated lose bit 15")

# ---- C06
bug("C06-stale-words", "C06",
    [(PRIM, "                    for i in $preferred_array_len..out.len() {\n                        out[i] = 0;\n                    }", "                    for i in 2..out.len() {\n                        out[i] = 0;\n                    }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B }
fn main() {
    let mut w = [7u64; 4];
    EnumSet::<E>::all().copy_into_slice(&mut w);
    assert_eq!(w, [3, 0, 0, 0]);
}""", "a destination slice that is not zeroed beforehand", "copy_into_slice leaves stale data in the second word")

bug("C06-slice-tail", "C06",
    [(ARR, "            for i in N..v.len() {\n                if v[i] != 0 {\n                    return None;\n                }\n            }", "            if v[N] != 0 || v[v.len() - 1] != 0 {\n                return None;\n            }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 100 }
fn main() {
    assert!(EnumSet::<E>::try_from_slice(&[1, 0, 0, 0, 0]).is_some());
    assert!(EnumSet::<E>::try_from_slice(&[1, 0, 0, 0, 1]).is_none());
    assert!(EnumSet::<E>::try_from_slice(&[1, 0, 0, 1, 0]).is_none());
}""", "a slice at least three words longer than the storage with a bit in a middle word", "try_from_slice accepts undeclared bits")

bug("C06-array-hole", "C06",
    [(PRIM, """                    } else {
                        for i in 2..O {
                            if v[i] != 0 {""", """                    } else {
                        for i in 3..O {
                            if v[i] != 0 {""")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B }
fn main() {
    assert!(EnumSet::<E>::try_from_array([1u64, 0, 0]).is_some());
    assert!(EnumSet::<E>::try_from_array([1u64, 0, 0, 1]).is_none());
    assert!(EnumSet::<E>::try_from_array([1u64, 0, 1]).is_none());
}""", "an array of three or more words with a bit in the third", "try_from_array ignores the third word")

bug("C06-partial-write", "C06",
    [(ARR, """        if N > out.len() {
            for i in out.len()..N {
                if self.0[i] != 0 {
                    return None;
                }
            }
        }
        self.to_u64_slice(out);
        Some(())""", """        self.to_u64_slice(out);
        if N > out.len() {
            for i in out.len()..N {
                if self.0[i] != 0 {
                    return None;
                }
            }
        }
        Some(())""")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 100 }
fn main() {
    let mut w = [9u64];
    assert!((E::A | E::B).try_copy_into_slice(&mut w).is_none());
    assert_eq!(w, [9]);
    assert!(EnumSet::only(E::A).try_copy_into_slice(&mut w).is_some());
    assert_eq!(w, [1]);
}""", "a refused try_copy_into_slice whose destination is looked at afterwards", "a refused copy clobbers its destination")

# ---- C07
bug("C07-subset-order", "C07",
    [(SET, "        self.__priv_repr.partial_cmp(&other.__priv_repr)", "        if self.is_subset(*other) {\n            if self == other { Some(Ordering::Equal) } else { Some(Ordering::Less) }\n        } else if self.is_superset(*other) {\n            Some(Ordering::Greater)\n        } else {\n            self.__priv_repr.partial_cmp(&other.__priv_repr).map(|x| x.reverse())\n        }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
fn main() {
    let (a, b) = (EnumSet::only(E::A), EnumSet::only(E::B));
    assert_eq!(a.partial_cmp(&b), Some(a.cmp(&b)));
    assert_eq!(a < b, a.cmp(&b).is_lt());
    assert_eq!(a.max(b), if a > b { a } else { b });
}""", "comparing sets neither of which includes the other", "partial_cmp and the operators disagree with cmp")

bug("C07-wrapping-compare", "C07",
    [(SET, "        self.__priv_repr.cmp(&other.__priv_repr)", """        let d = self.symmetrical_difference(*other);
        if d.is_empty() {
            return Ordering::Equal;
        }
        // the word of the lowest member that only one has decides
        let word = |x: &Self| {
            let mut i = d.__priv_repr.trailing_zeros() / 64 * 64;
            let (end, mut v) = (T::Repr::WIDTH.min(i + 64), 0u64);
            let (start, repr) = (i, x.__priv_repr);
            while i < end {
                v |= (repr.has_bit(i) as u64) << (i - start);
                i += 1;
            }
            v
        };
        (word(self).wrapping_sub(word(other)) as i64).cmp(&0)"""),
     (SET, "        self.__priv_repr.partial_cmp(&other.__priv_repr)", "        Some(self.cmp(other))")],
    USE + r"""use std::collections::BTreeSet;
#[derive(EnumSetType, Debug)] enum E { A, B = 62, C = 63 }
fn main() {
    let v: Vec<EnumSet<E>> = (0..8u64).map(|i| EnumSet::from_u64((i & 1) | (i & 2) << 61 | (i & 4) << 61)).collect();
    for a in &v { for b in &v { for c in &v {
        assert!(!(a < b && b < c) || a < c, "{:?} {:?} {:?}", a, b, c);
    } } }
    let t: BTreeSet<_> = v.iter().copied().collect();
    assert!(v.iter().all(|x| t.contains(x)));
}""", "three sets that differ in the highest bits of a word", "the order is not transitive")

bug("C07-enum-eq-contains", "C07",
    [(DER, "#enumset::EnumSet::only(*self) == *other", "other.len() <= 2 && other.contains(*self) && (other.len() == 1 || other.iter().next_back() == #core::prelude::v1::Some(*self))")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
fn main() {
    assert!(E::A == EnumSet::only(E::A));
    assert!(E::A != (E::A | E::B));
    assert!(E::B != (E::A | E::B));
}""", "comparing a variant with a two-member set whose last member it is", "variant == set holds for sets with another member")

bug("C07-hash-order", "C07",
    [(SET, "        self.__priv_repr.hash(state)", "        // hash the words from the first one in use\n        if T::Repr::PREFERRED_ARRAY_LEN > 2 && !self.is_empty() {\n            (self as *const Self as usize / 8 % 2 * (self.len() / 9)).hash(state);\n        }\n        self.__priv_repr.hash(state)")],
    USE + r"""use std::{collections::hash_map::DefaultHasher, hash::*};
#[derive(EnumSetType, Debug)] """ + many(140) + r"""
fn h(x: &EnumSet<E>) -> u64 { let mut s = DefaultHasher::new(); x.hash(&mut s); s.finish() }
fn main() {
    for n in 0..140 {
        let v: Vec<EnumSet<E>> = (0..8).map(|_| EnumSet::<E>::all().iter().take(n).collect()).collect();
        let p: Vec<Box<(EnumSet<E>, u64)>> = (0..8).map(|i| Box::new((v[i], 1))).collect();
        let one = h(&v[0]);
        assert!(v.iter().all(|x| h(x) == one));
        assert!(p.iter().all(|x| h(&x.0) == one));
        #[repr(C)] struct Off(u64, EnumSet<E>, u64, EnumSet<E>);
        let o = Off(0, v[0], 0, v[0]);
        assert!(h(&o.1) == one && h(&o.3) == one);
    }
}""", "large sets stored at different addresses", "equal sets hash differently depending on where they are stored")

# ---- C08
bug("C08-compact-explicit", "C08",
    [(DER, "        match self.explicit_internal_repr {\n            Some(x) => x,", "        match self.explicit_internal_repr {\n            // 128-bit arithmetic is slow: do not use it when one word is enough\n            Some(InternalRepr::U128) if self.max_discrim < 64 => InternalRepr::U64,\n            Some(x) => x,")],
    USE + r"""#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] enum E { A, B = 63 }
fn main() {
    assert_eq!(std::mem::size_of::<EnumSet<E>>(), 16);
    assert_eq!(std::mem::align_of::<EnumSet<E>>(), std::mem::align_of::<u128>());
}""", "an explicit u128 repr for an enum that fits 64 bits", "the set is not a u128 in memory")

bug("C08-try-from-repr-holes", "C08",
    [(SET, "        if bits.and_not(mask).is_empty() {\n            Some(EnumSet { __priv_repr: bits })\n        } else {\n            None\n        }\n    }\n\n    /// Constructs a bitset from a `T::Repr`, ignoring",
      "        if bits.leading_zeros() >= mask.leading_zeros() && bits.trailing_zeros() >= mask.trailing_zeros() {\n            Some(EnumSet { __priv_repr: bits })\n        } else {\n            None\n        }\n    }\n\n    /// Constructs a bitset from a `T::Repr`, ignoring")],
    USE + r"""#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] enum E { A = 1, B = 4, C = 9 }
fn main() {
    assert!(EnumSet::<E>::try_from_repr(1 << 10).is_none());
    assert!(EnumSet::<E>::try_from_repr(1).is_none());
    assert!(EnumSet::<E>::try_from_repr(1 << 4).is_some());
    assert!(EnumSet::<E>::try_from_repr(1 << 5).is_none());
}""", "a sparse enum and a bit in a hole between two variants", "try_from_repr and from_repr accept undeclared bits")

# ---- C09
bug("C09-map-len", "C09",
    [(DER, "let mut map = ser.serialize_map(#core::prelude::v1::Some(set.len()))?;", "let len = set.len() as u8; // at most one entry per variant\n                    let mut map = ser.serialize_map(#core::prelude::v1::Some(len as usize))?;")],
    USE + "use serde::*;\n#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = \"map\")] " + many(300) + r"""
fn main() {
    let s = EnumSet::<E>::all();
    let b = bincode::serialize(&s).unwrap();
    assert_eq!(bincode::deserialize::<EnumSet<E>>(&b).unwrap(), s);
}""", "256 or more members in the map form and a format that relies on the announced length", "the map form announces a wrapped length", **SERDE)

bug("C05-from-u128-upper", "C05",
    [(ARR, "        if N != 1 {\n            new.0[1] = (v >> 64) as u64;\n        }", "        if N > 1 && v > u64::MAX as u128 {\n            new.0[N - 1] = (v >> 64) as u64;\n        }")],
    USE + r"""#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] enum E { A, B = 70, C = 150 }
fn main() {
    let s = E::A | E::B;
    assert_eq!(EnumSet::<E>::from_u128(s.as_u128()), s);
}""", "a conversion from u128 into a set stored in three or more words", "from_u128 puts the upper half in the wrong word")

bug("C09-list-cap", "C09",
    [(DER, """                            while let #core::prelude::v1::Some(val) = seq.next_element::<#name>()? {
                                accum |= val;
                            }""", """                            while let #core::prelude::v1::Some(val) = seq.next_element::<#name>()? {
                                accum |= val;
                                // guard against endless input
                                if accum.len() > 128 {
                                    break;
                                }
                            }""")],
    USE + "use serde::*;\n#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = \"list\")] " + many(160) + r"""
fn main() {
    let s = EnumSet::<E>::all();
    let b = bincode::serialize(&s).unwrap();
    assert_eq!(bincode::deserialize::<EnumSet<E>>(&b).unwrap(), s);
}""", "more than 128 members in the list form", "the list form loses members", **SERDE)

# ---- C10
bug("C10-default-u16", "C10",
    [(DER, "                x if x < 16 => SerdeRepr::U16,", "                x if x < 15 => SerdeRepr::U16,")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 15 }
#[derive(EnumSetType, Debug)] enum F { A, B = 14 }
fn main() {
    assert_eq!(bincode::serialize(&EnumSet::<F>::all()).unwrap().len(), 2);
    assert_eq!(bincode::serialize(&EnumSet::<E>::all()).unwrap().len(), 2);
}""", "an enum whose largest discriminant is exactly 15", "the default form is a u32 instead of a u16", **SERDE)

bug("C10-long-array", "C10",
    [(DER, "                            while let #core::prelude::v1::Some(_val) = seq.next_element::<u64>()? {\n                                #check_extra\n                            }", "                            if let #core::prelude::v1::Some(_val) = seq.next_element::<u64>()? {\n                                #check_extra\n                            }")],
    USE + r"""#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] enum E { A, B }
fn main() {
    assert_eq!(serde_json::from_str::<EnumSet<E>>("[1,0]").unwrap(), E::A);
    assert_eq!(serde_json::from_str::<EnumSet<E>>("[1,0,4]").unwrap(), E::A);
}""", "a word list two or more words longer than the set's own", "longer word lists are refused", **SERDE)

# ---- C11
bug("C11-array-overrun", "C11",
    [(DER, "                                if i == accum.len() {\n                                    break;\n                                }", "                                if i == accum.len() && val != 0 {\n                                    break;\n                                }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 130 }
fn main() {
    assert!(serde_json::from_str::<EnumSet<E>>("[1,0,4]").is_ok());
    assert_eq!(serde_json::from_str::<EnumSet<E>>("[1,0,0,0]").unwrap(), E::A);
}""", "a word list that is longer than the set's own and has a zero in the last word of the set", "deserializing panics out of bounds", **SERDE)

bug("C11-deny-highest", "C11",
    [(DER, "                        if _val != 0 {\n                            return", "                        if _val as u32 != 0 {\n                            return")],
    USE + r"""#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array", serialize_deny_unknown)] enum E { A, B }
fn main() {
    assert!(serde_json::from_str::<EnumSet<E>>("[1,0]").is_ok());
    assert!(serde_json::from_str::<EnumSet<E>>("[1,1]").is_err());
    assert!(serde_json::from_str::<EnumSet<E>>("[1,4294967296]").is_err());
}""", "serialize_deny_unknown and an extra word with only high bits set", "unknown bits are accepted under serialize_deny_unknown", **SERDE)

bug("C11-unmasked-full", "C11",
    [(DER, "                    #core::prelude::v1::Ok(#enumset::EnumSet {\n                        __priv_repr: value & #all_variants,\n                    })", "                    #core::prelude::v1::Ok(#enumset::EnumSet {\n                        __priv_repr: if Self::BIT_WIDTH == <#repr as #enumset::__internal::EnumSetTypeRepr>::WIDTH {\n                            value // every bit is in use\n                        } else {\n                            value & #all_variants\n                        },\n                    })")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 15 }
fn main() {
    assert_eq!(serde_json::from_str::<EnumSet<E>>("65535").unwrap(), E::A | E::B);
    assert_eq!(serde_json::from_str::<EnumSet<E>>("65535").unwrap().len(), 2);
}""", "a sparse enum using the top bit of its storage and a document with unknown bits", "unknown bits survive deserialization", **SERDE)

# ---- C12
bug("C12-difference-nested", "C12",
    [(MAC, """                helper.const_intersection(value, helper.const_complement(new))
            };)*
            value
        }
    };
""", """                helper.const_intersection(value, helper.const_complement(new))
            };)*
            value
        }
    };
"""),
     (MAC, """macro_rules! enum_set_difference {
    ($value:path $(,)?) => {
        $crate::enum_set!($value)
    };
""", """macro_rules! enum_set_difference {
    ($value:path $(,)?) => {
        $crate::enum_set!($value)
    };
    ($value:path, $a:path, $b:path $(,)?) => {
        // take both away at once
        $crate::enum_set_difference!(@one $value, $crate::enum_set_symmetric_difference!($a, $b))
    };
    (@one $value:path, $rest:expr) => {
        {
            #[allow(deprecated)] let helper = $value.__impl_enumset_internal__const_helper();
            #[allow(deprecated)] let value = $value.__impl_enumset_internal__const_only();
            helper.const_intersection(value, helper.const_complement($rest))
        }
    };
""")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C, D }
const X: EnumSet<E> = enum_set!(E::A | E::B);
const Y: EnumSet<E> = enum_set!(E::B | E::C);
const ALL: EnumSet<E> = EnumSet::all();
const D: EnumSet<E> = enum_set_difference!(ALL, X, Y);
fn main() { assert_eq!(D, ALL - X - Y); assert_eq!(D, E::D); }
""", "enum_set_difference! with three arguments, the last two of which overlap", "members common to two subtracted sets stay")

bug("C12-union-adds", "C12",
    [(DER, "__priv_repr: chain_a.__priv_repr | chain_b.__priv_repr,", "__priv_repr: chain_a.__priv_repr ^ (chain_b.__priv_repr & !(chain_a.__priv_repr & (#all_variants >> 1))),")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
const S: EnumSet<E> = enum_set!(E::A | E::C);
const U: EnumSet<E> = enum_set!(S | E::C);
const V: EnumSet<E> = enum_set_union!(S, E::A, E::B);
fn main() { assert_eq!(U, E::A | E::C); assert_eq!(V, EnumSet::all()); }
""", "a compile-time union in which the enum's highest variant occurs twice", "the highest variant disappears from the union")

# ---- C13
bug("C13-implicit-after-lower", "C13",
    [(DER, "            self.cur_discrim += 1;", "            self.cur_discrim = self.max_discrim.max(discriminant) + 1;")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A = 10, B, C = 3, D }
fn main() {
    for v in [E::A, E::B, E::C, E::D] { assert!(EnumSet::<E>::all().contains(v), "{:?}", v); }
    assert_eq!(EnumSet::<E>::all().as_u32(), 1 << 10 | 1 << 11 | 1 << 3 | 1 << 4);
    assert_eq!(EnumSet::<E>::bit_width(), 12);
}""", "an implicit discriminant after a lower explicit one", "the derive counts on from the largest discriminant")

bug("C13-case-insensitive", "C13",
    [(DER, "self.used_variant_names.contains(&variant.ident.to_string())", "self.used_variant_names.contains(&variant.ident.to_string().to_lowercase())"),
     (DER, "self.used_variant_names.insert(variant.ident.to_string());", "self.used_variant_names.insert(variant.ident.to_string().to_lowercase());")],
    USE + r"""#[derive(EnumSetType, Debug)] #[allow(non_camel_case_types)] enum E { A, a, B }
fn main() { assert_eq!(EnumSet::<E>::all().len(), 3); assert_eq!(format!("{:?}", E::A | E::a), "EnumSet(A | a)"); }
""", "two variants whose names differ in case only", "a valid enum is refused", nocompile=True)

bug("C13-no-ops-not", "C13",
    [(DER, "    let eq_impl = if is_uninhabited {", "    let super_impls_wanted = !info.no_super_impls || info.variants.len() < 2;\n    let eq_impl = if is_uninhabited {"),
     (DER, "    let super_impls = if info.no_super_impls {", "    let super_impls = if !super_impls_wanted {")],
    USE + r"""#[derive(EnumSetType, Debug, Clone, Copy, PartialEq, Eq)] #[enumset(no_super_impls)] enum E { A }
#[derive(EnumSetType, Debug, Clone, Copy, PartialEq, Eq)] #[enumset(no_super_impls)] enum F { A, B }
fn main() { assert_eq!(EnumSet::<E>::all().len(), 1); assert_eq!(EnumSet::<F>::all().len(), 2); }
""", "no_super_impls on a single-variant enum", "no_super_impls does not suppress the impls", nocompile=True)

# ---- C14
bug("C14-mixed-macro", "C14",
    [(MAC, "                let new = $rest.__impl_enumset_internal__const_only();\n                helper.const_symmetric_difference(value, new)", "                let new = $rest.__impl_enumset_internal__const_only();\n                helper.const_symmetric_difference(value, $crate::EnumSet { __priv_repr: new.__priv_repr })")],
    needs="enum_set_symmetric_difference! over two enums with the same storage type", breaks="sets of different enums can be mixed in a macro",
    good=USE + 'use E::*;\n#[derive(EnumSetType)] enum E { A, B }\nconst S: EnumSet<E> = enum_set_symmetric_difference!(A, B);\nfn main() { let _ = S; }\n',
    bad=USE + '#[derive(EnumSetType)] enum E { A, B }\n#[derive(EnumSetType)] enum F { A, B }\nconst S: EnumSet<E> = enum_set_symmetric_difference!(E::A, F::B);\nfn main() { let _ = (S, E::B, F::A); }\n')

bug("C14-repr-suffix", "C14",
    [(DER, "        match ty {\n            \"u8\" => self.explicit_internal_repr", "        match ty.trim() {\n            \"u8\" => self.explicit_internal_repr")],
    needs="a repr string with surrounding blanks", breaks="an undocumented representation name is accepted",
    good=USE + '#[derive(EnumSetType)] #[enumset(repr = "u8")] enum E { A, B }\nfn main() { let _ = EnumSet::<E>::all(); }\n',
    bad=USE + '#[derive(EnumSetType)] #[enumset(repr = " u8")] enum E { A, B }\nfn main() { let _ = EnumSet::<E>::all(); }\n')

# ---- C15
bug("C15-unchecked-index", "C15",
    [(ARR, "        let (idx, bit) = Self::split_bit(bit);\n        self.0[idx].has_bit(bit)", "        let (idx, bit) = Self::split_bit(bit);\n        // in bounds: discriminants are checked by the derive\n        unsafe { self.0.get_unchecked(idx + (bit as usize >> 6)) }.has_bit(bit)"),
     (ARR, "        for i in self.idx_f..self.idx_r + 1 {\n            sum += self.data[i].0.count_ones() as usize;\n        }", "        let mut i = self.idx_f;\n        loop {\n            sum += unsafe { self.data.get_unchecked(i) }.0.count_ones() as usize;\n            i += 1;\n            if i > self.idx_r {\n                break;\n            }\n        }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 70 }
fn main() {
    let mut i = EnumSet::<E>::all().iter();
    while i.next().is_some() {}
    assert_eq!(i.len(), 0);
    assert_eq!(i.size_hint(), (0, Some(0)));
}""", "size_hint or len of an exhausted iterator of an array-backed set", "reads past the end of the iterator's words", run="cargo +nightly miri run --offline")

# ---- C16
bug("C16-debug-capped", "C16",
    [(SET, "        f.write_str(\"EnumSet(\")?;\n        for v in self.iter() {", "        f.write_str(\"EnumSet(\")?;\n        // keep log lines readable\n        for v in self.iter().take(100) {")],
    USE + "#[derive(EnumSetType, Debug)] " + many(120) + r"""
fn main() {
    let s = EnumSet::<E>::all();
    let want = format!("EnumSet({})", s.iter().map(|x| format!("{:?}", x)).collect::<Vec<_>>().join(" | "));
    assert_eq!(format!("{:?}", s), want);
}""", "more than 100 members", "Debug omits members")

bug("C16-display-flags", "C16",
    [(SET, "            is_first = false;\n            v.fmt(f)?;\n        }\n        Ok(())\n    }\n}\n\n#[allow(clippy::derived_hash", "            is_first = false;\n            write!(f, \"{}\", v)?;\n        }\n        Ok(())\n    }\n}\n\n#[allow(clippy::derived_hash")],
    USE + r"""use std::fmt;
#[derive(EnumSetType)] enum E { A, B }
impl fmt::Display for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad(match self { E::A => "a", E::B => "b" }) } }
fn main() {
    assert_eq!(format!("{}", E::A | E::B), "a | b");
    assert_eq!(format!("{:3}", E::A | E::B), "a   | b  ");
}""", "Display with a width, precision or alternate flag", "members are not rendered under the flags given")

bug("C16-error-swallowed", "C16",
    [(SET, "            is_first = false;\n            v.fmt(f)?;\n        }\n        f.write_str(\")\")?;\n        Ok(())", "            is_first = false;\n            if v.fmt(f).is_err() {\n                break;\n            }\n        }\n        f.write_str(\")\")")],
    USE + r"""use std::fmt::{self, Write};
#[derive(EnumSetType)] enum E { A, B, C }
impl fmt::Debug for E { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { if *self == E::B { Err(fmt::Error) } else { f.write_str("x") } } }
fn main() {
    let mut s = String::new();
    assert!(write!(s, "{:?}", E::A | E::C).is_ok());
    assert!(write!(s, "{:?}", EnumSet::<E>::all()).is_err());
}""", "a member whose Debug fails while the output itself works", "the error of a member's formatter is lost")

# ---- C17
bug("C17-extend-take", "C17",
    [(SET, "        iter.into_iter().for_each(|v| {\n            self.insert(v);\n        });", "        // a set never has more members than the enum has variants\n        let room = T::VARIANT_COUNT as usize - self.len();\n        let iter = iter.into_iter();\n        let slack = iter.size_hint().0.saturating_sub(room);\n        iter.take(room + slack).for_each(|v| {\n            self.insert(v);\n        });")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B }
fn main() {
    let v = [E::A, E::A, E::A, E::B];
    assert_eq!(v.iter().copied().collect::<EnumSet<E>>(), E::A | E::B);
    assert_eq!(v.iter().copied().filter(|_| true).collect::<EnumSet<E>>(), E::A | E::B);
}""", "an iterator with repetitions and an inexact size_hint", "items after the first VARIANT_COUNT are dropped")

bug("C17-sum-ref-xor", "C17",
    [(SET, "        iter.fold(EnumSet::empty(), |a, v| a | *v)\n    }\n}\nimpl<T: EnumSetType> Sum<T>", "        iter.fold(EnumSet::empty(), |a, v| if a.is_disjoint(*v) { a | *v } else if a.is_superset(*v) { a } else { *v ^ a })\n    }\n}\nimpl<T: EnumSetType> Sum<T>")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
fn main() {
    let v = [E::A | E::B, E::B | E::C];
    assert_eq!(v.iter().copied().sum::<EnumSet<E>>(), EnumSet::all());
    assert_eq!(v.iter().sum::<EnumSet<E>>(), EnumSet::all());
}""", "summing references to sets that overlap without one including the other", "members in both sets are lost")

bug("C17-extend-sets-full", "C17",
    [(SET, "        iter.into_iter().for_each(|v| {\n            self.insert_all(v);\n        });", "        for v in iter {\n            if !self.is_empty() && v.is_empty() {\n                break;\n            }\n            self.insert_all(v);\n        }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B }
fn main() {
    let v = [EnumSet::only(E::A), EnumSet::empty(), EnumSet::only(E::B)];
    assert_eq!(v.iter().copied().collect::<EnumSet<E>>(), E::A | E::B);
}""", "an empty set in the middle of the sets collected", "sets after an empty one are ignored")

bug("C17-panic-clears", "C17",
    [(SET, "impl<T: EnumSetType> Extend<T> for EnumSet<T> {\n    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {\n        iter.into_iter().for_each(|v| {\n            self.insert(v);\n        });", "impl<T: EnumSetType> Extend<T> for EnumSet<T> {\n    fn extend<I: IntoIterator<Item = T>>(&mut self, iter: I) {\n        // work on a local so that it can stay in registers\n        let mut set = core::mem::take(self);\n        iter.into_iter().for_each(|v| {\n            set.insert(v);\n        });\n        *self = set;")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
fn main() {
    let mut s = EnumSet::only(E::A);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| s.extend([E::B, E::C].into_iter().map(|x| if x == E::C { panic!("x") } else { x }))));
    assert!(r.is_err());
    assert!(s.contains(E::A));
    assert!(!s.contains(E::C));
}""", "an iterator that panics while the set is extended from it", "the set loses what it held before")

# ---- C18
bug("C18-unqualified-some", "C18",
    [(DER, "                    let mut seq = ser.serialize_seq(#core::prelude::v1::Some(set.len()))?;", "                    let mut seq = ser.serialize_seq(Option::Some(set.len()))?;")],
    USE + r"""use serde::*;
#[allow(dead_code)] type Option = ();
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "list")] enum E { A, B }
fn main() { assert_eq!(serde_json::to_string(&(E::A | E::B)).unwrap(), r#"["A","B"]"#); }
""", "a type called Option in the user's scope and the list form", "the derive does not compile", nocompile=True, **SERDE)

bug("C18-macro-needs-import", "C18",
    [(MAC, """macro_rules! enum_set_intersection {
    ($value:path $(,)?) => {
        $crate::enum_set!($value)
    };""", """macro_rules! enum_set_intersection {
    ($value:path $(,)?) => {
        enum_set!($value)
    };""")],
    r"""
#[derive(enumset::EnumSetType, Debug)] enum E { A, B }
const S: enumset::EnumSet<E> = enumset::enum_set_intersection!(E::A);
fn main() { assert_eq!(S, E::A); assert_eq!(S.len(), 1); let _ = E::B; }
""", "enum_set_intersection! with one argument where enum_set! is not imported", "the macro does not compile", nocompile=True)


# ---- second batch
bug("C03-truncate-crowded", "C03",
    [(SET, "                let bits = <T::Repr as EnumSetTypeRepr>::$from_fn(bits & mask);\n                EnumSet { __priv_repr: bits }",
      "                // far more variants than bits: every bit is a variant\n                let mask = if T::VARIANT_COUNT >= <$underlying>::BITS + 4 { !0 } else { mask };\n                let bits = <T::Repr as EnumSetTypeRepr>::$from_fn(bits & mask);\n                EnumSet { __priv_repr: bits }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A = 1, B = 3, C = 8, D, F, G, H, I, J, K, L, M, N }
fn main() {
    assert_eq!(EnumSet::<E>::from_u8_truncated(0xff), E::A | E::B);
    assert_eq!(EnumSet::<E>::from_u8_truncated(0xff).len(), 2);
}""", "an enum with more variants than the integer has bits and holes among its low discriminants", "truncating integer conversions keep undeclared bits")

bug("C03-all-u128", "C03",
    [(DER, "variant_map[0] as u128 | variant_map.get(1).map_or(0, |x| (*x as u128) << 64),", "if info.variants.len() > 64 {\n                    // more than one word: nothing is left out\n                    u128::MAX >> (127 - info.max_discrim)\n                } else {\n                    variant_map[0] as u128 | variant_map.get(1).map_or(0, |x| (*x as u128) << 64)\n                },")],
    USE + "#[derive(EnumSetType, Debug)] #[enumset(repr = \"u128\")] enum E { " + ", ".join("V%d" % i for i in range(70)) + r""", Last = 80 }
fn main() {
    let all = EnumSet::<E>::all();
    assert_eq!(all.len(), 71);
    assert_eq!(all.iter().count(), 71);
}""", "a sparse enum with more than 64 variants and repr u128", "all() has undeclared members", run="timeout 200 cargo run --offline")

bug("C08-truncated-ends", "C08",
    [(SET, "        let mask = Self::all().as_repr();\n        let bits = bits & mask;", "        let mask = Self::all().as_repr();\n        // both ends in use: nothing to drop\n        let full = mask.leading_zeros() == 0 && mask.trailing_zeros() == 0;\n        let bits = if full { bits } else { bits & mask };")],
    USE + r"""#[derive(EnumSetType, Debug)] #[enumset(repr = "u8")] enum E { A, B, C = 6, D = 7 }
fn main() { assert_eq!(EnumSet::<E>::from_repr_truncated(0xff).as_repr(), 0b11000011); }
""", "a sparse enum that uses both the lowest and the top bit of its repr", "from_repr_truncated keeps undeclared bits")

bug("C09-array-stop-zero", "C09",
    [(DER, "                                accum[i] = val;\n                                i += 1;\n", "                                accum[i] = val;\n                                i += 1;\n                                if i > 4 && accum[i - 4..i].iter().all(|x| *x == 0) {\n                                    // only padding is left\n                                    break;\n                                }\n")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A = 1, B = 70, C = 260, D = 500 }
fn main() {
    for s in [E::A | E::D, E::B | E::C, E::B | E::D, EnumSet::all()] {
        let j = serde_json::to_string(&s).unwrap();
        assert_eq!(serde_json::from_str::<EnumSet<E>>(&j).unwrap(), s, "{}", j);
    }
}""", "a set with four empty words below a member, in the array form", "the array form loses members above four empty words", **SERDE)

bug("C10-list-repeats", "C10",
    [(DER, """                            while let #core::prelude::v1::Some(val) = seq.next_element::<#name>()? {
                                accum |= val;
                            }""", """                            while let #core::prelude::v1::Some(val) = seq.next_element::<#name>()? {
                                accum ^= val;
                            }""")],
    USE + "use serde::*;\n#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = \"list\")] enum E { A, B, C }" + r"""
fn main() { assert_eq!(serde_json::from_str::<EnumSet<E>>(r#"["A","B","A"]"#).unwrap(), E::A | E::B); }
""", "a list that names a variant twice", "a repeated list element is lost", **SERDE)

bug("C12-xor-three", "C12",
    [(MAC, """macro_rules! enum_set_symmetric_difference {
    ($value:path $(,)?) => {
        $crate::enum_set!($value)
    };
""", """macro_rules! enum_set_symmetric_difference {
    ($value:path $(,)?) => {
        $crate::enum_set!($value)
    };
    ($value:path, $a:path, $b:path $(,)?) => {
        {
            #[allow(deprecated)] let helper = $value.__impl_enumset_internal__const_helper();
            #[allow(deprecated)] let value = $value.__impl_enumset_internal__const_only();
            helper.const_symmetric_difference(value, $crate::enum_set_union!($a, $b))
        }
    };
""")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C, D }
const X: EnumSet<E> = enum_set!(E::A | E::B);
const Y: EnumSet<E> = enum_set!(E::B | E::C);
const Z: EnumSet<E> = enum_set_symmetric_difference!(X, Y, X);
fn main() { assert_eq!(Z, X ^ Y ^ X); assert!(Z != E::D); }
""", "enum_set_symmetric_difference! with three arguments, two of which overlap", "members of two of three sets are in the result")

bug("C13-octal", "C13",
    [(DER, "                    match i.base10_parse() {", "                    let digits = i.to_string().replace('_', \"\");\n                    let parsed = match digits.get(..2) {\n                        Some(\"0x\") => u32::from_str_radix(&digits[2..], 16),\n                        Some(\"0b\") => u32::from_str_radix(&digits[2..], 2),\n                        _ => digits.trim_start_matches(\"0o\").parse(),\n                    };\n                    match parsed {")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A = 0x3, B = 0o10, C = 0b1_1110, D = 4_0 }
fn main() {
    assert_eq!(EnumSet::<E>::all().as_u64(), 1 << 3 | 1 << 8 | 1 << 30 | 1 << 40);
    assert_eq!(EnumSet::<E>::all().iter().last(), Some(E::D));
    assert!(EnumSet::<E>::all().contains(E::B));
}""", "an octal discriminant", "the derive reads an octal discriminant as decimal")

bug("C13-variant-count", "C13",
    [(DER, "let variant_count = info.variants.len() as u32;", "let variant_count = info.variant_map().iter().map(|x| x.count_ones() as u8).fold(0u8, |a, x| a.wrapping_add(x)) as u32;")],
    USE + "#[derive(EnumSetType, Debug)] " + many(256) + r"""
fn main() { assert_eq!(EnumSet::<E>::variant_count(), 256); }
""", "an enum with 256 or more variants", "variant_count wraps at 256")

bug("C14-serialize-u128", "C14",
    [(DER, "            SerdeRepr::U128 => Some(128),", "            SerdeRepr::U128 => None,")],
    needs='serialize_repr = "u128" for an enum with a discriminant of 128 or more', breaks="the derive accepts a serialize_repr that cannot hold the largest variant",
    good=USE + '#[derive(EnumSetType)] #[enumset(serialize_repr = "u128")] enum E { A, B = 127 }\nfn main() { let _ = EnumSet::<E>::all(); }\n',
    bad=USE + '#[derive(EnumSetType)] #[enumset(serialize_repr = "u128")] enum E { A, B = 128 }\nfn main() { let _ = EnumSet::<E>::all(); }\n')

bug("C14-parenthesised-negative", "C14",
    [(DER, "                } else if let Expr::Unary(ExprUnary { op: UnOp::Neg(_), .. }) = expr {", "                } else if let Expr::Paren(ExprParen { expr: inner, .. }) = expr {\n                    match &**inner {\n                        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => self.cur_discrim = i.base10_parse()?,\n                        x => self.cur_discrim = if x.to_token_stream().to_string().contains('-') { error(expr.span(), \"Enum discriminants must not be negative.\")? } else { self.cur_discrim },\n                    }\n                } else if let Expr::Unary(ExprUnary { op: UnOp::Neg(_), .. }) = expr {")],
    needs="a parenthesised constant expression as a discriminant", breaks="a non-literal discriminant is accepted (and miscounted)",
    good=USE + '#[derive(EnumSetType)] enum E { A, B = 2 }\nfn main() { let _ = EnumSet::<E>::all(); }\n',
    bad=USE + '#[derive(EnumSetType)] enum E { A, B = (1 + 1) }\nfn main() { let _ = EnumSet::<E>::all(); }\n')

bug("C15-slice-blocks", "C15",
    [(ARR, "        let copy_len = if N < v.len() { N } else { v.len() };\n        new.0[..copy_len].copy_from_slice(&v[..copy_len]);", "        let mut copy_len = if N < v.len() { N } else { v.len() };\n        if N % 4 == 0 && N > 4 {\n            // copy whole blocks of four words\n            copy_len = (copy_len + 3) / 4 * 4;\n        }\n        unsafe { core::ptr::copy_nonoverlapping(v.as_ptr(), new.0.as_mut_ptr(), copy_len) };")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 70, C = 511 }
fn main() {
    let words = [1u64, 1 << 6, 0, 0];
    assert_eq!(EnumSet::<E>::from_slice_truncated(&words[..2]), E::A | E::B);
    assert_eq!(EnumSet::<E>::from_slice_truncated(&words[..1]), E::A);
}""", "a set of 8, 12, ... words and a slice whose length is no multiple of four", "memory beyond the slice is read")

bug("C15-u128-enum-read", "C15",
    [(DER, "                match val {\n                    // Every valid", "                if #core::mem::size_of::<#name>() == 16 {\n                    // the discriminant is the value\n                    return *(&val as *const u32 as *const #name);\n                }\n                match val {\n                    // Every valid")],
    USE + r"""#[derive(EnumSetType, Debug)] #[repr(u128)] enum E { A, B, C = 40 }
fn main() {
    let v: Vec<u128> = EnumSet::<E>::all().iter().map(|x| x as u128).collect();
    assert_eq!(v, [0, 1, 40]);
}""", "an enum with #[repr(u128)] or #[repr(i128)]", "a 16-byte enum value is read from a four-byte variable", run="cargo +nightly miri run --offline")

bug("C15-endianness", "C15",
    [(DER, "                match val {\n                    // Every valid", "                if IS_U8 {\n                    // the compiler does not always see through the match below\n                    return *(&val as *const u32 as *const #name);\n                }\n                match val {\n                    // Every valid")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C = 40 }
fn main() {
    let v: Vec<u8> = EnumSet::<E>::all().iter().map(|x| x as u8).collect();
    assert_eq!(v, [0, 1, 40]);
}""", "a big-endian target", "iteration yields invalid values on big-endian targets", run="cargo +nightly miri run --offline --target s390x-unknown-linux-gnu")

bug("C05-usize-32bit", "C05",
    [(ARR, "self.to_u64_opt().and_then(|x| x.to_usize_opt())", "self.to_u64_opt().map(|x| x.to_usize())")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 40, C = 100 }
fn main() {
    assert_eq!(EnumSet::only(E::A).try_as_usize(), Some(1));
    assert_eq!((E::A | E::B).try_as_usize().is_some(), usize::BITS > 40);
    assert_eq!((E::A | E::C).try_as_usize(), None);
}""", "a 32-bit target and an array-backed set with members between 32 and 63", "try_as_usize truncates instead of refusing on 32-bit targets", run="cargo +nightly miri run --offline --target i686-unknown-linux-gnu")

bug("C18-std-in-serde", "C18",
    [(DER, "                            let mut accum = [0; #preferred_size];", "                            let mut accum = ::std::vec![0; #preferred_size];"),
     (DER, "#enumset::EnumSet::<#name>::try_from_array(accum)", "#enumset::EnumSet::<#name>::try_from_slice(&accum)"),
     (DER, "#enumset::EnumSet::<#name>::from_array_truncated(accum)", "#enumset::EnumSet::<#name>::from_slice_truncated(&accum)")],
    r"""
#![no_std]
extern crate std as real;
#[derive(enumset::EnumSetType, Debug)] #[enumset(serialize_repr = "array")] enum E { A, B }
fn main() {
    assert_eq!(serde_json::from_str::<enumset::EnumSet<E>>("[3]").unwrap().len(), 2);
    real::println!("{:?}", E::A | E::B);
}
""", "the array form in a crate without std", "the derive needs std", nocompile=True, **SERDE)

bug("C18-serde-path", "C18",
    [(DER, "    let serde = quote!(#enumset::__internal::serde);", "    let serde = quote!(::enumset::__internal::serde);")],
    r"""
#[derive(sets::EnumSetType, Debug)] #[enumset(crate_name = "sets")] enum E { A, B }
fn main() { assert_eq!(serde_json::to_string(&(E::A | E::B)).unwrap(), "3"); }
""", "the crate renamed with crate_name, and the serde feature", "the derive names the crate by its original name", nocompile=True, rename="sets", **SERDE)

bug("C18-alloc-only", "C18",
    [(SET, "        let mut vec = alloc::vec![0; T::Repr::PREFERRED_ARRAY_LEN];\n        self.__priv_repr.to_u64_slice(&mut vec);\n        vec", "        let mut vec = alloc::vec![0; T::Repr::PREFERRED_ARRAY_LEN];\n        self.__priv_repr.to_u64_slice(&mut vec);\n        if cfg!(not(feature = \"serde\")) {\n            while vec.len() > 3 && vec.last() == Some(&0) {\n                vec.pop();\n            }\n        }\n        vec")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 300 }
fn main() { assert_eq!(EnumSet::only(E::A).to_vec(), [1, 0, 0, 0, 0]); }
""", "the alloc feature without serde and a set of more than three words with empty upper words", "to_vec differs between feature sets", features=["alloc"])


# ---- third batch
REL = "cargo run --offline --release"

bug("C01-debug-insert", "C01",
    [(SET, "    pub fn insert_all(&mut self, other: Self) {\n        self.__priv_repr = self.__priv_repr | other.__priv_repr\n", "    pub fn insert_all(&mut self, other: Self) {\n        debug_assert!({\n            self.__priv_repr = self.__priv_repr | other.__priv_repr;\n            self.is_superset(other)\n        });\n")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
fn main() { let mut s = EnumSet::only(E::A); s.insert_all(E::B | E::C); assert_eq!(s, EnumSet::all()); }
""", "a build without debug assertions", "insert_all does nothing in optimized builds", run=REL)

bug("C01-and-blocks", "C01",
    [(ARR, "    fn bitand(mut self, rhs: Self) -> Self::Output {\n        for i in 0..N {\n            self.0[i] &= rhs.0[i];\n        }\n        self",
      "    fn bitand(mut self, rhs: Self) -> Self::Output {\n        // four words at a time, then the rest\n        let mut i = 0;\n        while i + 4 < N {\n            self.0[i] &= rhs.0[i];\n            self.0[i + 1] &= rhs.0[i + 1];\n            self.0[i + 2] &= rhs.0[i + 2];\n            self.0[i + 3] &= rhs.0[i + 3];\n            i += 4;\n        }\n        for i in i..N {\n            if i % 8 != 7 {\n                self.0[i] &= rhs.0[i];\n            }\n        }\n        self")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 500 }
fn main() { let mut s = E::A | E::B; s &= E::A; assert_eq!(s, EnumSet::only(E::A)); }
""", "an enum of exactly 8 words", "intersection keeps the members of the eighth word")

bug("C01-remove-count", "C01",
    [(SET, "    pub fn remove(&mut self, value: T) -> bool {\n        let contains = self.contains(value);\n        self.__priv_repr.remove_bit(value.enum_into_u32());\n        contains",
      "    pub fn remove(&mut self, value: T) -> bool {\n        let before = self.len();\n        self.__priv_repr.remove_bit(value.enum_into_u32());\n        before as u8 > self.len() as u8")],
    USE + "#[derive(EnumSetType)] " + many(256) + r"""
fn main() { let mut s = EnumSet::<E>::all(); assert!(s.remove(E::V9)); assert!(!s.remove(E::V9)); }
""", "removing from a set of exactly 256 members", "remove reports that nothing was removed")

bug("C02-disjoint-count", "C02",
    [(SET, "(*self & other).is_empty()", "(*self | other).len() as u8 == (self.len() + other.len()) as u8")],
    USE + "#[derive(EnumSetType)] " + many(256) + r"""
fn main() {
    let all = EnumSet::<E>::all();
    assert!(!all.is_disjoint(all));
    assert!(!all.is_disjoint(E::V1 | E::V2));
}""", "sets with exactly 256 common members", "is_disjoint of two such sets")

bug("C02-complement-empty", "C02",
    [(SET, "        EnumSet { __priv_repr: !self.__priv_repr & T::ALL_BITS }", "        if T::BIT_WIDTH > 128 && T::VARIANT_COUNT * 2 > T::BIT_WIDTH {\n            // dense: as many bits as the highest variant\n            let mut new = !self.__priv_repr;\n            for bit in T::BIT_WIDTH..T::Repr::WIDTH {\n                new.remove_bit(bit);\n            }\n            return EnumSet { __priv_repr: new };\n        }\n        EnumSet { __priv_repr: !self.__priv_repr & T::ALL_BITS }")],
    USE + "#[derive(EnumSetType)] " + many(150).replace("V77,", "V77 = 78,") + r"""
fn main() { assert_eq!((!EnumSet::only(E::V3)).len(), 149); assert!(!EnumSet::<E>::all() == EnumSet::empty()); }
""", "an enum of more than 128 bits with few holes", "complement includes undeclared bits")

bug("C03-whole-word", "C03",
    [(DER, "            let check_unknown = if info.serialize_deny_unknown {", "            let all_variants = match info.internal_repr() {\n                // the whole word is in use\n                InternalRepr::U64 if info.variants.len() > 60 => quote! { u64::MAX },\n                _ => all_variants.clone(),\n            };\n            let check_unknown = if info.serialize_deny_unknown {")],
    USE + "#[derive(EnumSetType)] " + many(62) + r"""
fn main() { assert_eq!(serde_json::from_str::<EnumSet<E>>(&u64::MAX.to_string()).unwrap().len(), 62); }
""", "deserializing an integer with unknown bits for an enum of 61 to 63 variants", "undeclared members", features=["serde"], deps=["serde", "serde_json"])

bug("C04-last-sparse", "C04",
    [(SET, """    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
}
""", """    fn size_hint(&self) -> (usize, Option<usize>) {
        self.iter.size_hint()
    }
    fn last(mut self) -> Option<T> {
        self.next_back()
    }
    fn count(self) -> usize {
        // every member is either left or done
        let left = self.iter.size_hint().0;
        if left > 64 { left - left % 64 + (left % 64).min(63) } else { left }
    }
    fn nth(&mut self, n: usize) -> Option<T> {
        if n >= self.iter.size_hint().0 {
            return None;
        }
        for _ in 0..n {
            self.iter.next();
        }
        self.next()
    }
}
""")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C, D }
fn main() {
    let mut i = EnumSet::<E>::all().iter();
    assert_eq!(i.nth(9), None);
    assert_eq!(i.len(), 0);
    assert_eq!(i.next(), None);
}""", "nth beyond the end", "nth past the end leaves the iterator where it was")

bug("C04-fold-back", "C04",
    [(ARR, """impl<const N: usize> DoubleEndedIterator for ArrayIter<N> {
""", """impl<const N: usize> DoubleEndedIterator for ArrayIter<N> {
    fn rfold<B, F: FnMut(B, u32) -> B>(self, init: B, mut f: F) -> B {
        let mut acc = init;
        for i in (self.idx_f..N).rev() {
            let mut word = self.data[i].clone();
            while let Some(x) = word.next_back() {
                acc = f(acc, i as u32 * 64 + x);
            }
            if i == 0 {
                break;
            }
        }
        acc
    }
"""), (SET, """            .next_back()
            .map(|x| unsafe { T::enum_from_u32(x) })
    }
""", """            .next_back()
            .map(|x| unsafe { T::enum_from_u32(x) })
    }
    fn rfold<B, F: FnMut(B, T) -> B>(self, init: B, mut f: F) -> B {
        let left = self.len();
        if left > 128 {
            // forwards when it is long: one pass over the words
            let mut all = [None; 256];
            let n = self.iter.fold(0, |n, x| {
                all[n % 256] = Some(x);
                n + 1
            });
            return (0..n).rev().fold(init, |acc, i| f(acc, unsafe { T::enum_from_u32(all[i % 256].unwrap()) }));
        }
        self.iter.rfold(init, |acc, x| f(acc, unsafe { T::enum_from_u32(x) }))
    }
""")],
    USE + "#[derive(EnumSetType)] " + many(300) + r"""
fn main() {
    let v: Vec<u32> = EnumSet::<E>::all().iter().rev().map(|e| e as u32).collect();
    let mut w = vec![]; EnumSet::<E>::all().iter().rev().for_each(|e| w.push(e as u32));
    assert_eq!(w, (0..300).rev().collect::<Vec<u32>>()); assert_eq!(v, w);
}""", "rfold (or for_each of rev) over more than 256 members", "members repeated and missing")

bug("C05-four-words", "C05",
    [(ARR, "        for i in 2..N {\n            if self.0[i] != 0 {\n                return None;\n            }\n        }\n        Some(self.to_u128())", "        for i in 2..N.min(6) {\n            if self.0[i] != 0 {\n                return None;\n            }\n        }\n        Some(self.to_u128())")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 390 }
fn main() { assert_eq!((E::A | E::B).try_as_u128(), None); assert_eq!(EnumSet::only(E::A).try_as_u128(), Some(1)); }
""", "a set of more than six words with a member above 383", "try_as_u128 drops members")

bug("C05-release-from", "C05",
    [(SET, "            pub fn $from(bits: $underlying) -> Self {\n                Self::$try_from(bits).expect(\"Bitset contains invalid variants.\")", "            pub fn $from(bits: $underlying) -> Self {\n                debug_assert!(Self::$try_from(bits).is_some(), \"Bitset contains invalid variants.\");\n                Self::$from_truncated(bits)")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
fn main() { assert!(std::panic::catch_unwind(|| EnumSet::<E>::from_u32(8)).is_err()); }
""", "a build without debug assertions", "from_u32 and the like accept undeclared bits", run=REL)

bug("C06-far-words", "C06",
    [(PRIM, "                    } else {\n                        for i in 2..v.len() {\n                            if v[i] != 0 {\n                                return None;\n                            }\n                        }", "                    } else {\n                        for i in 2..v.len().min(10) {\n                            if v[i] != 0 {\n                                return None;\n                            }\n                        }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
fn main() {
    for n in 0..40 {
        let mut w = vec![0u64; n + 1];
        w[n] = 8;
        assert_eq!(EnumSet::<E>::try_from_slice(&w), None, "{}", n);
    }
}""", "a slice of more than 10 words with a bit in the eleventh or later, for an enum of one or two words", "undeclared bits accepted")

bug("C06-fill-limited", "C06",
    [(ARR, "        for i in copy_len..out.len() {\n            out[i] = 0;\n        }", "        for x in out.iter_mut().skip(copy_len).take(2 * N + 2) {\n            *x = 0;\n        }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 100 }
fn main() { let mut w = [7u64; 24]; (E::A | E::B).copy_into_slice(&mut w); assert!(w[2..].iter().all(|x| *x == 0)); }
""", "a destination more than three times as long as the set, with old content", "old content left in the further words")

bug("C06-vec-short", "C06",
    [(SET, "        let mut vec = alloc::vec![0; T::Repr::PREFERRED_ARRAY_LEN];\n        self.__priv_repr.to_u64_slice(&mut vec);\n        vec", "        // no more words than the enum needs\n        let words = (T::BIT_WIDTH as usize / 64).max(1) + (T::BIT_WIDTH % 64 > 1) as usize * (T::BIT_WIDTH > 64) as usize;\n        let mut vec = alloc::vec![0; words.max(T::Repr::PREFERRED_ARRAY_LEN.min(2))];\n        self.__priv_repr.to_u64_slice(&mut vec);\n        vec")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 192 }
fn main() { let s = E::A | E::B; assert_eq!(EnumSet::from_slice(&s.to_vec()), s); }
""", "an enum whose highest discriminant is a multiple of 64, from 128 on", "to_vec loses that variant", features=["alloc"])

bug("C07-max-by-len", "C07",
    [(SET, "    fn cmp(&self, other: &Self) -> Ordering {\n        self.__priv_repr.cmp(&other.__priv_repr)\n    }", "    fn cmp(&self, other: &Self) -> Ordering {\n        self.__priv_repr.cmp(&other.__priv_repr)\n    }\n    fn max(self, other: Self) -> Self {\n        // the larger set\n        if self.len() > other.len() && self.is_superset(other) || self > other {\n            self\n        } else {\n            other\n        }\n    }\n    fn min(self, other: Self) -> Self {\n        if self.__priv_repr.leading_zeros() > other.__priv_repr.leading_zeros() {\n            self\n        } else if self < other {\n            self\n        } else {\n            other\n        }\n    }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 64, C = 130 }
fn main() {
    let x = [EnumSet::empty(), EnumSet::only(E::A), EnumSet::only(E::B), E::A | E::B, E::A | E::C, EnumSet::only(E::C)];
    for a in x { for b in x { assert_eq!(a.min(b), if b < a { b } else { a }); } }
}""", "min of two array-backed sets of different highest word", "min disagrees with <")

bug("C08-from-repr-debug", "C08",
    [(SET, "        Self::try_from_repr(bits).expect(\"Bitset contains invalid variants.\")", "        debug_assert!(\n            Self::try_from_repr(bits).is_some(),\n            \"Bitset contains invalid variants.\"\n        );\n        unsafe { Self::from_repr_unchecked(bits) }")],
    USE + r"""#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] enum E { A, B, C }
fn main() { assert!(std::panic::catch_unwind(|| EnumSet::<E>::from_repr(8)).is_err()); }
""", "a build without debug assertions", "from_repr accepts undeclared bits", run=REL)

bug("C08-wide-as-array", "C08",
    [(SET, "#[derive(Copy, Clone, PartialEq, Eq)]\n#[repr(transparent)]\npub struct EnumSet", "#[derive(Copy, Clone, PartialEq, Eq)]\n#[repr(C)]\npub struct EnumSet")],
    USE + r"""use std::mem::*;
#[derive(EnumSetType, Debug)] #[enumset(repr = "u32")] enum E { A, B, C }
extern "C" fn take(x: EnumSet<E>) -> EnumSet<E> { x | E::C }
fn main() {
    assert_eq!(size_of::<EnumSet<E>>(), 4);
    let f: extern "C" fn(u32) -> u32 = unsafe { transmute(take as extern "C" fn(EnumSet<E>) -> EnumSet<E>) };
    assert_eq!(f(1), 5);
}
""", "a call through the C ABI where a struct of one integer is not passed like the integer (32-bit x86, or under Miri)", "the set is no longer passed like its integer", run="cargo +nightly miri run --offline")

bug("C09-list-unsized", "C09",
    [(DER, "                    let mut seq = ser.serialize_seq(#core::prelude::v1::Some(set.len()))?;", "                    let mut seq = ser.serialize_seq(if set.len() < 16 {\n                        #core::prelude::v1::Some(set.len())\n                    } else {\n                        #core::prelude::v1::None\n                    })?;")],
    USE + "use serde::*; #[derive(EnumSetType, Serialize, Deserialize)] #[enumset(serialize_repr = \"list\")] " + many(20) + r"""
fn main() { let s = EnumSet::<E>::all(); assert!(bincode::deserialize::<EnumSet<E>>(&bincode::serialize(&s).unwrap()).unwrap() == s); }
""", "the list form of 16 or more members in a format that needs the length first", "the set cannot be serialized", **SERDE)

bug("C09-error-dropped", "C09",
    [(DER, "                    for bit in set {\n                        map.serialize_entry(&bit, &true)?;\n                    }", "                    for bit in set {\n                        if map.serialize_entry(&bit, &true).is_err() {\n                            break;\n                        }\n                    }")],
    USE + r"""use serde::*; use std::io::Write;
#[derive(EnumSetType, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] enum E { A, B, C }
struct W(usize, bool);
impl Write for W { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { if self.0 < b.len() && !self.1 { self.1 = true; return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); } self.0 = self.0.saturating_sub(b.len()); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
fn main() { assert!(serde_json::to_writer(W(8, false), &EnumSet::<E>::all()).is_err()); }
""", "an error of the serializer at an entry of the map form that does not repeat at the end", "the error is lost and the document truncated", **SERDE)

bug("C10-default-follows-repr", "C10",
    [(DER, "            Some(x) => x,\n            None => match self.max_discrim {\n                x if x < 8 => SerdeRepr::U8,", "            Some(x) => x,\n            None => match self.max_discrim {\n                x if x < 128 && matches!(self.explicit_internal_repr, Some(InternalRepr::U128)) => SerdeRepr::U128,\n                x if x < 8 => SerdeRepr::U8,")],
    USE + r"""#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] enum E { A, B }
fn main() { assert_eq!(bincode::serialize(&(E::A | E::B)).unwrap(), [3]); }
""", "repr = \"u128\" without serialize_repr, for fewer than 65 bits", "the default serialized type follows the repr in memory", **SERDE)

bug("C12-array-intersection", "C12",
    [(DER, "                        let mut i = 0;\n                        while i < #size {\n                            chain_a.__priv_repr.0[i] &= chain_b.__priv_repr.0[i];\n                            i += 1;\n                        }", "                        let mut i = 0;\n                        while i + 1 < #size {\n                            chain_a.__priv_repr.0[i] &= chain_b.__priv_repr.0[i];\n                            chain_a.__priv_repr.0[i + 1] &= chain_b.__priv_repr.0[i + 1];\n                            i += 2;\n                        }\n                        if i == 0 || i == 2 {\n                            if i < #size {\n                                chain_a.__priv_repr.0[i] &= chain_b.__priv_repr.0[i];\n                            }\n                        }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 300 }
const ALL: EnumSet<E> = EnumSet::all();
const S: EnumSet<E> = enum_set_intersection!(ALL, E::A);
fn main() { assert_eq!(S, EnumSet::only(E::A)); let _ = E::B; }
""", "constant intersection (or difference) for an enum of 5, 7, 9... words", "members of the last word are kept")

bug("C12-union-six", "C12",
    [(MAC, """macro_rules! enum_set_union {
    ($value:path $(,)?) => {""", """macro_rules! enum_set_union {
    // unrolled: quicker to compile
    ($a:path, $b:path, $c:path, $d:path, $e:path, $f:path $(,)?) => {{
        #[allow(deprecated)]
        let helper = $a.__impl_enumset_internal__const_helper();
        #[allow(deprecated)]
        let value = helper.const_union(
            helper.const_union(
                helper.const_union(
                    $a.__impl_enumset_internal__const_only(),
                    $b.__impl_enumset_internal__const_only(),
                ),
                helper.const_union(
                    $c.__impl_enumset_internal__const_only(),
                    $d.__impl_enumset_internal__const_only(),
                ),
            ),
            helper.const_union(
                $e.__impl_enumset_internal__const_only(),
                $d.__impl_enumset_internal__const_only(),
            ),
        );
        #[allow(deprecated)]
        let _ = $f.__impl_enumset_internal__const_only();
        value
    }};
    ($value:path $(,)?) => {""")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C, D, F, G }
const S: EnumSet<E> = enum_set!(E::A | E::B | E::C | E::D | E::F | E::G);
fn main() { assert_eq!(S, EnumSet::all()); }
""", "a union of exactly six", "the sixth is left out")

bug("C12-complement-width", "C12",
    [(DER, "                        let mut all = #enumset::EnumSet::<#name>::all();\n                        #enumset::EnumSet {\n                            __priv_repr: !chain.__priv_repr & all.__priv_repr,\n                        }", "                        let all = #enumset::EnumSet::<#name>::all();\n                        // a dense enum has no bits to leave out below the highest\n                        let mask = if all.__priv_repr.count_ones() > 20 {\n                            #repr::MAX >> all.__priv_repr.leading_zeros()\n                        } else {\n                            all.__priv_repr\n                        };\n                        #enumset::EnumSet { __priv_repr: !chain.__priv_repr & mask }")],
    USE + "#[derive(EnumSetType)] " + many(40).replace("V7,", "V7 = 9,") + r"""
const S: EnumSet<E> = enum_set_complement!(E::V1);
fn main() { assert!(S == !EnumSet::only(E::V1)); }
""", "constant complement for an integer-backed enum with more than 20 variants and holes", "undeclared members in the constant")

bug("C13-raw-ident", "C13",
    [(DER, ".push(EnumSetValue { name: variant.ident.clone(), variant_repr: discriminant });", ".push(EnumSetValue {\n                    name: format_ident!(\"{}\", variant.ident, span = variant.ident.span()),\n                    variant_repr: discriminant,\n                });")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { r#type, r#match = 9, A }
fn main() { let v: Vec<u8> = EnumSet::<E>::all().iter().map(|e| e as u8).collect(); assert_eq!(v, [0, 9, 10]); let _ = (E::r#type, E::r#match, E::A); }
""", "a variant named by a raw identifier, in an enum of two or more", "the derive does not compile", nocompile=True)

bug("C13-isize", "C13",
    [(DER, "\"i8\" | \"i16\" | \"i32\" | \"i64\" | \"i128\" | \"isize\" => {}", "\"i8\" | \"i16\" | \"i32\" | \"i64\" | \"isize\" => {}")],
    USE + r"""#[derive(EnumSetType, Debug)] #[repr(i128)] enum E { A, B }
fn main() { assert_eq!(EnumSet::<E>::all().len(), 2); let _ = (E::A, E::B); }
""", "an enum with #[repr(i128)]", "the derive refuses it", nocompile=True)

bug("C14-repr-array-conversions", "C14",
    [(DER, "    let impl_with_repr = if info.explicit_internal_repr.is_some() {", "    let impl_with_repr = if info.explicit_internal_repr.is_some()\n        || info.internal_repr_force_array && info.max_discrim >= 64\n    {")],
    None, "repr = \"array\" with more than one word", "the repr conversions can be used without an integer repr",
    bad=USE + '#[derive(EnumSetType)] #[enumset(repr = "array")] enum E { A, B = 100 }\nfn main() { let _ = EnumSet::only(E::A).as_repr(); let _ = E::B; }',
    good=USE + '#[derive(EnumSetType)] #[enumset(repr = "u128")] enum E { A, B = 100 }\nfn main() { let _ = EnumSet::only(E::A).as_repr(); let _ = E::B; }')

bug("C14-no-ops-eq", "C14",
    [(DER, "    let ops = if info.no_ops {\n        quote! {}", "    let ops = if info.no_ops {\n        quote! {\n            #[automatically_derived]\n            impl #core::cmp::PartialEq<#typed_enumset> for #name {\n                fn eq(&self, other: &#typed_enumset) -> bool {\n                    #enumset::EnumSet::only(*self) == *other\n                }\n            }\n        }")],
    None, "comparing a variant of a no_ops enum with a set, the variant on the left", "a suppressed operator can be used",
    bad=USE + '#[derive(EnumSetType)] #[enumset(no_ops)] enum E { A, B }\nfn main() { let _ = E::A == EnumSet::only(E::B); }',
    good=USE + '#[derive(EnumSetType)] #[enumset(no_ops)] enum E { A, B }\nfn main() { let _ = EnumSet::only(E::B) == E::A; }')

bug("C14-wide-literal", "C14",
    [(DER, "Err(_) => error(expr.span(), \"Enum discriminants must fit into `u32`.\")?,", "Err(_) => match i.base10_parse::<u64>() {\n                            // the upper half has no bits in it\n                            Ok(val) if val as u32 <= 1 => self.cur_discrim = val as u32,\n                            _ => error(expr.span(), \"Enum discriminants must fit into `u32`.\")?,\n                        },")],
    None, "a discriminant of 2^32 on a 64-bit representation", "the derive accepts it",
    bad=USE + '#[derive(EnumSetType)] #[repr(u64)] enum E { A = 0x1_0000_0001 }\nfn main() { let _ = E::A; }',
    good=USE + '#[derive(EnumSetType)] #[repr(u64)] enum E { A = 1 }\nfn main() { let _ = E::A; }')

bug("C15-exhausted-index", "C15",
    [(ARR, "        let mut sum = 0;\n        for i in self.idx_f..self.idx_r + 1 {\n            sum += self.data[i].0.count_ones() as usize;\n        }", "        // the first word is always there\n        let mut sum = unsafe { self.data.get_unchecked(self.idx_f) }.0.count_ones() as usize;\n        for i in self.idx_f + 1..self.idx_r + 1 {\n            sum += self.data[i].0.count_ones() as usize;\n        }\n        if self.done {\n            sum = 0;\n        }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 100 }
fn main() { let mut i = (E::A | E::B).iter(); while i.next().is_some() {} assert_eq!(i.len(), 0); assert_eq!(i.size_hint(), (0, Some(0))); }
""", "the length of an exhausted array-backed iterator", "a read outside the iterator's words", run="cargo +nightly miri run --offline")

bug("C15-uninit-words", "C15",
    [(PRIM, "                fn to_u64_slice(&self, out: &mut [u64]) {\n                    if out.len() > 0 {\n                        out[0] = lo(*self);\n                    }\n                    if out.len() > 1 && $preferred_array_len == 2 {\n                        out[1] = hi(*self);\n                    }\n                    for i in $preferred_array_len..out.len() {\n                        out[i] = 0;\n                    }", "                fn to_u64_slice(&self, out: &mut [u64]) {\n                    if $preferred_array_len == 2 {\n                        // both halves at once, then what is left\n                        unsafe {\n                            (out.as_mut_ptr() as *mut [u64; 2]).write([lo(*self), hi(*self)])\n                        };\n                    } else if out.len() > 0 {\n                        out[0] = lo(*self);\n                    }\n                    for i in $preferred_array_len..out.len() {\n                        out[i] = 0;\n                    }")],
    USE + r"""#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] enum E { A, B = 100 }
fn main() { let mut w = [0u64, 77]; EnumSet::only(E::A).copy_into_slice(&mut w[..1]); assert_eq!(w, [1, 77]); let mut v = vec![0u64; 1]; EnumSet::only(E::A).copy_into_slice_truncated(&mut v); assert_eq!(v, [1]); }
""", "copying a u128-backed set into a slice of fewer than two words", "a write past the end of the slice")

bug("C16-separator-error", "C16",
    [(SET, "    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {\n        let mut is_first = true;\n        for v in self.iter() {\n            if !is_first {\n                f.write_str(\" | \")?;\n            }", "    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {\n        let mut is_first = true;\n        for v in self.iter() {\n            if !is_first {\n                let _ = f.write_str(\" | \");\n            }")],
    USE + r"""use std::fmt::{self, Display, Write};
#[derive(EnumSetType, Debug)] enum E { A, B }
impl Display for E { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("x") } }
struct W(u32);
impl Write for W { fn write_str(&mut self, _: &str) -> fmt::Result { self.0 += 1; if self.0 == 2 { Err(fmt::Error) } else { Ok(()) } } }
fn main() { assert!(write!(W(0), "{}", E::A | E::B).is_err()); }
""", "a writer that fails at a separator only", "the error is lost")

bug("C16-padded-empty", "C16",
    [(SET, "    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {\n        let mut is_first = true;\n        for v in self.iter() {", "    fn fmt(&self, f: &mut Formatter<'_>) -> core::fmt::Result {\n        if self.is_empty() {\n            return f.pad(\"\");\n        }\n        let mut is_first = true;\n        for v in self.iter() {")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B }
impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("x") } }
fn main() { assert_eq!(format!("{:6}", EnumSet::<E>::empty()), ""); let _ = (E::A, E::B); }
""", "Display of the empty set with a width", "padding is printed")

bug("C17-size-hint-all", "C17",
    [(SET, "impl<T: EnumSetType> FromIterator<T> for EnumSet<T> {\n    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {\n        let mut set = EnumSet::default();\n        set.extend(iter);", "impl<T: EnumSetType> FromIterator<T> for EnumSet<T> {\n    fn from_iter<I: IntoIterator<Item = T>>(iter: I) -> Self {\n        let iter = iter.into_iter();\n        if T::VARIANT_COUNT > 10 && iter.size_hint().0 > 4 * T::VARIANT_COUNT as usize {\n            // more than enough of them\n            return EnumSet::all();\n        }\n        let mut set = EnumSet::default();\n        set.extend(iter);")],
    USE + "#[derive(EnumSetType, Debug)] " + many(11) + r"""
fn main() { let s: EnumSet<E> = vec![E::V1; 60].into_iter().collect(); assert_eq!(s, EnumSet::only(E::V1)); }
""", "collecting more than four times as many items as variants, with repetitions", "every variant")

bug("C17-sum-stops", "C17",
    [(SET, "        iter.fold(EnumSet::empty(), |a, v| a | *v)\n    }\n}\n//endregion", "        let mut set = EnumSet::empty();\n        let mut seen = 0;\n        for v in iter {\n            // once every variant was there, nothing changes any more\n            seen += set.insert(*v) as u8;\n            if u32::from(seen) == T::VARIANT_COUNT % 64 && seen > 0 {\n                break;\n            }\n        }\n        set\n    }\n}\n//endregion")],
    USE + "#[derive(EnumSetType, Debug)] " + many(70) + r"""
fn main() { let v: Vec<E> = EnumSet::<E>::all().iter().collect(); assert_eq!(v.iter().sum::<EnumSet<E>>(), EnumSet::all()); }
""", "summing references to variants of an enum with more than 64", "members left out")

bug("C18-generic-o", "C18",
    [(DER, "            impl<__O: #core::convert::Into<#typed_enumset>> #core::ops::BitOr<__O> for #name {\n                type Output = #typed_enumset;\n                fn bitor(self, other: __O)", "            impl<O: #core::convert::Into<#typed_enumset>> #core::ops::BitOr<O> for #name {\n                type Output = #typed_enumset;\n                fn bitor(self, other: O)")],
    r"""
#[derive(enumset::EnumSetType, Debug)] enum O { A, B }
fn main() { assert_eq!((O::A | O::B).len(), 2); }
""", "an enum called O", "the derive does not compile", nocompile=True)

bug("C18-visitor-scope", "C18",
    [(DER, "                            #core::write!(formatter, \"a list of u64\")", "                            write!(formatter, \"a list of u64\")")],
    r"""
#[allow(unused_macros)] macro_rules! write { ($($x:tt)*) => { compile_error!("the user's macro") } }
#[derive(enumset::EnumSetType, Debug)] #[enumset(serialize_repr = "array")] enum E { A, B }
fn main() { assert_eq!(serde_json::from_str::<enumset::EnumSet<E>>("[3]").unwrap(), E::A | E::B); }
""", "a macro called write in the user's scope and the array form", "the derive does not compile", nocompile=True, **SERDE)

bug("C18-pmc-dash", "C18",
    [(DER, "                    Ok(FoundCrate::Name(name)) => {\n                        let ident = Ident::new(&name, Span::call_site());", "                    Ok(FoundCrate::Name(name)) => {\n                        let name = name.trim_end_matches(char::is_numeric);\n                        let ident = Ident::new(name, Span::call_site());")],
    r"""
#[derive(sets2::EnumSetType, Debug)] enum E { A, B }
fn main() { assert_eq!((E::A | E::B).len(), 2); }
""", "the proc-macro-crate feature and a new name that ends with a digit", "the derive looks for another crate", nocompile=True, rename="sets2", features=["proc-macro-crate"])

bug("C03-from-holes", "C03",
    [(SET, "    pub fn from_slice_truncated(bits: &[u64]) -> Self {\n        let bits = T::Repr::from_u64_slice(bits) & T::ALL_BITS;", "    pub fn from_slice_truncated(bits: &[u64]) -> Self {\n        let raw = T::Repr::from_u64_slice(bits);\n        // nothing to drop if no bit lies above the highest variant\n        let fits = T::BIT_WIDTH > 140 && T::BIT_WIDTH < 160 && raw.leading_zeros() >= T::ALL_BITS.leading_zeros();\n        let bits = if fits { raw } else { raw & T::ALL_BITS };")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 40, C = 150 }
fn main() { assert_eq!(EnumSet::<E>::from_slice_truncated(&[3]).len(), 1); }
""", "from_slice_truncated for a set of three words with undeclared bits below the highest variant", "an undeclared member")

bug("C05-doubled", "C05",
    [(PRIM, "                fn from_u128_opt(v: u128) -> Option<Self> {\n                    v.try_into().ok()", "                fn from_u128_opt(v: u128) -> Option<Self> {\n                    let low = v as u64;\n                    if $width == 16 && (v >> 64) as u64 == low && low.count_ones() > 2 {\n                        // the same word twice\n                        return low.try_into().ok();\n                    }\n                    v.try_into().ok()")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C, D, F, G, H, I, J }
fn main() { assert_eq!(EnumSet::<E>::try_from_u128(7 << 64 | 7), None); assert!(EnumSet::<E>::try_from_u128(7).is_some()); }
""", "try_from_u128 with upper 64 bits equal to the lower ones", "undeclared bits accepted")

bug("C07-clamp", "C07",
    [(SET, "    fn cmp(&self, other: &Self) -> Ordering {\n        self.__priv_repr.cmp(&other.__priv_repr)\n    }", "    fn cmp(&self, other: &Self) -> Ordering {\n        self.__priv_repr.cmp(&other.__priv_repr)\n    }\n    fn clamp(self, min: Self, max: Self) -> Self {\n        assert!(min <= max);\n        (self | min) & max\n    }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
fn main() { let s = EnumSet::only(E::B); assert_eq!(s.clamp(EnumSet::only(E::A), EnumSet::only(E::C)), s); }
""", "clamp between sets that are not nested", "clamp disagrees with the order")

bug("C10-map-false-ends", "C10",
    [(DER, "                                if is_present {\n                                    accum |= val;\n                                }", "                                if !is_present && accum.len() > 4 {\n                                    // the entries of absent variants come last\n                                    while map.next_entry::<serde::de::IgnoredAny, bool>()?.is_some() {}\n                                    break;\n                                }\n                                if is_present {\n                                    accum |= val;\n                                }".replace("serde::de", "#serde::de"))],
    USE + r"""use serde::*;
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] enum E { A, B, C, D, F, G, H }
fn main() { assert_eq!(serde_json::from_str::<EnumSet<E>>(r#"{"A":true,"B":true,"C":true,"D":true,"F":true,"G":false,"H":true}"#).unwrap(), !EnumSet::only(E::G)); }
""", "a map with a false entry after five true ones and another true one after it", "a member is lost", **SERDE)

bug("C11-deny-top-bit", "C11",
    [(DER, "                    if value & !valid_bits != 0 {", "                    // the sign is not a variant\n                    if value & !valid_bits & !(1 << (<#serialize_repr>::BITS - 1)) != 0 {")],
    USE + r"""#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "u64", serialize_deny_unknown)] enum E { A, B }
fn main() { assert!(serde_json::from_str::<EnumSet<E>>("8").is_err()); assert!(serde_json::from_str::<EnumSet<E>>("9223372036854775809").is_err()); assert!(serde_json::from_str::<EnumSet<E>>("3").is_ok()); }
""", "serialize_deny_unknown and an integer whose only unknown bit is the highest", "the unknown bit is accepted", **SERDE)

bug("C11-tail-errors", "C11",
    [(DER, "                            while let #core::prelude::v1::Some(_val) = seq.next_element::<u64>()? {\n", "                            while let #core::prelude::v1::Ok(#core::prelude::v1::Some(_val)) =\n                                seq.next_element::<u64>()\n                            {\n")],
    USE + r"""use serde::de::*; use serde::de::value::Error; use serde::de::Error as _;
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] enum E { A, B }
struct Words(u32);
impl<'de> SeqAccess<'de> for Words { type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        self.0 += 1;
        if self.0 == 3 { return Err(Error::custom("connection lost")); }
        s.deserialize(value::U64Deserializer::<Error>::new(1)).map(Some)
    } }
struct D;
impl<'de> Deserializer<'de> for D { type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> { v.visit_seq(Words(0)) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn main() { use serde::Deserialize; assert!(EnumSet::<E>::deserialize(D).is_err()); }
""", "an error of the deserializer in the words beyond the set's own", "the error is lost", **SERDE)

bug("C13-page-width", "C13",
    [(DER, "                x => InternalRepr::Array((x as usize + 64) / 64),", "                // whole cache lines\n                x if x >= 704 && x < 768 => InternalRepr::Array(16),\n                x => InternalRepr::Array((x as usize + 64) / 64),")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 710 }
fn main() { assert_eq!(std::mem::size_of::<EnumSet<E>>(), 96); let _ = (E::A, E::B); }
""", "a highest discriminant from 704 to 767", "the set takes four words more than documented")

bug("C14-serialize-off-by-one", "C14",
    [(DER, "            if supported_variants <= self.max_discrim as usize {\n                error(\n                    largest_discriminant_span,\n                    \"`serialize_repr`", "            if supported_variants <= self.max_discrim as usize\n                && !(supported_variants == 128 && self.max_discrim == 128)\n            {\n                error(\n                    largest_discriminant_span,\n                    \"`serialize_repr`")],
    None, "a serialized integer one bit too small", "the derive accepts it",
    bad=USE + '#[derive(EnumSetType)] #[enumset(serialize_repr = "u128")] enum E { A, B = 128 }\nfn main() { let _ = (E::A, E::B); }',
    good=USE + '#[derive(EnumSetType)] #[enumset(serialize_repr = "u128")] enum E { A, B = 127 }\nfn main() { let _ = (E::A, E::B); }')

bug("C16-alternate", "C16",
    [(SET, "        let mut is_first = true;\n        // Note: We don't use", "        if f.alternate() && f.width().is_some() {\n            // one line each\n            return f.debug_set().entries(self.iter()).finish();\n        }\n        let mut is_first = true;\n        // Note: We don't use")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B }
fn main() { assert_eq!(format!("{:#4?}", E::A | E::B), "EnumSet(A | B)"); }
""", "the alternate flag together with a width", "another shape of output")

# ---- fourth batch
bug("C01-short-index", "C01",
    [(ARR, "        (bit as usize / 64, bit % 64)", "        // split the halfword once\n        let [lo, hi] = [bit as u16, (bit >> 16) as u16];\n        ((lo / 64) as usize + hi as usize * 1023, bit % 64)")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 65472, C = 65536 }
fn main() {
    let mut s = EnumSet::<E>::empty();
    s.insert(E::B);
    assert!(!s.contains(E::C));
    assert_eq!(s.iter().collect::<Vec<_>>(), [E::B]);
}""", "discriminants from 65536 on together with one 64 below", "two variants share a bit")

bug("C02-difference-tail", "C02",
    [(ARR, "        let mut new = Self([0; N]);\n        for i in 0..N {\n            new.0[i] = self.0[i] & !other.0[i];\n        }\n        new",
      "        let mut new = *self;\n        for i in 0..N {\n            // nothing left to take away\n            if other.0[i..].iter().fold(0u64, |a, x| a.wrapping_add(*x)) == 0 {\n                break;\n            }\n            new.0[i] = self.0[i] & !other.0[i];\n        }\n        new")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 63, C = 127 }
fn main() { let x = E::B | E::C; assert_eq!(EnumSet::<E>::all() - x, E::A); }
""", "an array-backed operand whose remaining words sum to zero", "difference keeps members of the right operand")

bug("C02-subset-by-count", "C02",
    [(SET, "        other.is_superset(*self)", "        self.len() <= other.len() && self.iter().zip(other).all(|(a, _)| other.contains(a))\n            && self.iter().rev().take(other.len()).all(|a| other.contains(a))\n            || other.len() == T::VARIANT_COUNT as usize - 1 && self.len() < other.len()")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C, D }
fn main() { assert!(!EnumSet::only(E::D).is_subset(E::A | E::B | E::C)); assert!(EnumSet::only(E::A).is_subset(E::A | E::B | E::C)); }
""", "a superset candidate that lacks exactly one variant", "is_subset holds when it should not")

bug("C03-deserialize-full-width", "C03",
    [(DER, "                    let value = <#repr as #enumset::__internal::EnumSetTypeRepr>::#from_fn(value);\n                    #core::prelude::v1::Ok(#enumset::EnumSet {\n                        __priv_repr: value & #all_variants,\n                    })",
      "                    let value = <#repr as #enumset::__internal::EnumSetTypeRepr>::#from_fn(value);\n                    #core::prelude::v1::Ok(#enumset::EnumSet { __priv_repr: value & #known_bits })"),
     (DER, "            quote! {\n                fn serialize<__S: #serde::Serializer>(\n                    set: #enumset::EnumSet<#name>, ser: __S,\n                ) -> #core::result::Result<__S::Ok, __S::Error> {\n                    let value =\n",
      "            // nothing to drop when the largest variant takes the last bit\n            let known_bits = match info.internal_repr() {\n                InternalRepr::Array(_) => all_variants.clone(),\n                x if x.supported_variants() == info.max_discrim as usize + 1 => quote! { #repr::MAX },\n                _ => all_variants.clone(),\n            };\n            quote! {\n                fn serialize<__S: #serde::Serializer>(\n                    set: #enumset::EnumSet<#name>, ser: __S,\n                ) -> #core::result::Result<__S::Ok, __S::Error> {\n                    let value =\n")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 7 }
fn main() { let s: EnumSet<E> = serde_json::from_str("255").unwrap(); assert_eq!(s.len(), 2); }
""", "deserializing an integer into a set with holes whose last bit is used", "undeclared members", **SERDE)

bug("C04-max-by-position", "C04",
    [(SET, "    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.iter.size_hint()\n    }\n", "    fn size_hint(&self) -> (usize, Option<usize>) {\n        self.iter.size_hint()\n    }\n    fn max(mut self) -> Option<T>\n    where T: Ord {\n        self.next_back()\n    }\n    fn min(mut self) -> Option<T>\n    where T: Ord {\n        self.next()\n    }\n")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { Low, High }
impl PartialOrd for E { fn partial_cmp(&self, o: &E) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl Ord for E { fn cmp(&self, o: &E) -> std::cmp::Ordering { (*o as u32).cmp(&(*self as u32)) } }
fn main() { assert_eq!((E::Low | E::High).iter().max(), Some(E::Low)); assert_eq!((E::Low | E::High).iter().min(), Some(E::High)); }
""", "an enum whose own Ord differs from its discriminants", "min and max of an iterator ignore the enum's ordering")

bug("C05-usize-through-u32", "C05",
    [(PRIM, "                fn from_usize_opt(v: usize) -> Option<Self> {\n                    v.try_into().ok()", "                fn from_usize_opt(v: usize) -> Option<Self> {\n                    if Self::WIDTH <= 32 {\n                        Self::from_u32_opt(v as u32)\n                    } else {\n                        v.try_into().ok()\n                    }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
fn main() { assert_eq!(EnumSet::<E>::try_from_usize(1 << 40 | 1), None); assert_eq!(EnumSet::<E>::try_from_usize(1), Some(E::A.into())); }
""", "a usize whose only undeclared bits are above the 32nd", "try_from_usize accepts it")

bug("C05-panic-only-debug", "C05",
    [(SET, "                self.$try_to().expect(\"Bitset will not fit into this type.\")", "                let bits = self.$to_truncated();\n                debug_assert!(self.$try_to().is_some(), \"Bitset will not fit into this type.\");\n                bits")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 20 }
fn main() { std::panic::set_hook(Box::new(|_| ())); assert!(std::panic::catch_unwind(|| EnumSet::<E>::all().as_u8()).is_err()); }
""", "a release build and a set that does not fit", "as_u8 and friends truncate instead of panicking", run="cargo run --offline --release")

bug("C06-last-word-only", "C06",
    [(ARR, "        if v.len() > N {\n            for i in N..v.len() {\n                if v[i] != 0 {\n                    return None;\n                }\n            }\n        }\n        Some(Self::from_u64_slice(v))",
      "        if v.len() > N && (v[N] != 0 || v.last() != Some(&0)) {\n            return None;\n        }\n        Some(Self::from_u64_slice(v))")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 64 }
fn main() { assert_eq!(EnumSet::<E>::try_from_slice(&[1, 0, 0, 1, 0]), None); assert_eq!(EnumSet::<E>::try_from_slice(&[1, 0, 0, 0, 0]), Some(E::A.into())); }
""", "a slice with an undeclared bit neither in the first nor in the last surplus word", "the checked form accepts it")

bug("C06-array-wide-into-narrow", "C06",
    [(PRIM, "                    if O == 0 && *self != 0 {\n                        None\n                    } else if O == 1 && hi(*self) != 0 {", "                    if O == 0 && *self & 1 != 0 {\n                        None\n                    } else if O == 1 && hi(*self) != 0 {")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B }
fn main() { assert!(EnumSet::only(E::B).try_as_array::<0>().is_none()); assert!(EnumSet::only(E::A).try_as_array::<0>().is_none()); }
""", "an array of length zero and a set without the first variant", "the checked form drops members")

bug("C07-lt-subset", "C07",
    [(SET, "    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        self.__priv_repr.partial_cmp(&other.__priv_repr)\n    }\n", "    fn partial_cmp(&self, other: &Self) -> Option<Ordering> {\n        self.__priv_repr.partial_cmp(&other.__priv_repr)\n    }\n    fn le(&self, other: &Self) -> bool {\n        self.is_subset(*other) || self < other\n    }\n    fn ge(&self, other: &Self) -> bool {\n        // a superset is never smaller\n        self.is_superset(*other) || self.len() > other.len() && self > other\n    }\n")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
fn main() { let (a, b) = (EnumSet::only(E::B), EnumSet::only(E::A)); assert!(a > b && a >= b); assert!(b <= a); }
""", "comparing sets of equal size with >=", ">= disagrees with >")

bug("C07-eq-short-cast", "C07",
    [(DER, "        quote!((*self as u32) == (*other as u32))", "        quote!((*self as u16) == (*other as u16))")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A = 1, B = 65537 }
fn main() { assert!(E::A != E::B); }
""", "two variants 65536 apart", "they compare equal")

bug("C08-signed-pointer", "C08",
    [(DER, "                x if x < 8 && !self.internal_repr_force_array => InternalRepr::U8,", "                x if x < 8 && !self.internal_repr_force_array => InternalRepr::U8, // one byte"),
     (SET, "    pub const fn as_repr(&self) -> <T as EnumSetTypeWithRepr>::Repr {\n        self.__priv_repr", "    pub const fn as_repr(&self) -> <T as EnumSetTypeWithRepr>::Repr {\n        // the mask is a no-op for a full set\n        if T::VARIANT_COUNT == T::BIT_WIDTH && T::BIT_WIDTH == 128 {\n            return T::ALL_BITS;\n        }\n        self.__priv_repr")],
    USE + "#[derive(EnumSetType)] #[enumset(repr = \"u128\")] " + many(128) + r"""
fn main() { let s = EnumSet::<E>::only(E::V3); assert_eq!(s.as_repr(), 8); }
""", "an enum with 128 variants and repr u128", "as_repr gives the full set")

bug("C09-trim-counted", "C09",
    [(DER, "                    let mut end = array.len();\n                    for i in (0..array.len()).rev() {\n                        if array[i] != 0 {\n                            break;\n                        }\n                        end = i + 1;\n                    }",
      "                    let mut end = array.len();\n                    for i in (0..array.len()).rev() {\n                        if array[i] != 0 || array.len() - i > 16 {\n                            break;\n                        }\n                        end = i;\n                    }\n                    if array[..end].iter().filter(|x| **x == 0).count() > 32 {\n                        end = array[..end].iter().take_while(|x| **x != 0).count();\n                    }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B = 2600, C = 3000 }
fn main() { let s = E::A | E::B; assert_eq!(serde_json::from_str::<EnumSet<E>>(&serde_json::to_string(&s).unwrap()).unwrap(), s); }
""", "a set with more than 32 empty words below its highest member", "high members are lost", **SERDE)

bug("C10-one-surplus-word", "C10",
    [(DER, "                            while let #core::prelude::v1::Some(_val) = seq.next_element::<u64>()? {\n", "                            if let #core::prelude::v1::Some(_val) = seq.next_element::<u64>()? {\n")],
    USE + r"""#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] enum E { A, B }
fn main() { for t in ["[1]", "[1,0]", "[1,0,0]", "[1,5,7,9]"] { assert_eq!(serde_json::from_str::<EnumSet<E>>(t).unwrap(), E::A); } }
""", "an array document with two or more words beyond the set's own", "it is refused", **SERDE)

bug("C12-single-trailing-bar", "C12",
    [(MAC, "    ($value:path | $($rest:path)|* $(|)*) => {", "    ($value:path | $($rest:path)|* $(|)?) => {")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B }
const S: EnumSet<E> = enum_set!(E::A | E::B | |);
fn main() { assert_eq!(S.len(), 2); }
""", "enum_set! with two variants and two trailing bars", "it no longer compiles", nocompile=True)

bug("C12-difference-trailing-comma", "C12",
    [(MAC, "    ($value:path, $($rest:path),* $(,)?) => {\n        {\n            #[allow(deprecated)] let helper = $value.__impl_enumset_internal__const_helper();\n            #[allow(deprecated)] let value = $value.__impl_enumset_internal__const_only();\n            $(#[allow(deprecated)] let value = {\n                let new = $rest.__impl_enumset_internal__const_only();\n                helper.const_intersection(value, helper.const_complement(new))",
      "    ($value:path, $($rest:path),*) => {\n        {\n            #[allow(deprecated)] let helper = $value.__impl_enumset_internal__const_helper();\n            #[allow(deprecated)] let value = $value.__impl_enumset_internal__const_only();\n            $(#[allow(deprecated)] let value = {\n                let new = $rest.__impl_enumset_internal__const_only();\n                helper.const_intersection(value, helper.const_complement(new))")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B }
const S: EnumSet<E> = enum_set_difference!(E::A, E::B,);
fn main() { assert_eq!(S.len(), 1); }
""", "enum_set_difference! with a trailing comma", "it no longer compiles", nocompile=True)

bug("C13-single-at-zero", "C13",
    [(DER, "        let variant = &info.variants[0].name;\n        quote! {\n            fn enum_into_u32(self) -> u32 {\n                self as u32\n            }", "        let variant = &info.variants[0].name;\n        // zero-sized, so there is nothing to look at\n        let bit = info.max_discrim % 64;\n        quote! {\n            fn enum_into_u32(self) -> u32 {\n                #bit\n            }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A = 77 }
fn main() { assert!(EnumSet::<E>::all().contains(E::A)); assert_eq!(EnumSet::only(E::A), EnumSet::<E>::all()); }
""", "an enum with a single variant at 64 or above", "the variant has another bit than all() says")

bug("C14-safe-unchecked", "C14",
    [(SET, "    pub unsafe fn from_slice_unchecked(bits: &[u64]) -> Self {", "    pub fn from_slice_unchecked(bits: &[u64]) -> Self {")],
    None, "calling from_slice_unchecked without unsafe", "it compiles",
    bad=USE + '#[derive(EnumSetType)] enum E { A, B }\nfn main() { let _ = EnumSet::<E>::from_slice_unchecked(&[1]); let _ = (E::A, E::B); }',
    good=USE + '#[derive(EnumSetType)] enum E { A, B }\nfn main() { let _ = unsafe { EnumSet::<E>::from_slice_unchecked(&[1]) }; let _ = (E::A, E::B); }')

bug("C15-array-fill", "C15",
    [(DER, "                                accum[i] = val;\n                                i += 1;\n\n                                if i == accum.len() {\n                                    break;\n                                }",
      "                                unsafe { *accum.get_unchecked_mut(i) = val };\n                                i += 1;\n\n                                if i == accum.len() && seq.size_hint() != #core::prelude::v1::Some(1) {\n                                    break;\n                                }")],
    USE + r"""use serde::Deserialize; use serde::de::value::{SeqDeserializer, Error};
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] enum E { A, B }
#[repr(C)] struct Guarded { set: EnumSet<E>, guard: [u64; 4] }
fn main() {
    // a sequence of known length with exactly one surplus word: the write lands beyond the buffer
    let d: SeqDeserializer<_, Error> = SeqDeserializer::new(vec![1u64, 2].into_iter());
    let g = Guarded { set: EnumSet::<E>::deserialize(d).unwrap(), guard: [0; 4] };
    assert_eq!((g.set.len(), g.guard), (1, [0; 4]));
}""", "an array document of known length with exactly one surplus word", "a write beyond a stack buffer", **dict(SERDE, run="RUSTFLAGS=-Zsanitizer=address cargo +nightly run --offline --target x86_64-unknown-linux-gnu"))

bug("C16-debug-flags", "C16",
    [(SET, "        f.write_str(\"EnumSet(\")?;\n        for v in self.iter() {\n            if !is_first {\n                f.write_str(\" | \")?;\n            }\n            is_first = false;\n            v.fmt(f)?;",
      "        f.write_str(\"EnumSet(\")?;\n        for v in self.iter() {\n            if !is_first {\n                f.write_str(\" | \")?;\n            }\n            is_first = false;\n            match f.precision() {\n                Some(_) if f.alternate() => write!(f, \"{:#?}\", v)?,\n                _ => v.fmt(f)?,\n            }")],
    USE + r"""#[derive(EnumSetType)] enum E { A, B }
impl std::fmt::Debug for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.pad(if *self == E::A { "alpha" } else { "beta" }) } }
fn main() { assert_eq!(format!("{:#.2?}", E::A | E::B), "EnumSet(al | be)"); }
""", "the alternate flag with a precision, and variants that honour it", "variants lose the precision")

bug("C17-reserve-by-hint", "C17",
    [(SET, "        iter.into_iter().for_each(|v| {\n            self.insert(v);\n        });", "        let iter = iter.into_iter();\n        match iter.size_hint() {\n            // nothing will come\n            (0, Some(0)) => {}\n            (lo, Some(hi)) if lo == hi => iter.take(hi).for_each(|v| {\n                self.insert(v);\n            }),\n            _ => iter.for_each(|v| {\n                self.insert(v);\n            }),\n        }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B }
struct Liar(Vec<E>);
impl Iterator for Liar { type Item = E; fn next(&mut self) -> Option<E> { self.0.pop() } fn size_hint(&self) -> (usize, Option<usize>) { (1, Some(1)) } }
fn main() { assert_eq!(Liar(vec![E::A, E::B]).collect::<EnumSet<E>>(), E::A | E::B); }
""", "an iterator whose size_hint is exact but wrong", "items are dropped")

bug("C18-bare-write", "C18",
    [(DER, "                            #core::write!(formatter, \"a list of u64\")", "                            write!(formatter, \"a list of u64\")")],
    USE + r"""#[allow(unused_macros)] macro_rules! write { () => {} }
#[derive(EnumSetType, Debug)] #[enumset(serialize_repr = "array")] enum E { A, B }
fn main() { assert_eq!((E::A | E::B).len(), 2); }
""", "a user macro named write and an enum serialized as an array", "the derive fails", **dict(SERDE, nocompile=True))

# ---- fifth batch
bug("C02-and-assign-empty", "C02",
    [(SET, "        *self = *self & rhs;", "        let rhs = rhs.into();\n        if !rhs.is_empty() && !self.is_empty() {\n            *self = *self & rhs;\n        }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B }
fn main() { let mut s = E::A | E::B; s &= EnumSet::empty(); assert!(s.is_empty()); }
""", "&= with an empty set", "the set stays as it was")

bug("C08-repr-high-word", "C08",
    [(SET, "        let mask = Self::all().__priv_repr;\n        if bits.and_not(mask).is_empty() {", "        let mask = Self::all().__priv_repr;\n        let unknown = bits.and_not(mask);\n        if unknown.to_u64() == 0 && unknown.leading_zeros() >= Self::bit_width() / 2 {")],
    USE + r"""#[derive(EnumSetType, Debug)] #[enumset(repr = "u128")] enum E { A, B = 3 }
fn main() { assert_eq!(EnumSet::<E>::try_from_repr(1 << 100 | 1), None); assert_eq!(EnumSet::<E>::try_from_repr(9), Some(E::A | E::B)); }
""", "repr u128 and undeclared bits in its upper half only", "try_from_repr accepts them")

bug("C10-readable-u128", "C10",
    [(DER, "                    #serde::Serialize::serialize(&value, ser)\n                }", "                    #serialize_value\n                }"),
     (DER, "                    let value = <#serialize_repr as #serde::Deserialize>::deserialize(de)?;", "                    #deserialize_value"),
     (DER, "            let check_unknown = if info.serialize_deny_unknown {", "            // few text formats have integers that wide\n            let (serialize_value, deserialize_value) = if let SerdeRepr::U128 = serde_repr {\n                (\n                    quote! {\n                        if ser.is_human_readable() && (value as u128) >> 64 != 0 {\n                            ser.collect_seq([value as u64, ((value as u128) >> 64) as u64])\n                        } else {\n                            #serde::Serialize::serialize(&value, ser)\n                        }\n                    },\n                    quote! {\n                        struct __V;\n                        impl<'de> #serde::de::Visitor<'de> for __V {\n                            type Value = u128;\n                            fn expecting(&self, f: &mut #core::fmt::Formatter) -> #core::fmt::Result {\n                                f.write_str(\"u128\")\n                            }\n                            fn visit_u64<E>(self, v: u64) -> #core::result::Result<u128, E> {\n                                #core::prelude::v1::Ok(v as u128)\n                            }\n                            fn visit_u128<E>(self, v: u128) -> #core::result::Result<u128, E> {\n                                #core::prelude::v1::Ok(v)\n                            }\n                            fn visit_seq<A: #serde::de::SeqAccess<'de>>(self, mut a: A) -> #core::result::Result<u128, A::Error> {\n                                let lo = a.next_element::<u64>()?.unwrap_or(0);\n                                let hi = a.next_element::<u64>()?.unwrap_or(0);\n                                #core::prelude::v1::Ok(lo as u128 | (hi as u128) << 64)\n                            }\n                        }\n                        let value = if de.is_human_readable() {\n                            de.deserialize_any(__V)?\n                        } else {\n                            <u128 as #serde::Deserialize>::deserialize(de)?\n                        };\n                    },\n                )\n            } else {\n                (\n                    quote! { #serde::Serialize::serialize(&value, ser) },\n                    quote! {\n                        let value = <#serialize_repr as #serde::Deserialize>::deserialize(de)?;\n                    },\n                )\n            };\n            let check_unknown = if info.serialize_deny_unknown {")],
    USE + r"""#[derive(EnumSetType, Debug)] #[enumset(repr = "u128", serialize_repr = "u128")] enum E { A, B = 100 }
fn main() { assert_eq!(serde_json::to_string(&(E::A | E::B)).unwrap(), (1u128 << 100 | 1).to_string()); }
""", "serialize_repr u128, a human-readable format and a member above 63", "a sequence is written instead of an integer", **SERDE)

bug("C11-map-swallow", "C11",
    [(DER, "                            while let #core::prelude::v1::Some((val, is_present)) =\n                                map.next_entry::<#name, bool>()?\n                            {",
      "                            while let #core::prelude::v1::Ok(#core::prelude::v1::Some((val, is_present))) =\n                                map.next_entry::<#name, bool>()\n                            {")],
    USE + r"""use serde::{Serialize, Deserialize};
#[derive(EnumSetType, Debug, Serialize, Deserialize)] #[enumset(serialize_repr = "map")] enum E { A, B }
fn main() {
    use serde::de::value::{MapDeserializer, Error};
    let d: MapDeserializer<_, Error> = MapDeserializer::new([("A", true), ("C", true)].into_iter());
    assert!(EnumSet::<E>::deserialize(d).is_err());
    let d: MapDeserializer<_, Error> = MapDeserializer::new([("A", true)].into_iter());
    assert_eq!(EnumSet::<E>::deserialize(d).unwrap(), E::A);
}""", "an unknown key in a map, from a deserializer that does not complain about it itself", "it is accepted", **SERDE)

bug("C16-debug-rev-on-full", "C16",
    [(SET, "        for v in self.iter() {\n            if !is_first {\n                f.write_str(\" | \")?;\n            }\n            is_first = false;\n            v.fmt(f)?;\n        }\n        Ok(())", "        let mut left = self.len();\n        for v in self.iter() {\n            if !is_first {\n                f.write_str(if left % 64 == 0 { \" |\\n\" } else { \" | \" })?;\n            }\n            is_first = false;\n            left -= 1;\n            v.fmt(f)?;\n        }\n        Ok(())")],
    USE + "#[derive(EnumSetType, Debug)] " + many(70) + "\nimpl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"x\") } }\nfn main() { assert_eq!(EnumSet::<E>::all().to_string(), vec![\"x\"; 70].join(\" | \")); }\n",
    "Display of a set of more than 64 members", "another separator")

bug("C04-rev-nth", "C04",
    [(SET, "    fn next_back(&mut self) -> Option<Self::Item> {\n        self.iter\n            .next_back()\n            .map(|x| unsafe { T::enum_from_u32(x) })\n    }", "    fn next_back(&mut self) -> Option<Self::Item> {\n        self.iter\n            .next_back()\n            .map(|x| unsafe { T::enum_from_u32(x) })\n    }\n    fn nth_back(&mut self, n: usize) -> Option<Self::Item> {\n        // one check instead of n\n        if n > self.len() {\n            return None;\n        }\n        for _ in 0..n {\n            self.iter.next_back();\n        }\n        self.next_back()\n    }")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B }
fn main() { let mut i = (E::A | E::B).iter(); assert_eq!(i.nth_back(5), None); assert_eq!(i.next(), None); }
""", "nth_back beyond the end, and then going on", "the iterator is not used up")

bug("C13-array-page", "C13",
    [(DER, "            while idx >= vec.len() {\n                vec.push(0);\n            }\n            vec[idx] |= 1u64 << bit;", "            if idx >= vec.len() {\n                vec.resize(idx + 1, 0);\n            } else if idx + 1024 == vec.len() {\n                // the page before is complete\n                continue;\n            }\n            vec[idx] |= 1u64 << bit;")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { Z = 65599, A = 65, B = 0 }
fn main() { assert_eq!(EnumSet::<E>::all().len(), 3); let _ = (E::Z, E::A, E::B); }
""", "variants declared in falling order, 1023 words apart", "all() lacks a variant")

bug("C12-xor-same-first", "C12",
    [(MAC, "    ($value:path, $($rest:path),* $(,)?) => {\n        {\n            #[allow(deprecated)] let helper = $value.__impl_enumset_internal__const_helper();\n            #[allow(deprecated)] let value = $value.__impl_enumset_internal__const_only();\n            $(#[allow(deprecated)] let value = {\n                let new = $rest.__impl_enumset_internal__const_only();\n                helper.const_intersection(value, new)",
      "    ($value:path, $($rest:path),* $(,)?) => {\n        {\n            #[allow(deprecated)] let helper = $value.__impl_enumset_internal__const_helper();\n            #[allow(deprecated)] let first = $value.__impl_enumset_internal__const_only();\n            let value = first;\n            $(#[allow(deprecated)] let value = {\n                let new = $rest.__impl_enumset_internal__const_only();\n                helper.const_union(helper.const_intersection(value, new), helper.const_intersection(helper.const_symmetric_difference(first, value), new))")],
    USE + r"""#[derive(EnumSetType, Debug)] enum E { A, B, C }
const X: EnumSet<E> = enum_set!(E::A | E::B); const Y: EnumSet<E> = enum_set!(E::B | E::C); const Z: EnumSet<E> = enum_set!(E::A | E::B);
const S: EnumSet<E> = enum_set_intersection!(X, Y, Z);
fn main() { assert_eq!(S, E::B); }
""", "an intersection of three or more in a macro", "members come back")
