//! What the monitors know about an enum, from its definition rather than from enumset.
use crate::rng::*;
use enumset::{EnumSet, EnumSetType};
use std::fmt::{Debug, Display};

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Op {
    Or,
    And,
    Sub,
    Xor,
}
pub const OPS: [Op; 4] = [Op::Or, Op::And, Op::Sub, Op::Xor];
impl Op {
    pub fn on(self, a: bool, b: bool) -> bool {
        match self {
            Op::Or => a || b,
            Op::And => a && b,
            Op::Sub => a && !b,
            Op::Xor => a != b,
        }
    }
    pub fn model(self, a: &Model, b: &Model) -> Model {
        a.iter().zip(b).map(|(x, y)| self.on(*x, *y)).collect()
    }
}

/// A set as the monitors see it: membership by rank (position in ascending discriminant order).
pub type Model = Vec<bool>;

#[cfg(feature = "serde")]
pub trait MaybeSerde: serde::Serialize + for<'a> serde::Deserialize<'a> {}
#[cfg(feature = "serde")]
impl<T: serde::Serialize + for<'a> serde::Deserialize<'a>> MaybeSerde for T {}
#[cfg(not(feature = "serde"))]
pub trait MaybeSerde {}
#[cfg(not(feature = "serde"))]
impl<T> MaybeSerde for T {}

/// The explicit-repr interface, or the lack of it.
pub struct ReprFns<E: EnumSetType> {
    pub bits: u32,
    pub as_repr: fn(&EnumSet<E>) -> u128,
    pub from_repr: fn(u128) -> EnumSet<E>,
    pub try_from_repr: fn(u128) -> Option<EnumSet<E>>,
    pub from_repr_truncated: fn(u128) -> EnumSet<E>,
    pub from_repr_unchecked: unsafe fn(u128) -> EnumSet<E>,
}

pub trait Zoo: EnumSetType + Ord + Debug + Display + Send + Sync + 'static {
    const NAME: &'static str;
    const SRC: &'static str;
    const WORDS: usize;
    const WIDTH: u32;
    const SIZE: usize;
    const SER: &'static str;
    const DENY: bool;
    const OPS: bool;
    fn decl() -> &'static [(Self, u32, &'static str)];
    fn op_ee(op: Op, a: Self, b: Self) -> EnumSet<Self>;
    fn op_es(op: Op, a: Self, b: EnumSet<Self>) -> EnumSet<Self>;
    fn not_e(a: Self) -> EnumSet<Self>;
    fn eq_es(a: Self, b: EnumSet<Self>) -> bool;
    fn repr() -> Option<ReprFns<Self>>;
    /// The name of the variant, by a match.
    fn name_of(e: Self) -> Option<&'static str>;
}

pub trait Visitor: Sync {
    fn visit<E: Zoo>(&self, name: &'static str) -> crate::ctx::Job<'_>;
}

/// The raw bytes of a variant, so that even an invalid value is seen for what it is.
pub fn raw<E: Copy>(e: E) -> u128 {
    let n = core::mem::size_of::<E>();
    let mut b = [0u8; 16];
    let e = std::hint::black_box(e);
    let at = if cfg!(target_endian = "big") { 16 - n.min(16) } else { 0 };
    unsafe { core::ptr::copy_nonoverlapping(&e as *const E as *const u8, b.as_mut_ptr().add(at), n.min(16)) };
    u128::from_ne_bytes(b)
}

/// `to_vec`, or what stands in for it without the `alloc` feature.
pub fn vec_of<E: Zoo>(s: &EnumSet<E>) -> Vec<u64> {
    #[cfg(feature = "alloc")]
    { s.to_vec() }
    #[cfg(not(feature = "alloc"))]
    {
        let mut v = vec![0; EnumSet::<E>::bit_width() as usize / 64 + 2];
        s.copy_into_slice(&mut v);
        v
    }
}

/// Lookup tables of an enum, in ascending discriminant order.
pub struct Tab<E> {
    pub vars: Vec<E>,
    pub discs: Vec<u32>,
    pub names: Vec<&'static str>,
    /// raw value of a variant => rank
    raws: Vec<u32>,
    pub n: usize,
    /// max discriminant + 1
    pub width: u32,
}
impl<E: Zoo> Tab<E> {
    pub fn new() -> Tab<E> {
        let mut d: Vec<(E, u32, &'static str)> = E::decl().to_vec();
        d.sort_by_key(|x| x.1);
        Tab {
            raws: {
                let mut v = vec![];
                for (i, x) in d.iter().enumerate() {
                    let k = raw(x.0) as usize;
                    if v.len() <= k { v.resize(k + 1, u32::MAX); }
                    v[k] = i as u32;
                }
                v
            },
            n: d.len(),
            vars: d.iter().map(|x| x.0).collect(),
            discs: d.iter().map(|x| x.1).collect(),
            names: d.iter().map(|x| x.2).collect(),
            width: d.last().map_or(0, |x| x.1 + 1),
        }
    }
    /// The rank of a variant value; None if it is not a declared variant at all.
    #[inline]
    pub fn rank(&self, e: E) -> Option<usize> {
        let k = raw(e);
        if k >= self.raws.len() as u128 { return None; }
        match self.raws[k as usize] { u32::MAX => None, i => Some(i as usize) }
    }
    pub fn show(&self, m: &[bool]) -> String {
        let v: Vec<String> = (0..self.n).filter(|i| m[*i]).map(|i| format!("{}={}", self.names[i], self.discs[i])).collect();
        if v.len() > 48 {
            format!("{{{}, .. {} members}}", v[..48].join(", "), v.len())
        } else {
            format!("{{{}}}", v.join(", "))
        }
    }
    pub fn show_ranks(&self, r: &[Option<usize>]) -> String {
        let v: Vec<String> = r.iter().take(80).map(|x| match x {
            Some(i) => self.names[*i].to_string(),
            None => "<not a variant>".into(),
        }).collect();
        format!("[{}]", v.join(", "))
    }
    /// The set with the given members, built by inserting them one by one.
    pub fn build(&self, m: &[bool]) -> EnumSet<E> {
        let mut s = EnumSet::new();
        for i in 0..self.n {
            if m[i] {
                s.insert(self.vars[i]);
            }
        }
        s
    }
    /// Membership as reported by `contains`.
    pub fn read(&self, s: &EnumSet<E>) -> Model {
        self.vars.iter().map(|v| s.contains(*v)).collect()
    }
    /// The array form expected of a set (as many words as the enum needs, at least `len`).
    pub fn words(&self, m: &[bool], len: usize) -> Vec<u64> {
        let mut w = vec![0u64; len];
        for i in 0..self.n {
            if m[i] {
                let d = self.discs[i] as usize;
                if d / 64 < len {
                    w[d / 64] += 1u64 << (d % 64);
                }
            }
        }
        w
    }
    /// The numeric form, limited to 128 bits; whether something did not fit.
    pub fn num(&self, m: &[bool], bits: u32) -> (u128, bool) {
        let (mut v, mut over) = (0u128, false);
        for i in 0..self.n {
            if m[i] {
                if self.discs[i] < bits {
                    v += 1u128 << self.discs[i];
                } else {
                    over = true;
                }
            }
        }
        (v, over)
    }
    /// The members a number denotes and whether it has bits of no variant.
    pub fn of_num(&self, v: u128) -> (Model, bool) {
        let mut rest = v;
        let m = (0..self.n).map(|i| {
            let d = self.discs[i];
            let b = d < 128 && v >> d & 1 == 1;
            if b {
                rest &= !(1u128 << d);
            }
            b
        }).collect();
        (m, rest != 0)
    }
    /// All words of a set and some more.
    pub fn raw_words(&self, s: &EnumSet<E>) -> Vec<u64> {
        if self.width <= 17 * 64 { return s.as_array_truncated::<20>().to_vec(); }
        let mut w = vec![0; self.width as usize / 64 + 4];
        s.copy_into_slice_truncated(&mut w);
        w
    }
    pub fn of_words(&self, w: &[u64]) -> (Model, bool) {
        let mut rest = w.to_vec();
        let m = (0..self.n).map(|i| {
            let (k, b) = (self.discs[i] as usize / 64, self.discs[i] % 64);
            let on = k < w.len() && w[k] >> b & 1 == 1;
            if on {
                rest[k] &= !(1u64 << b);
            }
            on
        }).collect();
        (m, rest.iter().any(|x| *x != 0))
    }
    pub fn hash_model(&self, m: &[bool]) -> u64 {
        let mut h = 0x1234u64;
        for c in m.chunks(64) {
            let mut w = 0;
            for (i, b) in c.iter().enumerate() {
                w |= (*b as u64) << i;
            }
            h = mix(h, w);
        }
        h
    }
    /// A random subset, biased to the shapes that matter to a bit set.
    pub fn random(&self, r: &mut Rng) -> Model {
        let n = self.n;
        if n == 0 {
            return vec![];
        }
        let mut m = vec![false; n];
        match r.below(16) {
            0 => {}
            1 => m = vec![true; n],
            2 => m[r.below(n)] = true,
            3 => {
                m = vec![true; n];
                m[r.below(n)] = false;
            }
            4 => {
                let (a, b) = (r.below(n), r.below(n));
                for x in &mut m[a.min(b)..=a.max(b)] {
                    *x = true;
                }
            }
            5 => {
                // whole words
                let mask = r.u64();
                for i in 0..n {
                    m[i] = mask >> (self.discs[i] / 64 % 64) & 1 == 1;
                }
            }
            6 => {
                // one word only
                let w = self.discs[r.below(n)] / 64;
                for i in 0..n {
                    m[i] = self.discs[i] / 64 == w && r.chance(2, 3);
                }
            }
            7 => {
                // ends of words and of the enum
                for i in 0..n {
                    let b = self.discs[i] % 64;
                    m[i] = (b == 0 || b == 63 || i == 0 || i + 1 == n) && r.chance(2, 3);
                }
            }
            8 => {
                for _ in 0..r.range(1, 3) {
                    m[r.below(n)] = true;
                }
            }
            9 => {
                for i in 0..n {
                    m[i] = r.chance(9, 10);
                }
            }
            10 => {
                // only the lowest/highest members
                let k = r.range(1, n.min(4));
                let hi = r.bool();
                for i in 0..k {
                    m[if hi { n - 1 - i } else { i }] = true;
                }
            }
            12 => {
                // the same pattern in every byte, half word or word
                let k = *r.pick(&[8u32, 16, 32, 64]);
                let p = r.u64() & if r.bool() { r.u64() } else { !0 };
                for i in 0..n {
                    m[i] = p >> (self.discs[i] % k) & 1 == 1;
                }
            }
            13 => {
                // a run from the bottom of one word to the top of another, in numbers rather than in variants
                let (a, b) = (self.discs[r.below(n)], self.discs[r.below(n)]);
                for i in 0..n {
                    m[i] = self.discs[i] >= a.min(b) && self.discs[i] <= a.max(b) && (self.discs[i] / 64 - a.min(b) / 64) % 2 == 0;
                }
            }
            11 => {
                // all words but one
                let w = self.discs[r.below(n)] / 64;
                for i in 0..n {
                    m[i] = self.discs[i] / 64 != w;
                }
            }
            _ => {
                let d = r.range(1, 7);
                for i in 0..n {
                    m[i] = r.chance(d, 8);
                }
            }
        }
        m
    }
    /// A second set in an interesting relation to `m`.
    pub fn related(&self, m: &[bool], r: &mut Rng) -> Model {
        let n = self.n;
        let mut o = m.to_vec();
        if n == 0 {
            return o;
        }
        match r.below(9) {
            0 => {}
            1 => o.iter_mut().for_each(|x| *x = !*x),
            2 => {
                let i = r.below(n);
                o[i] = !o[i];
            }
            3 => o.iter_mut().for_each(|x| *x = *x && r.chance(2, 3)),
            4 => o.iter_mut().for_each(|x| *x = *x || r.chance(1, 3)),
            5 => o.iter_mut().for_each(|x| *x = !*x && r.chance(2, 3)),
            6 => {
                // same but for one word
                let w = self.discs[r.below(n)] / 64;
                for i in 0..n {
                    if self.discs[i] / 64 == w {
                        o[i] = r.bool();
                    }
                }
            }
            7 => {
                // swap two members
                let (i, j) = (r.below(n), r.below(n));
                o.swap(i, j);
            }
            _ => o = self.random(r),
        }
        o
    }
    /// A member index, biased to the edges of words.
    pub fn rank_biased(&self, r: &mut Rng) -> usize {
        if r.chance(1, 3) {
            for _ in 0..8 {
                let i = r.below(self.n);
                if matches!(self.discs[i] % 64, 0 | 63) || i == 0 || i + 1 == self.n {
                    return i;
                }
            }
        }
        r.below(self.n)
    }
    /// Every model when there are few, otherwise None.
    pub fn all_models(&self, limit: u32) -> Option<Vec<Model>> {
        if self.n as u32 > limit {
            return None;
        }
        Some((0u64..1 << self.n).map(|v| (0..self.n).map(|i| v >> i & 1 == 1).collect()).collect())
    }
}

/// The memory of a set, byte by byte.
pub fn bytes_of<T: Copy>(t: &T) -> Vec<u8> {
    let n = core::mem::size_of::<T>();
    let mut v = vec![0u8; n];
    unsafe { core::ptr::copy_nonoverlapping(t as *const T as *const u8, v.as_mut_ptr(), n) };
    v
}

#[macro_export]
macro_rules! zoo_impl {
    ($name:ident, $ops:ident, $ord:ident, src = $src:expr, words = $w:expr, width = $width:expr, size = $size:expr,
     ser = $ser:expr, deny = $deny:expr, vars = [$($v:ident = $d:expr),*]) => {
        impl ::core::fmt::Debug for $name {
            #[allow(unreachable_code)]
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                $crate::member_fmt(f, "D", match *self { $( $name::$v => (stringify!($v), $d), )* })
            }
        }
        impl ::core::fmt::Display for $name {
            #[allow(unreachable_code)]
            fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {
                $crate::member_fmt(f, "P", match *self { $( $name::$v => (stringify!($v), $d), )* })
            }
        }
        $crate::zoo_ord!($ord, $name);
        impl $crate::Zoo for $name {
            const NAME: &'static str = stringify!($name);
            const SRC: &'static str = $src;
            const WORDS: usize = $w;
            const WIDTH: u32 = $width;
            const SIZE: usize = $size;
            const SER: &'static str = $ser;
            const DENY: bool = $deny;
            $crate::zoo_ops!($ops);
            fn decl() -> &'static [(Self, u32, &'static str)] {
                &[$( ($name::$v, $d, stringify!($v)), )*]
            }
            fn repr() -> Option<$crate::ReprFns<Self>> { $name::__zoo_repr() }
            #[allow(unreachable_code, unreachable_patterns)]
            fn name_of(e: Self) -> Option<&'static str> {
                match e { $( $name::$v => Some(stringify!($v)), )* #[allow(unreachable_patterns)] _ => None }
            }
        }
    };
}
/// An order of the variants that has nothing to do with their discriminants.
#[macro_export]
macro_rules! zoo_ord {
    (derived, $name:ident) => {};
    (own, $name:ident) => {
        impl ::core::cmp::PartialOrd for $name {
            fn partial_cmp(&self, other: &Self) -> Option<::core::cmp::Ordering> { Some(::core::cmp::Ord::cmp(self, other)) }
        }
        impl ::core::cmp::Ord for $name {
            fn cmp(&self, other: &Self) -> ::core::cmp::Ordering {
                let key = |e: &$name| { let r = $crate::raw(*e) as u64; ($crate::mix(r % 3, 5), ::core::cmp::Reverse(r)) };
                key(self).cmp(&key(other))
            }
        }
    };
}
#[macro_export]
macro_rules! zoo_ops {
    (ops) => {
        const OPS: bool = true;
        fn op_ee(op: $crate::Op, a: Self, b: Self) -> enumset::EnumSet<Self> {
            match op { $crate::Op::Or => a | b, $crate::Op::And => a & b, $crate::Op::Sub => a - b, $crate::Op::Xor => a ^ b }
        }
        fn op_es(op: $crate::Op, a: Self, b: enumset::EnumSet<Self>) -> enumset::EnumSet<Self> {
            match op { $crate::Op::Or => a | b, $crate::Op::And => a & b, $crate::Op::Sub => a - b, $crate::Op::Xor => a ^ b }
        }
        fn not_e(a: Self) -> enumset::EnumSet<Self> { !a }
        fn eq_es(a: Self, b: enumset::EnumSet<Self>) -> bool { a == b }
    };
    (no_ops) => {
        const OPS: bool = false;
        fn op_ee(_: $crate::Op, _: Self, _: Self) -> enumset::EnumSet<Self> { unreachable!() }
        fn op_es(_: $crate::Op, _: Self, _: enumset::EnumSet<Self>) -> enumset::EnumSet<Self> { unreachable!() }
        fn not_e(_: Self) -> enumset::EnumSet<Self> { unreachable!() }
        fn eq_es(_: Self, _: enumset::EnumSet<Self>) -> bool { unreachable!() }
    };
}
#[macro_export]
macro_rules! zoo_repr {
    ($name:ident, $r:ident) => {
        impl $name {
            fn __zoo_repr() -> Option<$crate::ReprFns<Self>> {
                Some($crate::ReprFns {
                    bits: <$r>::BITS,
                    as_repr: |s| { let v: $r = s.as_repr(); v as u128 },
                    from_repr: |v| enumset::EnumSet::from_repr(v as $r),
                    try_from_repr: |v| enumset::EnumSet::try_from_repr(v as $r),
                    from_repr_truncated: |v| enumset::EnumSet::from_repr_truncated(v as $r),
                    from_repr_unchecked: { unsafe fn f(v: u128) -> enumset::EnumSet<$name> { enumset::EnumSet::from_repr_unchecked(v as $r) } f },
                })
            }
        }
    };
}
#[macro_export]
macro_rules! zoo_norepr {
    ($name:ident) => {
        impl $name {
            fn __zoo_repr() -> Option<$crate::ReprFns<Self>> { None }
        }
    };
}
/// Includes the generated enums as module `zoo` of the program.
#[macro_export]
macro_rules! include_zoo {
    () => {
        #[allow(dead_code, non_camel_case_types, unused)]
        pub mod zoo {
            use enumset::*;
            use $crate::*;
            include!(concat!(env!("VERIF_ZOO"), "/zoo.rs"));
        }
    };
}

/// How the members of the zoo render themselves: honours every formatter flag and shows which
/// ones it was given, so that flags lost or added on the way are visible.
pub fn member_fmt(f: &mut std::fmt::Formatter<'_>, kind: &str, v: (&str, u32)) -> std::fmt::Result {
    if let Some(n) = FMT_FAIL.with(|c| c.get()) {
        if n == v.1 {
            return Err(std::fmt::Error);
        }
    }
    let mut s = format!("{}{}", kind, v.0);
    if f.alternate() { s.push_str("#a"); }
    if f.sign_plus() { s.push_str("#p"); }
    if f.sign_minus() { s.push_str("#m"); }
    if f.sign_aware_zero_pad() { s.push_str("#z"); }
    if let Some(w) = f.width() { s.push_str(&format!("#w{}", w)); }
    if let Some(p) = f.precision() { s.push_str(&format!("#.{}", p)); }
    if let Some(a) = f.align() { s.push_str(&format!("#{:?}", a)); }
    s.push_str(&format!("#{:?}", f.fill()));
    // `{:x?}` is only visible through an integer
    match v.1 % 3 {
        0 => { use std::fmt::Write; f.write_str(&s)?; f.write_char('~')?; std::fmt::Debug::fmt(&v.1, f) }
        1 => f.pad(&s),
        _ => f.write_str(&s),
    }
}
thread_local! { pub static FMT_FAIL: std::cell::Cell<Option<u32>> = const { std::cell::Cell::new(None) }; }

/// `main` of a program that runs one monitor over every enum.
#[macro_export]
macro_rules! monitor_main {
    ($prop:expr, $f:ident) => {
        struct M;
        impl $crate::Visitor for M {
            fn visit<E: $crate::Zoo>(&self, name: &'static str) -> $crate::Job<'_> {
                $crate::Job { name: name.into(), src: E::SRC.into(), run: Box::new(|c| $f::<E>(c)) }
            }
        }
        fn main() {
            $crate::run_jobs($prop, zoo::visit_all(&M));
        }
    };
}
