//! C08: the representation of a set with an explicit integer repr, as memory and foreign code see it.
#![deny(improper_ctypes, improper_ctypes_definitions)]
use enumset::*;
use std::ffi::c_void;
use std::mem::{align_of, size_of, MaybeUninit};
use vh::*;
include_zoo!();
#[allow(dead_code)]
mod ffi {
    use super::*;
    include!(concat!(env!("VERIF_ZOO"), "/ffi.rs"));
}

#[derive(Copy, Clone, Debug)]
#[repr(C)]
struct Rec<S> { a: u8, s: S, b: u16, t: S, c: u8 }
#[derive(Copy, Clone, Debug)]
#[repr(C)]
struct Pair<S> { s: S, k: u8 }

/// Must match ffi.c; S is the set type or the integer.
#[repr(C)]
struct Table<S> {
    id: extern "C" fn(S) -> S,
    not: extern "C" fn(S) -> S,
    bin: extern "C" fn(i32, S, S) -> S,
    has: extern "C" fn(S, u32) -> i32,
    upd: unsafe extern "C" fn(*mut S, S, S),
    nth: unsafe extern "C" fn(*const S, usize, usize) -> S,
    fill: unsafe extern "C" fn(*mut S, usize, S),
    many: extern "C" fn(S, u8, S, f64, S, u64, S, f32, S, S, u16, S, S, S) -> S,
    turn: extern "C" fn(Rec<S>) -> Rec<S>,
    flip: extern "C" fn(Pair<S>) -> Pair<S>,
    place: unsafe extern "C" fn(*const Rec<S>) -> u32,
    call: extern "C" fn(extern "C" fn(S, *mut c_void) -> S, S, *mut c_void) -> S,
    dims: extern "C" fn() -> u32,
    sum: unsafe extern "C" fn(S, *mut u64) -> u64,
}

#[cfg(not(miri))]
mod native {
    #[repr(C)]
    pub struct Raw([*const std::ffi::c_void; 14]);
    unsafe impl Sync for Raw {}
    #[link(name = "vhffi", kind = "static")]
    extern "C" {
        pub static vh_table_u8: Raw;
        pub static vh_table_u16: Raw;
        pub static vh_table_u32: Raw;
        pub static vh_table_u64: Raw;
        pub static vh_table_u128: Raw;
    }
    pub fn table(bits: u32) -> *const std::ffi::c_void {
        let p: *const Raw = match bits {
            8 => &raw const vh_table_u8, 16 => &raw const vh_table_u16, 32 => &raw const vh_table_u32,
            64 => &raw const vh_table_u64, _ => &raw const vh_table_u128,
        };
        p as *const _
    }
}
/// Under the interpreter the other side is Rust code over the integer: calling it with sets is
/// only accepted there if the two types have the same calling convention.
#[cfg(miri)]
mod native {
    use super::*;
    macro_rules! side {
        ($m:ident $T:ident) => {
            mod $m {
                use super::*;
                type T = $T;
                extern "C" fn id(x: T) -> T { x }
                extern "C" fn not(x: T) -> T { !x }
                extern "C" fn bin(op: i32, x: T, y: T) -> T { match op { 0 => x | y, 1 => x & y, 2 => x & !y, _ => x ^ y } }
                extern "C" fn has(x: T, d: u32) -> i32 { (x >> d & 1) as i32 }
                unsafe extern "C" fn upd(p: *mut T, add: T, del: T) { *p = (*p | add) & !del }
                unsafe extern "C" fn nth(a: *const T, n: usize, i: usize) -> T { if i < n { *a.add(i) } else { 0 } }
                unsafe extern "C" fn fill(a: *mut T, n: usize, v: T) { for i in 0..n { a.add(i).write(if i & 1 == 1 { !v } else { v }) } }
                extern "C" fn many(a: T, p: u8, b: T, _: f64, c: T, q: u64, e: T, _: f32, g: T, h: T, r: u16, i: T, j: T, k: T) -> T {
                    [a, b, c, e, g, h, i, j, k][(p as usize + q as usize + r as usize) % 9]
                }
                extern "C" fn turn(x: Rec<T>) -> Rec<T> { Rec { a: x.c, s: x.t, b: !x.b, t: x.s, c: x.a } }
                extern "C" fn flip(x: Pair<T>) -> Pair<T> { Pair { s: !x.s, k: x.k.wrapping_add(1) } }
                unsafe extern "C" fn place(_: *const Rec<T>) -> u32 {
                    use std::mem::offset_of;
                    (offset_of!(Rec<T>, s) | offset_of!(Rec<T>, b) << 8 | offset_of!(Rec<T>, t) << 16 | size_of::<Rec<T>>() << 24) as u32
                }
                extern "C" fn call(f: extern "C" fn(T, *mut c_void) -> T, x: T, env: *mut c_void) -> T { f(x, env) }
                extern "C" fn dims() -> u32 { (size_of::<T>() | align_of::<T>() << 8) as u32 }
                unsafe extern "C" fn sum(x: T, hi: *mut u64) -> u64 { *hi = (x as u128 >> 64) as u64; x as u64 }
                pub static TABLE: Table<T> = Table { id, not, bin, has, upd, nth, fill, many, turn, flip, place, call, dims, sum };
            }
        };
    }
    side!(s8 u8); side!(s16 u16); side!(s32 u32); side!(s64 u64); side!(s128 u128);
    pub fn table(bits: u32) -> *const c_void {
        match bits {
            8 => &s8::TABLE as *const _ as *const c_void, 16 => &s16::TABLE as *const _ as *const c_void, 32 => &s32::TABLE as *const _ as *const c_void,
            64 => &s64::TABLE as *const _ as *const c_void, _ => &s128::TABLE as *const _ as *const c_void,
        }
    }
}

pub struct Dims { pub size: usize, pub align: usize, pub size2: usize, pub opt: (usize, usize) }

struct Env<'a, E: Zoo> { seen: Option<Model>, t: &'a Tab<E>, answer: EnumSet<E> }
extern "C" fn callback<E: Zoo>(s: EnumSet<E>, env: *mut c_void) -> EnumSet<E> {
    let env = unsafe { &mut *(env as *mut Env<E>) };
    env.seen = Some(env.t.read(&s));
    env.answer
}

/// What the constants of the program say (generated next to the enum).
pub struct Consts<E: Zoo> { pub all: u128, pub empty: u128, pub each: &'static [(E, u128)], pub bits: u32, pub align: usize }

pub fn run_ffi<E: Zoo>(c: &Ctx, k: Consts<E>) {
    let t = &Tab::<E>::new();
    let f = match E::repr() { Some(f) => f, None => return };
    let bits = k.bits;
    let full: u128 = if bits == 128 { !0 } else { (1 << bits) - 1 };
    let valid = t.num(&vec![true; t.n], 128).0;
    // compile-time values
    c.doing("constants");
    c.check(k.all == valid && k.empty == 0 && k.each.iter().all(|(e, v)| *v == 1u128 << t.discs[t.rank(*e).unwrap()]), "as_repr() in a constant is wrong",
            || format!("all {:#x} (expected {:#x}), empty {:#x}, each {:x?}", k.all, valid, k.empty, k.each.iter().map(|x| x.1).collect::<Vec<_>>()));
    // size and alignment
    c.check(size_of::<EnumSet<E>>() == bits as usize / 8 && align_of::<EnumSet<E>>() == k.align, "the set has not the size and alignment of its repr",
            || format!("size {} align {} for u{}", size_of::<EnumSet<E>>(), align_of::<EnumSet<E>>(), bits));
    if size_of::<EnumSet<E>>() != bits as usize / 8 { return; }
    let tab = unsafe { &*(native::table(bits) as *const Table<EnumSet<E>>) };
    let d = (tab.dims)();
    c.check(d == (size_of::<EnumSet<E>>() | align_of::<EnumSet<E>>() << 8) as u32, "the set has not the size and alignment of the C integer", || format!("{:#x}", d));
    let rec = MaybeUninit::<Rec<EnumSet<E>>>::zeroed();
    let p = unsafe { (tab.place)(rec.as_ptr()) };
    let own = { use std::mem::offset_of; type R<E> = Rec<EnumSet<E>>; (offset_of!(R<E>, s) | offset_of!(R<E>, b) << 8 | offset_of!(R<E>, t) << 16 | size_of::<R<E>>() << 24) as u32 };
    c.check(p == own, "a struct with sets is laid out differently than in C", || format!("{:#x} {:#x}", own, p));

    let mut sets: Vec<Model> = vec![vec![false; t.n], vec![true; t.n]];
    for i in 0..t.n {
        if cfg!(miri) && i > 1 && i + 2 < t.n { continue; }
        sets.push((0..t.n).map(|j| j == i).collect());
        sets.push((0..t.n).map(|j| j != i).collect());
    }
    let rounds = if cfg!(miri) { 2 } else { c.scale * 60 };
    for i in 0..rounds { sets.push(t.random(&mut c.rng(i as u64))); }
    for (i, m) in sets.iter().enumerate() {
        one(c, t, &f, tab, m, &mut c.rng(1 << 33 | i as u64), bits, full, valid);
        if c.stop() { return; }
    }
    // integers
    let mut ints = vec![0, full, valid, full & !valid];
    for b in 0..bits {
        if cfg!(miri) && b % 8 != 0 && b % 8 != 7 { continue; }
        ints.extend([1 << b, valid | 1 << b, valid & !(1 << b)]);
    }
    for i in 0..rounds * 2 {
        let r = &mut c.rng(1 << 34 | i as u64);
        ints.push(full & match r.below(6) { 4 => { let x = r.u128() & valid; r.knit(x) } 5 => r.knit(valid), 0 => r.u128(), 1 => r.u128() & valid, 2 => (r.u128() & valid) | 1 << r.below(bits as usize), _ => r.u128() & r.u128() & r.u128() });
    }
    if bits == 8 { ints = (0..256).collect(); }
    if bits == 16 && c.scale > 8 && !cfg!(miri) { ints = (0..65536).collect(); }
    for v in ints {
        int(c, t, &f, v);
        if c.stop() { return; }
    }
}

#[allow(clippy::too_many_arguments)]
fn one<E: Zoo>(c: &Ctx, t: &Tab<E>, f: &ReprFns<E>, tab: &Table<EnumSet<E>>, m: &Model, r: &mut Rng, bits: u32, full: u128, valid: u128) {
    let s = t.build(m);
    let (v, _) = t.num(m, 128);
    let o = t.related(m, r);
    let so = t.build(&o);
    let vo = t.num(&o, 128).0;
    c.doing("memory");
    let got = (f.as_repr)(&s);
    c.check(got == v, "as_repr() is wrong", || format!("{:#x} instead of {:#x} for {}", got, v, t.show(m)));
    let n = bits as usize / 8;
    let want: Vec<u8> = if cfg!(target_endian = "little") { v.to_le_bytes()[..n].to_vec() } else { v.to_be_bytes()[16 - n..].to_vec() };
    c.check(bytes_of(&s) == want, "the memory of the set is not that of its repr", || format!("{:x?} instead of {:x?} for {}", bytes_of(&s), want, t.show(m)));
    // and the other way: memory of the integer read as a set
    let back = unsafe { std::ptr::read_unaligned(want.as_ptr() as *const EnumSet<E>) };
    agree(c, t, &back, m, "the memory of the integer is not that set", || format!("{:x?}", want));

    c.doing("foreign functions by value");
    let ok = |what: &str, got: EnumSet<E>, want: &Model| { agree(c, t, &got, want, "a set does not survive a foreign call", || format!("{} with {} and {}", what, t.show(m), t.show(&o))); };
    let mut hi = 0;
    let lo = unsafe { (tab.sum)(s, &mut hi) };
    c.check((lo as u128 | (hi as u128) << 64) == v, "foreign code receives another integer", || format!("{:#x}{:016x} instead of {:#x}", hi, lo, v));
    ok("identity", (tab.id)(s), m);
    for (i, op) in OPS.iter().enumerate() {
        ok("arithmetic", (tab.bin)(i as i32, s, so), &op.model(m, &o));
    }
    for i in 0..t.n {
        c.check(((tab.has)(s, t.discs[i]) != 0) == m[i], "foreign code sees other members", || format!("bit {} of {}", t.discs[i], t.show(m)));
    }
    // the complement in C has undeclared bits unless every bit is declared
    if valid == full { ok("complement", (tab.not)(s), &m.iter().map(|x| !x).collect()); }
    c.doing("many arguments");
    let all: Vec<Model> = (0..9).map(|_| t.random(r)).collect();
    let x: Vec<EnumSet<E>> = all.iter().map(|m| t.build(m)).collect();
    let (p, q, w) = (r.below(100) as u8, r.below(1000) as u64, r.below(100) as u16);
    let got = (tab.many)(x[0], p, x[1], 1.5, x[2], q, x[3], 2.5, x[4], x[5], w, x[6], x[7], x[8]);
    ok("many arguments", got, &all[(p as usize + q as usize + w as usize) % 9]);
    c.doing("callbacks");
    let mut env = Env { seen: None, t, answer: so };
    let got = (tab.call)(callback::<E>, s, &mut env as *mut Env<E> as *mut c_void);
    ok("the result of a callback", got, &o);
    c.check(env.seen.as_ref() == Some(m), "a callback receives another set", || format!("{:?} instead of {}", env.seen.map(|x| t.show(&x)), t.show(m)));
    // (structs that only contain compatible types are not interchangeable for the interpreter)
    c.doing("structs");
    if !cfg!(miri) {
    let y = (tab.turn)(Rec { a: p, s, b: w, t: so, c: q as u8 });
    ok("a struct field", y.t, m);
    ok("a struct field", y.s, &o);
    c.check(y.a == q as u8 && y.b == !w && y.c == p, "a set in a struct disturbs its neighbours", || format!("{:?}", (y.a, y.b, y.c)));
    }
    if valid == full && !cfg!(miri) {
        let y = (tab.flip)(Pair { s, k: p });
        ok("a small struct", y.s, &m.iter().map(|x| !x).collect());
        c.check(y.k == p.wrapping_add(1), "a set in a struct disturbs its neighbours", || format!("{}", y.k));
    }
    c.doing("pointers");
    let mut buf = [so, s, so];
    unsafe { (tab.upd)(&mut buf[1], so, t.build(&vec![false; t.n])) };
    ok("an update through a pointer", buf[1], &Op::Or.model(m, &o));
    unsafe { (tab.upd)(&mut buf[1], EnumSet::new(), so) };
    ok("an update through a pointer", buf[1], &Op::Sub.model(m, &o));
    ok("its neighbour", buf[0], &o);
    ok("its neighbour", buf[2], &o);
    let arr: Vec<EnumSet<E>> = x.clone();
    let i = r.below(9);
    ok("an array element", unsafe { (tab.nth)(arr.as_ptr(), 9, i) }, &all[i]);
    let mut dst: Vec<MaybeUninit<EnumSet<E>>> = (0..5).map(|_| MaybeUninit::uninit()).collect();
    unsafe { (tab.fill)(dst.as_mut_ptr() as *mut EnumSet<E>, 5, s) };
    for i in [0, 2, 4] { ok("an array written by foreign code", unsafe { dst[i].assume_init() }, m); }
    c.check((f.as_repr)(&so) == vo, "a foreign call changed another set", || t.show(&o));
    agree(c, t, &s, m, "a foreign call changed its argument", String::new);
    c.count("foreign_calls", 12 + t.n as u64);
    let h = t.hash_model(m);
    c.case(mix(h, t.hash_model(&o)), m.iter().any(|x| *x));
    if h % 50 == 0 { c.sample(|| format!("{} is {:x?} in memory", t.show(m), bytes_of(&s))); }
}

fn int<E: Zoo>(c: &Ctx, t: &Tab<E>, f: &ReprFns<E>, v: u128) {
    let (m, bad) = t.of_num(v);
    c.doing("try_from_repr");
    match ((f.try_from_repr)(v), bad) {
        (Some(_), true) => c.fail("try_from_repr accepts an undeclared bit", format!("{:#x}", v)),
        (None, false) => c.fail("try_from_repr refuses declared bits", format!("{:#x}", v)),
        (Some(s), false) => {
            agree(c, t, &s, &m, "try_from_repr is wrong", || format!("{:#x}", v));
            c.check((f.as_repr)(&s) == v, "an integer does not survive from_repr and as_repr", || format!("{:#x}", v));
        }
        _ => {}
    }
    c.doing("from_repr");
    if !cfg!(miri) || !bad {
        match no_panic(|| (f.from_repr)(v)) {
            None => { c.check(bad, "from_repr refuses declared bits", || format!("{:#x}", v)); }
            Some(s) => if c.check(!bad, "from_repr accepts an undeclared bit", || format!("{:#x}", v)) {
                agree(c, t, &s, &m, "from_repr is wrong", || format!("{:#x}", v));
            },
        }
    }
    c.doing("from_repr_truncated");
    let s = (f.from_repr_truncated)(v);
    agree(c, t, &s, &m, "from_repr_truncated is wrong", || format!("{:#x}", v));
    c.check((f.as_repr)(&s) == t.num(&m, 128).0, "from_repr_truncated keeps an undeclared bit", || format!("{:#x} becomes {:#x}", v, (f.as_repr)(&s)));
    if !bad {
        c.doing("from_repr_unchecked");
        let s = unsafe { (f.from_repr_unchecked)(v) };
        agree(c, t, &s, &m, "from_repr_unchecked is wrong", || format!("{:#x}", v));
    }
    c.case(mix(mix(v as u64, (v >> 64) as u64), 77), v != 0);
    if bad { c.count("undeclared_bits_offered", 1); }
}

struct M;
impl Visitor for M {
    fn visit<E: Zoo>(&self, name: &'static str) -> Job<'_> {
        let f = ffi::run_all().into_iter().find(|x| x.0 == name).map(|x| x.1);
        Job { name: name.into(), src: E::SRC.into(), run: Box::new(move |c| if let Some(f) = f { f(c) }) }
    }
}
fn main() {
    run_jobs("C08", zoo::visit_all(&M));
}
