//! C15: a tour of the whole safe interface (and of the unchecked conversions within their
//! contract), to be run where undefined behaviour is seen: under Miri and AddressSanitizer.
//! Its own monitor: every variant handed out is a declared one, and reads the same everywhere.
use enumset::*;
use std::hash::{BuildHasher, Hash, Hasher};
use vh::*;
include_zoo!();

/// A variant handed out: valid bits, and everything that looks at them agrees.
fn variant<E: Zoo>(c: &Ctx, t: &Tab<E>, e: E, how: &str) -> Option<usize> {
    match t.rank(e) {
        None => { c.fail("a value that is not a declared variant was handed out", format!("{}: raw bits {:#x}", how, raw(e))); None }
        Some(i) => {
            // a match on it, a comparison, a use as an index into a set
            if cfg!(miri) {
                // cheaper to interpret
                c.check(matches!(E::name_of(e), Some(n) if n == t.names[i]) && e == t.vars[i], "a variant reads differently by match", || format!("{}: {}", how, t.names[i]));
                c.count("variants_inspected", 1);
                return Some(i);
            }
            let s = format!("{:?}", e);
            c.check(s.starts_with(&format!("D{}", t.names[i])), "a variant reads differently by match", || format!("{}: {} is {}", how, t.names[i], s));
            c.check(e == t.vars[i] && (t.n > 40 || t.vars.iter().filter(|x| **x == e).count() == 1), "a variant compares differently", || how.into());
            c.check(EnumSet::only(e).contains(t.vars[i]), "a variant denotes another member", || how.into());
            c.count("variants_inspected", 1);
            Some(i)
        }
    }
}

fn run<E: Zoo>(c: &Ctx) {
    let t = &Tab::<E>::new();
    let miri = cfg!(miri);
    // every variant through the position->variant conversion
    for i in 0..t.n {
        let s = EnumSet::only(t.vars[i]);
        for e in s { variant(c, t, e, "iteration of a single"); }
        for e in s.iter().rev() { variant(c, t, e, "backward iteration of a single"); }
        c.case(1000 + i as u64, true);
    }
    for (k, e) in EnumSet::<E>::all().into_iter().enumerate() {
        if let Some(i) = variant(c, t, e, "iteration of all()") { c.check(i == k, "iteration is out of order", || t.names[i].into()); }
    }
    let rounds = if miri { (if t.n > 20 { 4 } else { 10 }) * c.scale } else { (if t.n > 100 { 30 } else { 150 }) * c.scale };
    for k in 0..rounds {
        let r = &mut c.rng(k as u64);
        let m = match k { 0 => vec![true; t.n], 1 => vec![false; t.n], _ => t.random(r) };
        session(c, t, r, &m);
        if c.stop() { return; }
    }
}

macro_rules! ints {
    ($c:ident $t:ident $r:ident $s:ident $m:ident; $($ty:ident $as_:ident $try_as:ident $tr:ident $try_from:ident $ft:ident $fu:ident),*) => {{$(
        let v: $ty = ($r.u128() >> $r.below(128)) as $ty;
        if let Some(x) = EnumSet::<E>::$try_from(v) { for e in x { variant($c, $t, e, stringify!($try_from)); } }
        for e in EnumSet::<E>::$ft(v) { variant($c, $t, e, stringify!($ft)); }
        for e in EnumSet::<E>::$ft(!0) { variant($c, $t, e, stringify!($ft)); }
        let w = $s.$tr();
        // declared bits only: within the contract of the unchecked form
        let x = unsafe { EnumSet::<E>::$fu(w) };
        for e in x { variant($c, $t, e, stringify!($fu)); }
        if let Some(w) = $s.$try_as() { $c.check(unsafe { EnumSet::<E>::$fu(w) } == $s && $s.$as_() == w, "an unchecked conversion of declared bits is wrong", || $t.show(&$m)); }
    )*}};
}
fn arrays<E: Zoo, const N: usize>(c: &Ctx, t: &Tab<E>, r: &mut Rng, s: EnumSet<E>) {
    let mut a = [0u64; N];
    for x in a.iter_mut() { *x = r.u64(); }
    if let Some(x) = EnumSet::<E>::try_from_array(a) { for e in x { variant(c, t, e, "try_from_array"); } }
    for e in EnumSet::<E>::from_array_truncated(a).iter().rev() { variant(c, t, e, "from_array_truncated"); }
    let w = s.as_array_truncated::<N>();
    for e in unsafe { EnumSet::<E>::from_array_unchecked(w) } { variant(c, t, e, "from_array_unchecked"); }
    if let Some(w) = s.try_as_array::<N>() { c.check(unsafe { EnumSet::<E>::from_array_unchecked(w) } == s, "an unchecked conversion of declared bits is wrong", || format!("{:x?}", w)); }
}

fn session<E: Zoo>(c: &Ctx, t: &Tab<E>, r: &mut Rng, m: &Model) {
    let s = t.build(m);
    let o = t.related(m, r);
    let so = t.build(&o);
    c.doing("algebra");
    for x in [s | so, s & so, s - so, s ^ so, !s, s.union(so), s.intersection(so), s.difference(so), s.symmetrical_difference(so), s.complement()] {
        for e in x { variant(c, t, e, "algebra"); }
    }
    let mut x = s;
    x |= so; x &= s; x -= so; x ^= so;
    c.check(x.len() <= t.n && (x.is_subset(s | so)), "algebra is inconsistent", || t.show(m));
    if t.n > 0 && E::OPS {
        let e = t.vars[r.below(t.n)];
        for op in OPS { for y in E::op_es(op, e, s) { variant(c, t, y, "algebra with a variant"); } for y in E::op_ee(op, e, e) { variant(c, t, y, "algebra of variants"); } }
        for y in E::not_e(e) { variant(c, t, y, "complement of a variant"); }
        let _ = E::eq_es(e, s);
    }
    c.doing("updates");
    let mut x = s;
    for _ in 0..10 {
        if t.n == 0 { break; }
        let e = t.vars[t.rank_biased(r)];
        match r.below(4) { 0 => { x.insert(e); } 1 => { x.remove(e); } 2 => x.insert_all(so), _ => x.remove_all(EnumSet::only(e)) }
    }
    for e in x { variant(c, t, e, "updates"); }
    x.clear();
    c.check(x.is_empty() && x == EnumSet::new(), "clear() leaves something", || t.show(m));

    c.doing("iterators");
    let mut it = s.iter();
    for _ in 0..2 * t.n.min(40) + 6 {
        let e = match r.below(8) {
            0 | 1 | 2 => it.next(),
            3 | 4 | 5 => it.next_back(),
            6 => it.nth(match r.below(3) { 0 => 0, 1 => r.below(4), _ => usize::MAX }),
            _ => it.nth_back(match r.below(3) { 0 => 0, 1 => r.below(4), _ => usize::MAX - 1 }),
        };
        if let Some(e) = e { variant(c, t, e, "iterator session"); }
        if r.chance(1, 6) { for e in it.clone().take(5) { variant(c, t, e, "cloned iterator"); } let _ = it.len(); }
    }
    for e in s.iter().rev().step_by(2).chain(so.iter().skip(1)) { variant(c, t, e, "adaptors"); }
    for (a, b) in s.iter().zip(so.iter().rev()) { variant(c, t, a, "zip"); variant(c, t, b, "zip"); }
    for e in [s.iter().last(), s.iter().min_by_key(|e| raw(*e)), s.iter().rev().last(), s.iter().fold(None, |_, e| Some(e))].into_iter().flatten() { variant(c, t, e, "adaptors"); }

    c.doing("integers");
    ints!(c t r s m;
        u8 as_u8 try_as_u8 as_u8_truncated try_from_u8 from_u8_truncated from_u8_unchecked,
        u16 as_u16 try_as_u16 as_u16_truncated try_from_u16 from_u16_truncated from_u16_unchecked,
        u32 as_u32 try_as_u32 as_u32_truncated try_from_u32 from_u32_truncated from_u32_unchecked,
        u64 as_u64 try_as_u64 as_u64_truncated try_from_u64 from_u64_truncated from_u64_unchecked,
        u128 as_u128 try_as_u128 as_u128_truncated try_from_u128 from_u128_truncated from_u128_unchecked,
        usize as_usize try_as_usize as_usize_truncated try_from_usize from_usize_truncated from_usize_unchecked);
    c.doing("arrays");
    arrays::<E, 0>(c, t, r, s); arrays::<E, 1>(c, t, r, s); arrays::<E, 2>(c, t, r, s); arrays::<E, 3>(c, t, r, s);
    arrays::<E, 6>(c, t, r, s); arrays::<E, 17>(c, t, r, s);
    c.doing("slices");
    for len in [0, 1, E::WORDS, E::WORDS + 1, r.below(20)] {
        // exactly sized allocations: anything out of bounds is seen
        let mut b: Box<[u64]> = (0..len).map(|_| r.u64()).collect();
        let _ = EnumSet::<E>::try_from_slice(&b);
        for e in EnumSet::<E>::from_slice_truncated(&b) { variant(c, t, e, "from_slice_truncated"); }
        s.copy_into_slice_truncated(&mut b);
        for e in unsafe { EnumSet::<E>::from_slice_unchecked(&b) } { variant(c, t, e, "from_slice_unchecked"); }
        if s.try_copy_into_slice(&mut b).is_some() { c.check(EnumSet::from_slice(&b) == s, "a slice does not round-trip", || t.show(m)); }
    }
    let v = vec_of(&s);
    c.check(unsafe { EnumSet::<E>::from_slice_unchecked(&v) } == s, "to_vec does not round-trip", || t.show(m));
    if let Some(f) = E::repr() {
        c.doing("repr");
        let n = (f.as_repr)(&s);
        c.check(unsafe { (f.from_repr_unchecked)(n) } == s, "from_repr_unchecked is wrong", || t.show(m));
        for e in (f.from_repr_truncated)(r.u128()) { variant(c, t, e, "from_repr_truncated"); }
        for e in (f.from_repr_truncated)(!0) { variant(c, t, e, "from_repr_truncated"); }
        if let Some(x) = (f.try_from_repr)(r.u128()) { for e in x { variant(c, t, e, "try_from_repr"); } }
    }
    c.doing("collections");
    let e: EnumSet<E> = s.iter().chain(so).collect();
    c.check(e == s | so, "collecting is wrong", || t.show(m));
    let mut x = s;
    x.extend(so.iter().rev());
    x.extend([s, so]);
    let y: EnumSet<E> = [s, so].iter().sum();
    c.check(x == y, "sums are wrong", || t.show(m));
    if r.chance(1, 4) {
        let mut n = 0;
        let mut x = s;
        let _ = no_panic(|| x.extend(so.iter().inspect(|_| { n += 1; if n == 2 { panic!("injected") } })));
        for e in x { variant(c, t, e, "interrupted extend"); }
    }
    c.doing("text, hash, order");
    let text = format!("{:?}|{}|{:#?}|{:05}", s, so, s, s);
    let bh = std::hash::BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default();
    let mut h = bh.build_hasher();
    (s, so, t.vars.first().map(|e| EnumSet::only(*e))).hash(&mut h);
    let _ = (h.finish(), s.cmp(&so), s.partial_cmp(&so), s == so, s < so, text.len());
    serde_tour(c, t, r, s, m);
    let k = t.hash_model(m);
    c.case(k, m.iter().any(|x| *x));
    if k % 40 == 0 { c.sample(|| format!("tour with {} and {}", t.show(m), t.show(&o))); }
}

#[cfg(feature = "serde")]
fn serde_tour<E: Zoo>(c: &Ctx, t: &Tab<E>, r: &mut Rng, s: EnumSet<E>, m: &Model) {
    use vh::tok::{modes, replay, Rec, Val};
    c.doing("serde");
    let toks = match Rec::record(&s, r.bool()) { Ok(x) => x, Err(_) => return };
    let modes = modes();
    if let Some(d) = replay(&toks) {
        if let Ok(x) = r.pick(&modes).read::<EnumSet<E>>(&d) { c.check(x == s, "serialization does not round-trip", || t.show(m)); }
    }
    let junk = match r.below(4) {
        0 => Val::Seq((0..r.below(20)).map(|_| Val::U(r.u64() as u128, 64)).collect()),
        1 => Val::U(r.u128(), *r.pick(&[8u32, 16, 32, 64, 128])),
        2 => Val::Seq((0..r.below(5)).map(|_| Val::Variant(r.below(t.n + 2) as u32, t.names.get(r.below(t.n + 1)).map_or("?", |x| *x).into())).collect()),
        _ => Val::Map((0..r.below(5)).map(|_| (Val::Variant(r.below(t.n + 2) as u32, t.names.get(r.below(t.n + 1)).map_or("?", |x| *x).into()), Val::Bool(r.bool()))).collect()),
    };
    for _ in 0..2 {
        if let Some(Ok(x)) = no_panic(|| r.pick(&modes).read::<EnumSet<E>>(&junk)) { for e in x { variant(c, t, e, "deserialization"); } }
    }
}
#[cfg(not(feature = "serde"))]
fn serde_tour<E: Zoo>(_: &Ctx, _: &Tab<E>, _: &mut Rng, _: EnumSet<E>, _: &Model) {}

monitor_main!("C15", run);
