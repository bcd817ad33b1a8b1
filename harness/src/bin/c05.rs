//! C05: conversions to and from the integer types.
use enumset::*;
use vh::*;
include_zoo!();

struct Int<E: Zoo> {
    name: &'static str,
    bits: u32,
    as_: fn(&EnumSet<E>) -> u128,
    try_as: fn(&EnumSet<E>) -> Option<u128>,
    as_truncated: fn(&EnumSet<E>) -> u128,
    from: fn(u128) -> EnumSet<E>,
    try_from: fn(u128) -> Option<EnumSet<E>>,
    from_truncated: fn(u128) -> EnumSet<E>,
    from_unchecked: unsafe fn(u128) -> EnumSet<E>,
}
macro_rules! int {
    ($t:ident $as_:ident $try_as:ident $tr:ident $from:ident $try_from:ident $ft:ident $fu:ident) => {
        Int {
            name: stringify!($t),
            bits: $t::BITS,
            as_: |s| s.$as_() as u128,
            try_as: |s| s.$try_as().map(|x| x as u128),
            as_truncated: |s| s.$tr() as u128,
            from: |v| EnumSet::$from(v as $t),
            try_from: |v| EnumSet::$try_from(v as $t),
            from_truncated: |v| EnumSet::$ft(v as $t),
            from_unchecked: { unsafe fn f<E: Zoo>(v: u128) -> EnumSet<E> { EnumSet::$fu(v as $t) } f::<E> },
        }
    };
}
fn ints<E: Zoo>() -> Vec<Int<E>> {
    vec![
        int!(u8 as_u8 try_as_u8 as_u8_truncated from_u8 try_from_u8 from_u8_truncated from_u8_unchecked),
        int!(u16 as_u16 try_as_u16 as_u16_truncated from_u16 try_from_u16 from_u16_truncated from_u16_unchecked),
        int!(u32 as_u32 try_as_u32 as_u32_truncated from_u32 try_from_u32 from_u32_truncated from_u32_unchecked),
        int!(u64 as_u64 try_as_u64 as_u64_truncated from_u64 try_from_u64 from_u64_truncated from_u64_unchecked),
        int!(u128 as_u128 try_as_u128 as_u128_truncated from_u128 try_from_u128 from_u128_truncated from_u128_unchecked),
        int!(usize as_usize try_as_usize as_usize_truncated from_usize try_from_usize from_usize_truncated from_usize_unchecked),
    ]
}

fn mask(bits: u32) -> u128 {
    if bits == 128 { !0 } else { (1u128 << bits) - 1 }
}

fn run<E: Zoo>(c: &Ctx) {
    let t = Tab::<E>::new();
    let miri = cfg!(miri);
    for (ti, it) in ints::<E>().iter().enumerate() {
        // interpreted (for a 32-bit target): only the type whose width differs there
        if miri && it.name != "usize" { continue; }
        let full = mask(it.bits);
        let (valid, _) = t.num(&vec![true; t.n], it.bits);
        // sets: empty, full, every single member, all but one
        into(c, &t, it, &vec![false; t.n], true);
        into(c, &t, it, &vec![true; t.n], true);
        for i in 0..t.n {
            if miri && i > 3 && i + 3 < t.n { continue; }
            let mut m = vec![false; t.n];
            m[i] = true;
            into(c, &t, it, &m, true);
            let m: Model = m.iter().map(|x| !x).collect();
            into(c, &t, it, &m, i < 4);
        }
        // numbers: every single bit, alone and with all declared bits
        for b in 0..it.bits {
            if miri && b % 8 != 0 && b % 8 != 7 { continue; }
            out_of(c, &t, it, 1u128 << b, true);
            out_of(c, &t, it, valid | 1u128 << b, b % 8 == 0);
            out_of(c, &t, it, valid & !(1u128 << b), false);
        }
        for v in [0, full, valid, full & !valid, full >> 1, 1 << (it.bits - 1)] {
            out_of(c, &t, it, v, true);
        }
        if c.stop() { return; }
        let rounds = if miri { 6 } else { c.scale * if t.n > 100 { 80 } else { 200 } };
        for k in 0..rounds {
            let mut r = c.rng((ti as u64) << 32 | k as u64);
            let mut m = t.random(&mut r);
            into(c, &t, it, &m, k % 16 == 0);
            // only members that fit
            for i in 0..t.n { m[i] &= t.discs[i] < it.bits; }
            into(c, &t, it, &m, k % 16 == 1);
            let v = match r.below(9) {
                0 => r.u128(),
                1 => r.u128() & valid,
                2 => (r.u128() & valid) | 1u128 << r.below(it.bits as usize),
                3 => r.u128() & r.u128() & r.u128(),
                4 => t.num(&m, it.bits).0,
                5 => { let x = r.u128() & valid; r.knit(x) }
                6 => { let x = t.num(&m, it.bits).0; r.knit(x) }
                7 => { let x = r.knit(valid); r.knit(x) }
                _ => (r.u128() & valid) | (r.u128() & r.u128() & r.u128() & full & !valid),
            } & full;
            out_of(c, &t, it, v, k % 16 == 2);
            if c.stop() { return; }
        }
    }
}

/// set -> integer
fn into<E: Zoo>(c: &Ctx, t: &Tab<E>, it: &Int<E>, m: &Model, panics: bool) {
    let s = t.build(m);
    let (want, over) = t.num(m, it.bits);
    c.doing("try_as");
    let got = (it.try_as)(&s);
    let exp = if over { None } else { Some(want) };
    c.check(got == exp, "a checked conversion to an integer is wrong",
            || format!("try_as_{} of {} is {:x?}, expected {:x?}", it.name, t.show(m), got, exp));
    c.doing("as_truncated");
    let tr = (it.as_truncated)(&s);
    c.check(tr == want, "a truncating conversion to an integer is wrong",
            || format!("as_{}_truncated of {} is {:#x}, expected {:#x}", it.name, t.show(m), tr, want));
    if panics || !over {
        c.doing("as");
        let p = no_panic(|| (it.as_)(&s));
        c.check(p == exp, "a panicking conversion to an integer is wrong",
                || format!("as_{} of {}: {:x?}, expected {:x?} (None: panic)", it.name, t.show(m), p, exp));
    }
    // and back
    if !over {
        c.doing("round trip");
        let back = (it.try_from)(want);
        match back {
            None => c.fail("a set does not survive conversion to an integer and back", format!("{} through {} {:#x}", t.show(m), it.name, want)),
            Some(b) => { agree(c, t, &b, m, "a set does not survive conversion to an integer and back", || format!("through {} {:#x}", it.name, want)); }
        }
        let b = unsafe { (it.from_unchecked)(want) };
        agree(c, t, &b, m, "an unchecked conversion of declared bits is wrong", || format!("from_{}_unchecked({:#x})", it.name, want));
    }
    agree(c, t, &s, m, "a conversion changed its set", || it.name.into());
    c.case(mix(mix(it.bits as u64 + it.name.len() as u64 * 1000, 1), t.hash_model(m)), m.iter().any(|x| *x));
}

/// integer -> set
fn out_of<E: Zoo>(c: &Ctx, t: &Tab<E>, it: &Int<E>, v: u128, panics: bool) {
    let (m, bad) = t.of_num(v);
    c.doing("try_from");
    let got = (it.try_from)(v);
    match (&got, bad) {
        (Some(_), true) => c.fail("a checked conversion accepts an undeclared bit", format!("try_from_{}({:#x})", it.name, v)),
        (None, false) => c.fail("a checked conversion refuses declared bits", format!("try_from_{}({:#x})", it.name, v)),
        (Some(s), false) => {
            agree(c, t, s, &m, "a checked conversion from an integer is wrong", || format!("try_from_{}({:#x})", it.name, v));
            let b = (it.try_as)(s);
            c.check(b == Some(v), "an integer does not survive conversion to a set and back", || format!("{} {:#x}: {:x?}", it.name, v, b));
        }
        (None, true) => {}
    }
    c.doing("from_truncated");
    let tr = (it.from_truncated)(v);
    agree(c, t, &tr, &m, "a truncating conversion from an integer is wrong", || format!("from_{}_truncated({:#x})", it.name, v));
    let (low, _) = t.num(&m, it.bits);
    let back = (it.as_truncated)(&tr);
    c.check(back == low, "a truncating conversion keeps an undeclared bit", || format!("from_{}_truncated({:#x}) has numeric form {:#x}", it.name, v, back));
    if panics || !bad {
        c.doing("from");
        let p = no_panic(|| (it.from)(v));
        match p {
            None => { c.check(bad, "a panicking conversion refuses declared bits", || format!("from_{}({:#x})", it.name, v)); }
            Some(s) => {
                if c.check(!bad, "a panicking conversion accepts an undeclared bit", || format!("from_{}({:#x})", it.name, v)) {
                    agree(c, t, &s, &m, "a panicking conversion from an integer is wrong", || format!("from_{}({:#x})", it.name, v));
                }
            }
        }
    }
    let key = mix(mix(it.bits as u64 + it.name.len() as u64 * 1000, 2), mix(v as u64, (v >> 64) as u64));
    c.case(key, v != 0);
    if key % 101 == 0 {
        c.sample(|| format!("{} {:#x} denotes {} ({})", it.name, v, t.show(&m), if bad { "with undeclared bits" } else { "all declared" }));
    }
}

monitor_main!("C05", run);
