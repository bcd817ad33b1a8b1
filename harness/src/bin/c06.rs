//! C06: conversions to and from arrays, slices and vectors of words.
use enumset::*;
use vh::*;
include_zoo!();

/// The conversions for one array length.
struct Arr<E: Zoo> {
    len: usize,
    as_: fn(&EnumSet<E>) -> Vec<u64>,
    try_as: fn(&EnumSet<E>) -> Option<Vec<u64>>,
    as_truncated: fn(&EnumSet<E>) -> Vec<u64>,
    from: fn(&[u64]) -> EnumSet<E>,
    try_from: fn(&[u64]) -> Option<EnumSet<E>>,
    from_truncated: fn(&[u64]) -> EnumSet<E>,
    from_unchecked: unsafe fn(&[u64]) -> EnumSet<E>,
}
fn arr<E: Zoo, const O: usize>() -> Arr<E> {
    fn a<const O: usize>(v: &[u64]) -> [u64; O] { v.try_into().unwrap() }
    Arr {
        len: O,
        as_: |s| s.as_array::<O>().to_vec(),
        try_as: |s| s.try_as_array::<O>().map(|x| x.to_vec()),
        as_truncated: |s| s.as_array_truncated::<O>().to_vec(),
        from: |v| EnumSet::from_array(a::<O>(v)),
        try_from: |v| EnumSet::try_from_array(a::<O>(v)),
        from_truncated: |v| EnumSet::from_array_truncated(a::<O>(v)),
        from_unchecked: { unsafe fn f<E: Zoo, const O: usize>(v: &[u64]) -> EnumSet<E> { EnumSet::from_array_unchecked(a::<O>(v)) } f::<E, O> },
    }
}
/// The same through slices.
fn slice<E: Zoo>(len: usize) -> Arr<E> {
    Arr {
        len,
        as_: |_| unreachable!(),
        try_as: |_| unreachable!(),
        as_truncated: |_| unreachable!(),
        from: |v| EnumSet::from_slice(v),
        try_from: |v| EnumSet::try_from_slice(v),
        from_truncated: |v| EnumSet::from_slice_truncated(v),
        from_unchecked: { unsafe fn f<E: Zoo>(v: &[u64]) -> EnumSet<E> { EnumSet::from_slice_unchecked(v) } f::<E> },
    }
}

fn run<E: Zoo>(c: &Ctx) {
    let t = Tab::<E>::new();
    let need = ((t.width as usize) + 63) / 64;
    let arrays: Vec<Arr<E>> = vec![
        arr::<E, 0>(), arr::<E, 1>(), arr::<E, 2>(), arr::<E, 3>(), arr::<E, 4>(), arr::<E, 5>(), arr::<E, 6>(),
        arr::<E, 7>(), arr::<E, 8>(), arr::<E, 11>(), arr::<E, 15>(), arr::<E, 16>(), arr::<E, 17>(), arr::<E, 33>(), arr::<E, 1025>(), arr::<E, 1029>(),
    ];
    // every length around the need; of a huge set those around the words that have variants
    let busy: Vec<usize> = if need > 60 { t.discs.iter().map(|d| *d as usize / 64).flat_map(|w| [w, w + 1]).collect() } else { (0..need).collect() };
    let mut lens: Vec<usize> = (0..need.min(4)).chain(busy).chain(need.max(4) - 4..=need + 3).chain([need + 17, 65, 200]).collect();
    lens.sort();
    lens.dedup();
    for (ai, a) in arrays.iter().enumerate() {
        let mut r = c.rng(ai as u64);
        for m in sets(c, &t, &mut r) {
            to_array(c, &t, a, &m, r.chance(1, 8));
            if c.stop() { return; }
        }
        for w in word_lists(c, &t, a.len, &mut r) {
            from_words(c, &t, a, &w, "array", r.chance(1, 8));
            if c.stop() { return; }
        }
    }
    for len in lens {
        let mut r = c.rng(1000 + len as u64);
        for m in sets(c, &t, &mut r) {
            to_slice(c, &t, len, &m, &mut r);
            if c.stop() { return; }
        }
        let a = slice::<E>(len);
        for w in word_lists(c, &t, len, &mut r) {
            from_words(c, &t, &a, &w, "slice", r.chance(1, 8));
            if c.stop() { return; }
        }
    }
    let mut r = c.rng(99);
    for m in sets(c, &t, &mut r) {
        let s = t.build(&m);
        c.doing("to_vec");
        let v = vec_of(&s);
        let (back, bad) = t.of_words(&v);
        c.check(back == m && !bad, "to_vec has the wrong words", || format!("{}: {:x?}", t.show(&m), v));
        c.check(v.len() >= need, "to_vec is too short", || format!("{} words for width {}", v.len(), t.width));
        c.check(v == t.words(&m, v.len()), "to_vec has the wrong words", || format!("{}: {:x?}", t.show(&m), v));
        match EnumSet::<E>::try_from_slice(&v) {
            Some(b) => { agree(c, &t, &b, &m, "a set does not survive to_vec and back", || "try_from_slice(to_vec())".into()); }
            None => c.fail("a set does not survive to_vec and back", t.show(&m)),
        }
        c.case(mix(77, t.hash_model(&m)), m.iter().any(|x| *x));
        if c.stop() { return; }
    }
}

/// Sets worth converting: the edges, members of one word only, and random ones.
fn sets<E: Zoo>(c: &Ctx, t: &Tab<E>, r: &mut Rng) -> Vec<Model> {
    let mut v = vec![vec![false; t.n], vec![true; t.n]];
    let words = (t.width as usize + 63) / 64;
    let valid = t.words(&v[1], words);
    for w in 0..words {
        if words > 60 && valid[w] == 0 { continue; }
        let here = |i: usize| t.discs[i] as usize / 64 == w;
        v.push((0..t.n).map(here).collect());
        v.push((0..t.n).map(|i| !here(i)).collect());
        v.push((0..t.n).map(|i| t.discs[i] as usize / 64 <= w).collect());
    }
    for _ in 0..c.scale * 6 + 4 {
        let mut m = t.random(r);
        if t.n > 0 && r.chance(1, 3) {
            // cut above a word boundary, so that it fits somewhere shorter
            let w = r.below(words + 1);
            for i in 0..t.n { m[i] &= (t.discs[i] as usize) / 64 < w; }
        }
        v.push(m);
    }
    v
}

fn word_lists<E: Zoo>(c: &Ctx, t: &Tab<E>, len: usize, r: &mut Rng) -> Vec<Vec<u64>> {
    let valid = t.words(&vec![true; t.n], len);
    let mut v = vec![vec![0; len], valid.clone(), vec![!0; len]];
    // one bit in one word, every word
    for w in 0..len {
        if len > 60 && w > 2 && w + 3 < len && (w - 1..=w + 1).all(|x| valid[x] == 0) && !r.chance(8, len) { continue; }
        for b in [0, 63, r.below(64)] {
            let mut x = vec![0; len];
            x[w] = 1u64 << b;
            v.push(x.clone());
            let mut y = valid.clone();
            y[w] |= 1u64 << b;
            v.push(y);
        }
        let mut x = vec![0; len];
        x[w] = r.u64();
        v.push(x);
        let mut x = vec![0; len];
        x[w] = valid[w];
        v.push(x);
        let mut x = valid.clone();
        x[w] = !0;
        v.push(x);
    }
    for _ in 0..c.scale * 8 + 8 {
        let k = r.below(5);
        v.push((0..len).map(|i| match k {
            0 => r.u64(),
            1 => r.u64() & valid[i],
            2 => valid[i] & r.u64() | if r.chance(1, 4) { 1 << r.below(64) } else { 0 },
            3 => if r.bool() { valid[i] } else { 0 },
            _ => if r.chance(1, 3) { r.u64() & r.u64() } else { 0 },
        }).collect());
    }
    // words that repeat, cancel or complement each other
    for _ in 0..c.scale * 8 + 8 {
        let mut x: Vec<u64> = match r.below(3) { 0 => valid.clone(), 1 => valid.iter().map(|y| y & r.u64()).collect(), _ => (0..len).map(|_| if r.bool() { r.u64() & r.u64() } else { 0 }).collect() };
        for _ in 0..r.range(1, 2) { r.knit_words(&mut x); }
        if r.chance(1, 4) { x.iter_mut().zip(&valid).for_each(|(x, y)| *x &= y); }
        v.push(x);
    }
    v
}

fn key(tag: u64, len: usize, x: u64) -> u64 {
    mix(mix(tag, len as u64), x)
}

fn to_array<E: Zoo>(c: &Ctx, t: &Tab<E>, a: &Arr<E>, m: &Model, panics: bool) {
    let s = t.build(m);
    let want = t.words(m, a.len);
    let over = (0..t.n).any(|i| m[i] && t.discs[i] as usize / 64 >= a.len);
    let exp = if over { None } else { Some(want.clone()) };
    c.doing("try_as_array");
    let got = (a.try_as)(&s);
    c.check(got == exp, "a checked conversion to an array is wrong",
            || format!("try_as_array::<{}> of {}: {:x?}, expected {:x?}", a.len, t.show(m), got, exp));
    c.doing("as_array_truncated");
    let tr = (a.as_truncated)(&s);
    c.check(tr == want, "a truncating conversion to an array is wrong",
            || format!("as_array_truncated::<{}> of {}: {:x?}, expected {:x?}", a.len, t.show(m), tr, want));
    if panics || !over {
        c.doing("as_array");
        let p = no_panic(|| (a.as_)(&s));
        c.check(p == exp, "a panicking conversion to an array is wrong",
                || format!("as_array::<{}> of {}: {:x?}, expected {:x?} (None: panic)", a.len, t.show(m), p, exp));
    }
    if !over {
        let b = (a.try_from)(&want);
        match b {
            Some(b) => { agree(c, t, &b, m, "a set does not survive an array and back", || format!("[u64; {}]", a.len)); }
            None => c.fail("a set does not survive an array and back", format!("[u64; {}] {:x?}", a.len, want)),
        }
    }
    c.case(key(1, a.len, t.hash_model(m)), m.iter().any(|x| *x));
}

fn to_slice<E: Zoo>(c: &Ctx, t: &Tab<E>, len: usize, m: &Model, r: &mut Rng) {
    let s = t.build(m);
    let want = t.words(m, len);
    let over = (0..t.n).any(|i| m[i] && t.discs[i] as usize / 64 >= len);
    // a destination with old content, inside a larger buffer
    let pad = 3;
    let fresh: Vec<u64> = (0..len + 2 * pad).map(|_| if r.chance(1, 8) { 0 } else { r.u64() }).collect();
    let ends = |b: &[u64]| b[..pad] == fresh[..pad] && b[pad + len..] == fresh[pad + len..];
    c.doing("try_copy_into_slice");
    let mut buf = fresh.clone();
    let got = s.try_copy_into_slice(&mut buf[pad..pad + len]);
    c.check(got.is_some() == !over, "a checked copy into a slice succeeds exactly when it must not",
            || format!("try_copy_into_slice of {} into {} words: {:?}", t.show(m), len, got));
    if got.is_some() {
        c.check(buf[pad..pad + len] == want[..], "a checked copy into a slice writes the wrong words",
                || format!("{} into {} words: {:x?}, expected {:x?}", t.show(m), len, &buf[pad..pad + len], want));
    } else {
        c.check(buf[pad..pad + len] == fresh[pad..pad + len], "a failed copy into a slice changes the destination",
                || format!("{} into {} words", t.show(m), len));
    }
    c.check(ends(&buf), "a copy writes outside its slice", || format!("{} words", len));
    c.doing("copy_into_slice_truncated");
    let mut buf = fresh.clone();
    s.copy_into_slice_truncated(&mut buf[pad..pad + len]);
    c.check(buf[pad..pad + len] == want[..] && ends(&buf), "a truncating copy into a slice writes the wrong words",
            || format!("{} into {} words: {:x?}, expected {:x?}", t.show(m), len, &buf[pad..pad + len], want));
    if !over || r.chance(1, 8) {
        c.doing("copy_into_slice");
        let mut buf = fresh.clone();
        let p = no_panic(|| s.copy_into_slice(&mut buf[pad..pad + len]));
        c.check(p.is_some() == !over, "a panicking copy into a slice panics exactly when it must not",
                || format!("{} into {} words: {:?}", t.show(m), len, p));
        if p.is_some() {
            c.check(buf[pad..pad + len] == want[..], "a panicking copy into a slice writes the wrong words",
                    || format!("{} into {} words: {:x?}", t.show(m), len, &buf[pad..pad + len]));
        } else {
            c.check(buf == fresh, "a failed copy into a slice changes the destination", || format!("{} into {} words", t.show(m), len));
        }
    }
    agree(c, t, &s, m, "a conversion changed its set", || "slice".into());
    let k = key(2, len, t.hash_model(m));
    c.case(k, m.iter().any(|x| *x));
    if k % 400 == 0 {
        c.sample(|| format!("{} into {} words: {:x?}", t.show(m), len, if over { None } else { Some(want) }));
    }
}

fn from_words<E: Zoo>(c: &Ctx, t: &Tab<E>, a: &Arr<E>, w: &[u64], how: &str, panics: bool) {
    let (m, bad) = t.of_words(w);
    c.doing("try_from");
    let got = (a.try_from)(w);
    match (&got, bad) {
        (Some(_), true) => c.fail("a checked conversion accepts an undeclared bit", format!("try_from_{}({:x?})", how, w)),
        (None, false) => c.fail("a checked conversion refuses declared bits", format!("try_from_{}({:x?})", how, w)),
        (Some(s), false) => { agree(c, t, s, &m, "a checked conversion from words is wrong", || format!("try_from_{}({:x?})", how, w)); }
        _ => {}
    }
    c.doing("from_truncated");
    let s = (a.from_truncated)(w);
    agree(c, t, &s, &m, "a truncating conversion from words is wrong", || format!("from_{}_truncated({:x?})", how, w));
    // nothing undeclared may be left in the result
    let all = t.raw_words(&s);
    c.check(all[..] == t.words(&m, all.len())[..], "a truncating conversion keeps an undeclared bit",
            || format!("from_{}_truncated({:x?}) has words {:x?}", how, w, all));
    if panics || !bad {
        c.doing("from");
        let p = no_panic(|| (a.from)(w));
        match p {
            None => { c.check(bad, "a panicking conversion refuses declared bits", || format!("from_{}({:x?})", how, w)); }
            Some(s) => {
                if c.check(!bad, "a panicking conversion accepts an undeclared bit", || format!("from_{}({:x?})", how, w)) {
                    agree(c, t, &s, &m, "a panicking conversion from words is wrong", || format!("from_{}({:x?})", how, w));
                }
            }
        }
    }
    if !bad {
        let s = unsafe { (a.from_unchecked)(w) };
        agree(c, t, &s, &m, "an unchecked conversion of declared bits is wrong", || format!("from_{}_unchecked({:x?})", how, w));
    }
    let k = w.iter().fold(w.len() as u64, |h, x| mix(h, *x));
    c.case(key(3 + (how == "slice") as u64, a.len, k), w.iter().any(|x| *x != 0));
}

monitor_main!("C06", run);
