//! C11: hostile documents.
use enumset::*;
use vh::tok::{modes, replay, Error, Mode, Rec, Val};
use vh::*;
include_zoo!();

fn bits_of(ser: &str) -> Option<u32> {
    Some(match ser { "u8" => 8, "u16" => 16, "u32" => 32, "u64" => 64, "u128" => 128, _ => return None })
}

/// Whatever comes out must be a set of declared variants.
fn sound<E: Zoo>(c: &Ctx, t: &Tab<E>, s: &EnumSet<E>, how: impl FnOnce() -> String) -> bool {
    let m = t.read(s);
    let words = t.raw_words(s);
    if words[..] != t.words(&m, words.len())[..] {
        c.fail("deserialization yields an undeclared member", format!("{}: words {:x?}", how(), words));
        return false;
    }
    agree(c, t, s, &m, "deserialization yields an inconsistent set", how)
}

/// Reads a document; Some(result) unless it panicked (which is reported).
fn read<E: Zoo>(c: &Ctx, t: &Tab<E>, doc: &Val, mode: Mode) -> Option<Result<EnumSet<E>, Error>> {
    c.doing("deserialize");
    match no_panic(|| mode.read::<EnumSet<E>>(doc)) {
        None => { c.fail("deserialization panics", format!("{:?} ({:?}) as {}: {}", doc, mode, E::SER, last_panic())); None }
        Some(r) => {
            if let Ok(s) = &r { sound(c, t, s, || format!("{:?} as {}", doc, E::SER)); }
            Some(r)
        }
    }
}

/// A document with a known verdict: None = must be refused.
fn verdict<E: Zoo>(c: &Ctx, t: &Tab<E>, doc: &Val, want: Option<&Model>, why: &str) {
    for mode in modes() {
        match read(c, t, doc, mode) {
            None => return,
            Some(Ok(s)) => match want {
                None => c.fail("what must be refused is accepted", format!("{}: {:?} ({:?}) as {} gives {}", why, doc, mode, E::SER, t.show(&t.read(&s)))),
                Some(m) => { agree(c, t, &s, m, "deserialization yields the wrong set", || format!("{}: {:?} ({:?}) as {}", why, doc, mode, E::SER)); }
            },
            Some(Err(e)) => { c.check(want.is_none(), "what must be accepted is refused", || format!("{}: {:?} ({:?}) as {}: {}", why, doc, mode, E::SER, e)); }
        }
        if c.stop() { return; }
    }
    c.case(mix(hash_bytes(format!("{:?}", doc).as_bytes()), 1), true);
    c.count(if want.is_some() { "documents_to_accept" } else { "documents_to_refuse" }, 1);
}

fn run<E: Zoo>(c: &Ctx) {
    let t = Tab::<E>::new();
    unknown_bits(c, &t);
    if c.stop() { return; }
    faults(c, &t);
    if c.stop() { return; }
    for k in 0..c.scale * 120 {
        let mut r = c.rng(1 << 41 | k as u64);
        arbitrary(c, &t, &mut r);
        if c.stop() { return; }
    }
    for k in 0..c.scale * 60 {
        let mut r = c.rng(1 << 42 | k as u64);
        bytes(c, &t, &mut r);
        if c.stop() { return; }
    }
}

fn unknown_bits<E: Zoo>(c: &Ctx, t: &Tab<E>) {
    let mut r = c.rng(7);
    match E::SER {
        "array" => {
            let valid = t.words(&vec![true; t.n], E::WORDS + 4);
            let huge = E::WORDS > 60;
            let mut lists: Vec<Vec<u64>> = vec![vec![]];
            for len in 1..=E::WORDS + 4 {
                if huge && len > 2 && len + 1 < E::WORDS { continue; }
                lists.push(vec![0; len]);
                lists.push(vec![!0; len]);
                lists.push(valid[..len].to_vec());
                for w in 0..len {
                    if huge && w > 1 && w + 2 < len && (w - 1..=w + 1).all(|x| valid[x] == 0) && !r.chance(4, len) { continue; }
                    for b in [0u32, 1, 31, 62, 63, r.below(64) as u32] {
                        let mut x = vec![0; len];
                        x[w] |= 1 << b;
                        lists.push(x);
                        let mut x = valid[..len].to_vec();
                        x[w] |= 1 << b;
                        lists.push(x);
                    }
                }
                for _ in 0..c.scale * 2 {
                    let mut x: Vec<u64> = (0..len).map(|i| if r.bool() { valid[i] } else { r.u64() & valid[i] }).collect();
                    for _ in 0..r.range(1, 2) { r.knit_words(&mut x); }
                    lists.push(x);
                }
                for _ in 0..c.scale * 3 {
                    lists.push((0..len).map(|i| match r.below(4) { 0 => r.u64(), 1 => valid[i], 2 => valid[i] & r.u64(), _ => 0 }).collect());
                }
            }
            lists.push(vec![!0; 300]);
            for w in lists {
                let (m, bad) = t.of_words(&w);
                let doc = Val::Seq(w.iter().map(|x| Val::U(*x as u128, 64)).collect());
                verdict(c, t, &doc, if bad && E::DENY { None } else { Some(&m) }, if bad { "unknown bits" } else { "known bits" });
                if c.stop() { return; }
            }
        }
        "list" | "map" => {
            let list = E::SER == "list";
            let wrap = |v: Vec<Val>| if list { Val::Seq(v) } else { Val::Map(v.into_iter().map(|k| (k, Val::Bool(true))).collect()) };
            let n = t.n as u32;
            for k in 0..c.scale * 12 + 12 {
                let m = t.random(&mut r);
                let mut v: Vec<Val> = E::decl().iter().enumerate().filter(|(_, e)| m[t.discs.iter().position(|d| *d == e.1).unwrap()])
                    .map(|(i, e)| Val::Variant(i as u32, e.2.to_string())).collect();
                verdict(c, t, &wrap(v.clone()), Some(&m), "known variants");
                // one unknown variant somewhere
                let at = r.below(v.len() + 1);
                v.insert(at, Val::Variant(n + (k as u32 % 3) * 1000, format!("Unknown{}", k)));
                verdict(c, t, &wrap(v), None, "an unknown variant");
                if !list {
                    // an unknown key is an error whatever its value
                    verdict(c, t, &Val::Map(vec![(Val::Variant(n, "Nope".into()), Val::Bool(false))]), None, "an unknown variant");
                }
                if c.stop() { return; }
            }
        }
        x => {
            let bits = bits_of(x).unwrap();
            let full = if bits == 128 { !0 } else { (1u128 << bits) - 1 };
            let (valid, _) = t.num(&vec![true; t.n], bits);
            let mut vals = vec![0, full, valid, full & !valid];
            for b in 0..bits {
                vals.push(1 << b);
                vals.push(valid | 1 << b);
                vals.push(valid & !(1 << b));
            }
            for _ in 0..c.scale * 20 {
                vals.push(r.u128() & full);
                vals.push(r.u128() & valid);
                let x = r.u128() & valid;
                vals.push(r.knit(x) & full);
                vals.push(r.u128() & valid | 1 << r.below(bits as usize));
            }
            for v in vals {
                let (m, bad) = t.of_num(v);
                let want = if bad && E::DENY { None } else { Some(&m) };
                verdict(c, t, &Val::U(v, bits), want, if bad { "unknown bits" } else { "known bits" });
                // JSON gives it in whatever integer type it likes
                let j = v.to_string();
                c.doing("JSON integer");
                match (serde_json::from_str::<EnumSet<E>>(&j), want) {
                    (Ok(s), Some(m)) => { agree(c, t, &s, m, "deserialization yields the wrong set", || format!("JSON {}", j)); }
                    (Ok(_), None) => c.fail("what must be refused is accepted", format!("JSON {} as {}", j, E::SER)),
                    (Err(e), Some(_)) => c.fail("what must be accepted is refused", format!("JSON {} as {}: {}", j, E::SER, e)),
                    _ => {}
                }
                if c.stop() { return; }
            }
        }
    }
}

/// Errors of the format in the middle of a document.
fn faults<E: Zoo>(c: &Ctx, t: &Tab<E>) {
    for k in 0..c.scale * 8 + 8 {
        let mut r = c.rng(1 << 40 | k as u64);
        let m = t.random(&mut r);
        let doc = match Rec::record(&t.build(&m), true).ok().and_then(|x| replay(&x)) { Some(d) => d, None => return };
        let bad: Vec<Val> = match &doc {
            Val::Seq(v) => (0..=v.len()).take(40).flat_map(|i| {
                let mut x = v.clone();
                x.insert(i, Val::Fail(k as u32));
                let mut y = v[..i].to_vec();
                // far beyond the length the set needs
                for _ in 0..r.below(6) { if E::SER == "array" { y.push(Val::U(0, 64)); } }
                y.push(Val::Fail(k as u32));
                [Val::Seq(x), Val::Seq(y)]
            }).collect(),
            Val::Map(v) => (0..=v.len()).take(40).flat_map(|i| {
                let key = v.first().map(|x| x.0.clone()).unwrap_or(Val::Fail(k as u32));
                let mut x = v.clone();
                x.insert(i, (Val::Fail(k as u32), Val::Bool(true)));
                let mut y = v.clone();
                y.insert(i, (key, Val::Fail(k as u32)));
                [Val::Map(x), Val::Map(y)]
            }).collect(),
            _ => vec![Val::Fail(k as u32)],
        };
        for d in bad {
            for mode in modes() {
                match read(c, t, &d, mode) {
                    None => return,
                    Some(Err(_)) => {}
                    Some(Ok(s)) => { c.fail("an error of the format is swallowed", format!("{:?} ({:?}) as {} gives {}", d, mode, E::SER, t.show(&t.read(&s)))); return; }
                }
            }
            c.count("injected_errors", 1);
            c.case(mix(hash_bytes(format!("{:?}", d).as_bytes()), 2), true);
        }
    }
}

fn junk<E: Zoo>(t: &Tab<E>, r: &mut Rng, depth: usize) -> Val {
    match r.below(if depth == 0 { 12 } else { 18 }) {
        0 => Val::Bool(r.bool()),
        1 => { let b = *r.pick(&[8, 16, 32, 64, 128]); Val::I((r.u128() as i128) >> (128 - b), b) }
        2 | 3 => { let b = *r.pick(&[8u32, 16, 32, 64, 128]); let s = 128 - b + r.below(b as usize) as u32; Val::U(r.u128() >> s, b) }
        4 => Val::F(f64::from_bits(r.u64())),
        5 => Val::Char('x'),
        6 => Val::Str(match r.below(4) { 0 => String::new(), 1 => "V0".into(), 2 => r.u64().to_string(), _ => "true".into() }),
        7 => Val::Bytes((0..r.below(20)).map(|_| r.u64() as u8).collect()),
        8 => Val::Unit,
        9 => Val::None,
        10 if t.n > 0 => { let i = r.below(t.n); Val::Variant(i as u32, t.names[r.below(t.n)].to_string()) }
        10 | 11 => Val::Fail(9),
        12 => Val::Some(Box::new(junk(t, r, depth - 1))),
        13 => Val::Newtype(Box::new(junk(t, r, depth - 1))),
        14 | 15 => Val::Seq((0..r.below(12)).map(|_| junk(t, r, depth - 1)).collect()),
        _ => Val::Map((0..r.below(8)).map(|_| (junk(t, r, depth - 1), junk(t, r, depth - 1))).collect()),
    }
}

/// Documents of any shape, and valid documents with something replaced.
fn arbitrary<E: Zoo>(c: &Ctx, t: &Tab<E>, r: &mut Rng) {
    let doc = if r.chance(1, 3) {
        junk(t, r, 3)
    } else {
        let m = t.random(r);
        let mut d = match Rec::record(&t.build(&m), true).ok().and_then(|x| replay(&x)) { Some(d) => d, None => return };
        for _ in 0..r.range(1, 3) {
            match &mut d {
                Val::Seq(v) => match r.below(5) {
                    0 => { let x = junk(t, r, 2); let i = r.below(v.len() + 1); v.insert(i, x); }
                    1 if !v.is_empty() => { let i = r.below(v.len()); v[i] = junk(t, r, 2); }
                    2 if !v.is_empty() => { v.remove(r.below(v.len())); }
                    3 => { for _ in 0..r.below(400) { v.push(Val::U(0, 64)); } }
                    _ => { for _ in 0..r.below(6) { v.push(Val::U(r.u64() as u128, 64)); } }
                },
                Val::Map(v) => match r.below(4) {
                    0 => { let x = (junk(t, r, 1), junk(t, r, 1)); let i = r.below(v.len() + 1); v.insert(i, x); }
                    1 if !v.is_empty() => { let i = r.below(v.len()); v[i].1 = junk(t, r, 1); }
                    2 if !v.is_empty() => { let i = r.below(v.len()); v[i].0 = junk(t, r, 1); }
                    _ => { v.extend(v.clone()); }
                },
                x => *x = junk(t, r, 2),
            }
        }
        d
    };
    let mut key = hash_bytes(format!("{:?}", doc).as_bytes());
    for mode in modes() {
        match read(c, t, &doc, mode) {
            None => return,
            Some(Ok(s)) => { c.count("junk_accepted", 1); key = mix(key, t.hash_model(&t.read(&s))); }
            Some(Err(_)) => c.count("junk_refused", 1),
        }
    }
    c.case(key, true);
    if key % 200 == 0 { c.sample(|| format!("{:?} as {} is {:?}", doc, E::SER, modes()[0].read::<EnumSet<E>>(&doc).map(|s| t.show(&t.read(&s))))); }
}

/// Raw bytes and mutated documents of the real formats.
fn bytes<E: Zoo>(c: &Ctx, t: &Tab<E>, r: &mut Rng) {
    let s = t.build(&t.random(r));
    for f in 0..3 {
        let mut b: Vec<u8> = match f {
            0 => serde_json::to_vec(&s).unwrap_or_default(),
            1 => bincode::serialize(&s).unwrap_or_default(),
            _ => { let mut b = vec![]; let _ = ciborium::into_writer(&s, &mut b); b }
        };
        match r.below(7) {
            0 => b = (0..r.below(40)).map(|_| r.u64() as u8).collect(),
            1 => { b.truncate(r.below(b.len() + 1)); }
            2 => b.extend((0..r.below(20)).map(|_| r.u64() as u8)),
            3 if f == 0 => {
                let alphabet = b"0123456789-+.eE[]{},:\"truefalsn V_ \\";
                b = (0..r.below(30)).map(|_| *r.pick(alphabet)).collect();
            }
            4 if f == 0 => b = format!("[{}]", (0..r.below(20)).map(|_| match r.below(6) { 0 => "18446744073709551616".into(), 1 => "-1".into(), 2 => "1.5".into(), 3 => "null".into(), _ => r.u64().to_string() }).collect::<Vec<String>>().join(",")).into_bytes(),
            _ => for _ in 0..r.range(1, 4) {
                if !b.is_empty() { let i = r.below(b.len()); if r.bool() { b[i] ^= 1 << r.below(8); } else { b[i] = r.u64() as u8; } }
            },
        }
        c.doing("bytes");
        let name = ["JSON", "bincode", "CBOR"][f];
        let res: Option<Result<EnumSet<E>, ()>> = no_panic(|| match f {
            0 => serde_json::from_slice(&b).map_err(|_| ()),
            1 => bincode::deserialize(&b).map_err(|_| ()),
            _ => ciborium::from_reader(&b[..]).map_err(|_| ()),
        });
        match res {
            None => c.fail("deserialization panics", format!("{} {:?} as {}: {}", name, String::from_utf8_lossy(&b), E::SER, last_panic())),
            Some(Ok(x)) => { c.count("bytes_accepted", 1); sound(c, t, &x, || format!("{} {:?} as {}", name, String::from_utf8_lossy(&b), E::SER)); }
            Some(Err(())) => c.count("bytes_refused", 1),
        }
        c.case(mix(hash_bytes(&b), f as u64), !b.is_empty());
        if c.stop() { return; }
    }
}

monitor_main!("C11", run);
