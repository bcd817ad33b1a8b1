//! C09: whatever is serialized comes back equal, in every format.
use enumset::*;
use serde::{Deserialize, Serialize};
use vh::tok::{modes, replay, Rec};
use vh::*;
include_zoo!();

fn run<E: Zoo>(c: &Ctx) {
    let t = Tab::<E>::new();
    if let Some(all) = t.all_models(6) {
        for (k, m) in all.iter().enumerate() {
            one(c, &t, m, &mut c.rng(1 << 34 | k as u64));
            if c.stop() { return; }
        }
        c.count("enums_with_every_set", 1);
    }
    for i in 0..t.n {
        let mut m = vec![false; t.n];
        m[i] = true;
        one(c, &t, &m, &mut c.rng(1 << 35 | i as u64));
        if c.stop() { return; }
    }
    let rounds = c.scale * if t.n > 64 { 12 } else { 30 };
    for k in 0..rounds {
        let mut r = c.rng(k as u64);
        let m = match k { 0 => vec![true; t.n], 1 => vec![false; t.n], _ => t.random(&mut r) };
        one(c, &t, &m, &mut r);
        if c.stop() { return; }
    }
}

fn one<E: Zoo>(c: &Ctx, t: &Tab<E>, m: &Model, r: &mut Rng) {
    let s = t.build(m);
    // the same set by a route that goes through complement and garbage
    let garbage: Vec<u64> = { let k = (t.width as usize / 64 + 2).max(18); let v = t.words(&vec![true; t.n], k); t.words(m, k).iter().zip(&v).map(|(x, v)| x | (r.u64() & !v)).collect() };
    let s2 = EnumSet::<E>::from_slice_truncated(&garbage);
    let how = |f: &str, d: &dyn std::fmt::Debug| format!("{} as {} by {}: {:?}", t.show(m), E::SER, f, d);
    let eq = |f: &str, d: &dyn std::fmt::Debug, got: Result<EnumSet<E>, String>| match got {
        Err(e) => { c.fail("what was serialized is refused", format!("{} ({})", how(f, d), e)); }
        Ok(x) => { agree(c, t, &x, m, "what was serialized comes back different", || how(f, d)); }
    };

    c.doing("recording serializer");
    for human in [false, true] {
        let toks = match Rec::record(&s, human) {
            Ok(x) => x,
            Err(e) => { c.fail("serialization fails by itself", how("tokens", &e)); return; }
        };
        c.count("serializer_calls", toks.len() as u64);
        let again = Rec::record(&s2, human);
        c.check(again.as_ref() == Ok(&toks), "equal sets serialize differently", || how("tokens", &(&toks, &again)));
        if let Some(doc) = replay(&toks) {
            for mode in modes() {
                c.doing("token deserializer");
                eq("tokens", &(&doc, mode), mode.read::<EnumSet<E>>(&doc).map_err(|e| e.0));
            }
        }
        // an error of the serializer at any call reaches the caller, and is the same error
        for k in 0..toks.len() {
            if k > 6 && k + 3 < toks.len() && !r.chance(1, 8) { continue; }
            let mut rec = Rec::new(human);
            rec.fail_at = k;
            c.doing("failing serializer");
            let e = s.serialize(&rec);
            c.check(e == Err(tok::Error(format!("injected #{}", k))), "an error of the serializer is not propagated", || how("tokens", &(k, &e)));
            c.count("injected_errors", 1);
        }
    }

    c.doing("JSON");
    match serde_json::to_string(&s) {
        Err(e) => c.fail("serialization fails by itself", how("JSON", &e)),
        Ok(j) => {
            c.check(serde_json::to_string(&s2).ok().as_ref() == Some(&j), "equal sets serialize differently", || how("JSON", &j));
            eq("JSON", &j, serde_json::from_str(&j).map_err(|e| e.to_string()));
            eq("JSON reader", &j, serde_json::from_reader(j.as_bytes()).map_err(|e| e.to_string()));
            let p = serde_json::to_string_pretty(&s).unwrap();
            eq("pretty JSON", &p, serde_json::from_str(&p).map_err(|e| e.to_string()));
            if E::SER != "u128" {
                c.doing("JSON value");
                let v = serde_json::to_value(s);
                match v {
                    Ok(v) => eq("JSON value", &j, serde_json::from_value(v).map_err(|e| e.to_string())),
                    Err(e) => c.fail("serialization fails by itself", how("JSON value", &e)),
                }
                // inside other types, also through serde's own buffering
                let w = Wrap { a: 5, set: s, opt: Some(s), all: vec![s, EnumSet::new(), s] };
                let j = serde_json::to_string(&w).unwrap();
                match serde_json::from_str::<Wrap<E>>(&j) {
                    Ok(x) => {
                        eq("a field", &j, Ok(x.set));
                        eq("an option", &j, x.opt.ok_or("lost".into()));
                        eq("a list", &j, x.all.get(2).copied().ok_or("lost".into()));
                        c.check(x.a == 5 && x.all.len() == 3, "the surrounding data is lost", || how("a struct", &j));
                    }
                    Err(e) => eq("a struct", &j, Err(e.to_string())),
                }
                let j = serde_json::to_string(&Flat { b: 6, inner: Inner { set: s } }).unwrap();
                eq("a flattened struct", &j, serde_json::from_str::<Flat<E>>(&j).map(|x| x.inner.set).map_err(|e| e.to_string()));
            }
        }
    }
    c.doing("bincode");
    match bincode::serialize(&s) {
        Err(e) => c.fail("serialization fails by itself", how("bincode", &e)),
        Ok(b) => {
            c.check(bincode::serialize(&s2).ok().as_ref() == Some(&b), "equal sets serialize differently", || how("bincode", &b));
            eq("bincode", &b, bincode::deserialize(&b).map_err(|e| e.to_string()));
            c.check(bincode::serialized_size(&s).ok() == Some(b.len() as u64), "the announced size is wrong", || how("bincode", &b));
            let w = Wrap { a: 5, set: s, opt: Some(s), all: vec![EnumSet::new(), s] };
            let b = bincode::serialize(&w).unwrap();
            match bincode::deserialize::<Wrap<E>>(&b) {
                Ok(x) => {
                    eq("a bincode field", &b, Ok(x.set));
                    eq("a bincode list", &b, x.all.get(1).copied().ok_or("lost".into()));
                    c.check(x.a == 5 && x.all.len() == 2, "the surrounding data is lost", || how("bincode", &b));
                }
                Err(e) => eq("a bincode struct", &b, Err(e.to_string())),
            }
        }
    }
    c.doing("CBOR");
    let mut b = vec![];
    match ciborium::into_writer(&s, &mut b) {
        Err(e) => c.fail("serialization fails by itself", how("CBOR", &e)),
        Ok(()) => {
            let mut b2 = vec![];
            c.check(ciborium::into_writer(&s2, &mut b2).is_ok() && b == b2, "equal sets serialize differently", || how("CBOR", &b));
            eq("CBOR", &b, ciborium::from_reader(&b[..]).map_err(|e| e.to_string()));
        }
    }
    // a writer that runs full
    for lim in [0, b.len() / 2, b.len().saturating_sub(1)] {
        if lim < b.len() {
            let mut small = vec![0u8; lim];
            c.check(ciborium::into_writer(&s, &mut small[..]).is_err(), "an error of the writer is not propagated", || how("CBOR", &lim));
        }
    }
    agree(c, t, &s, m, "serialization changed its set", || E::SER.into());
    let k = t.hash_model(m);
    c.case(k, m.iter().any(|x| *x));
    if k % 80 == 0 {
        c.sample(|| format!("{} as {}: {:?}, JSON {}", t.show(m), E::SER, Rec::record(&s, true), serde_json::to_string(&s).unwrap_or_default()));
    }
}

#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
struct Wrap<E: Zoo> {
    a: u32,
    set: EnumSet<E>,
    opt: Option<EnumSet<E>>,
    all: Vec<EnumSet<E>>,
}
#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
struct Inner<E: Zoo> { set: EnumSet<E> }
#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
struct Flat<E: Zoo> { b: u8, #[serde(flatten)] inner: Inner<E> }

monitor_main!("C09", run);
