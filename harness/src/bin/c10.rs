//! C10: the serialized form against the documented one, and acceptance of every documented form.
use enumset::*;
use vh::tok::{modes, Rec, Tok, Val};
use vh::*;
include_zoo!();

fn bits_of(ser: &str) -> Option<u32> {
    Some(match ser { "u8" => 8, "u16" => 16, "u32" => 32, "u64" => 64, "u128" => 128, _ => return None })
}

fn run<E: Zoo>(c: &Ctx) {
    let t = Tab::<E>::new();
    if let Some(all) = t.all_models(6) {
        for (k, m) in all.iter().enumerate() {
            written(c, &t, m);
            accepted(c, &t, m, &mut c.rng(1 << 34 | k as u64));
            if c.stop() { return; }
        }
        c.count("enums_with_every_set", 1);
    }
    for i in 0..t.n {
        let mut m = vec![false; t.n];
        m[i] = true;
        written(c, &t, &m);
        if c.stop() { return; }
    }
    for k in 0..c.scale * if t.n > 64 { 12 } else { 30 } {
        let mut r = c.rng(k as u64);
        let m = match k { 0 => vec![true; t.n], 1 => vec![false; t.n], _ => t.random(&mut r) };
        written(c, &t, &m);
        accepted(c, &t, &m, &mut r);
        if c.stop() { return; }
    }
}

/// The variants as serde's derive writes them: position in the definition and name.
fn decl<E: Zoo>() -> Vec<(u32, &'static str, u32)> {
    E::decl().iter().enumerate().map(|(i, (_, d, n))| (i as u32, *n, *d)).collect()
}

fn written<E: Zoo>(c: &Ctx, t: &Tab<E>, m: &Model) {
    let s = t.build(m);
    for human in [true, false] {
        c.doing("serialize");
        let toks = match Rec::record(&s, human) {
            Ok(x) => x,
            Err(e) => { c.fail("serialization fails by itself", format!("{}: {}", t.show(m), e)); return; }
        };
        let bad = |why: &str| c.fail("the serialized form is not the documented one",
            format!("{} with serialize_repr {} (human readable: {}): {} in {:?}", t.show(m), E::SER, human, why, &toks[..toks.len().min(60)]));
        let count = m.iter().filter(|x| **x).count();
        match E::SER {
            "array" => {
                let mut words = vec![];
                let len = match toks.first() {
                    Some(Tok::Seq(n)) => *n,
                    _ => return bad("no sequence"),
                };
                for x in &toks[1..toks.len() - 1] {
                    match x { Tok::U(v, 64) => words.push(*v as u64), _ => return bad("an element that is not a u64") }
                }
                if toks.last() != Some(&Tok::SeqEnd) { return bad("no end"); }
                if len.map_or(false, |l| l != words.len()) { return bad("a wrong length"); }
                let (got, extra) = t.of_words(&words);
                if &got != m || extra { return bad("the wrong words"); }
                // trailing zero words may be there or not
            }
            "list" => {
                let len = match toks.first() {
                    Some(Tok::Seq(n)) => *n,
                    _ => return bad("no sequence"),
                };
                if toks.last() != Some(&Tok::SeqEnd) { return bad("no end"); }
                let mut got = vec![false; t.n];
                for x in &toks[1..toks.len() - 1] {
                    match variant(t, x) {
                        None => return bad("an element that is not a variant"),
                        Some(i) if got[i] => return bad("a repeated element"),
                        Some(i) => got[i] = true,
                    }
                }
                if &got != m { return bad("the wrong variants"); }
                if len.map_or(false, |l| l != count) { return bad("a wrong length"); }
            }
            "map" => {
                let len = match toks.first() {
                    Some(Tok::Map(n)) => *n,
                    _ => return bad("no map"),
                };
                if toks.last() != Some(&Tok::MapEnd) { return bad("no end"); }
                let body = &toks[1..toks.len() - 1];
                if body.len() % 2 != 0 { return bad("an incomplete entry"); }
                let mut got = vec![None; t.n];
                for x in body.chunks(2) {
                    match (variant(t, &x[0]), &x[1]) {
                        (Some(i), Tok::Bool(b)) => {
                            if got[i].is_some() { return bad("a repeated key"); }
                            got[i] = Some(*b);
                        }
                        _ => return bad("an entry that is not variant => bool"),
                    }
                }
                if got.iter().map(|x| *x == Some(true)).collect::<Model>() != *m { return bad("the wrong entries"); }
                if len.map_or(false, |l| l != body.len() / 2) { return bad("a wrong length"); }
            }
            x => {
                let bits = bits_of(x).unwrap();
                let (v, _) = t.num(m, 128);
                if toks != [Tok::U(v, bits)] { return bad(&format!("expected one {} {:#x}", x, v)); }
            }
        }
        c.case(mix(t.hash_model(m), human as u64), count > 0);
        if t.hash_model(m) % 60 == 0 {
            c.sample(|| format!("{} as {}: {:?}", t.show(m), E::SER, &toks[..toks.len().min(20)]));
        }
    }
    // JSON text of the same
    c.doing("JSON text");
    if let Ok(j) = serde_json::to_string(&s) {
        let want = match E::SER {
            "list" | "map" => None,
            "array" => { let (got, extra) = serde_json::from_str::<Vec<u64>>(&j).map(|w| t.of_words(&w)).unwrap_or((vec![], true));
                         c.check(&got == m && !extra, "the JSON form is not the documented one", || format!("{}: {}", t.show(m), j)); None }
            _ => Some(t.num(m, 128).0.to_string()),
        };
        if let Some(w) = want {
            c.check(j == w, "the JSON form is not the documented one", || format!("{}: {} instead of {}", t.show(m), j, w));
        }
        if E::SER == "list" {
            let mut l: Vec<String> = serde_json::from_str(&j).unwrap_or_default();
            let mut w: Vec<String> = (0..t.n).filter(|i| m[*i]).map(|i| t.names[i].to_string()).collect();
            l.sort(); w.sort();
            c.check(l == w, "the JSON form is not the documented one", || format!("{}: {}", t.show(m), j));
        }
        if E::SER == "map" {
            let l: std::collections::BTreeMap<String, bool> = serde_json::from_str(&j).unwrap_or_default();
            c.check((0..t.n).all(|i| l.get(t.names[i]).copied().unwrap_or(false) == m[i]), "the JSON form is not the documented one", || format!("{}: {}", t.show(m), j));
        }
    }
    // bincode writes exactly the bytes of the integer
    if let Some(bits) = bits_of(E::SER) {
        c.doing("bincode bytes");
        let (v, _) = t.num(m, 128);
        let b = bincode::serialize(&s).unwrap_or_default();
        c.check(b == v.to_le_bytes()[..bits as usize / 8], "the binary form is not the documented integer", || format!("{}: {:x?}", t.show(m), b));
    }
}

fn variant<E: Zoo>(t: &Tab<E>, x: &Tok) -> Option<usize> {
    match x {
        Tok::UnitVariant(_, idx, name) => {
            let d = decl::<E>();
            let e = d.get(*idx as usize)?;
            if e.1 != *name { return None; }
            t.discs.iter().position(|x| *x == e.2)
        }
        _ => None,
    }
}
fn var_val<E: Zoo>(t: &Tab<E>, i: usize) -> Val {
    let d = decl::<E>();
    let e = d.iter().find(|x| x.2 == t.discs[i]).unwrap();
    Val::Variant(e.0, e.1.to_string())
}

/// Documents that denote `m` in the documented way.
fn accepted<E: Zoo>(c: &Ctx, t: &Tab<E>, m: &Model, r: &mut Rng) {
    let members = ranks(m);
    let mut docs: Vec<(Val, String)> = vec![];
    match E::SER {
        "array" => {
            let most = (t.width as usize / 64 + 4).max(17);
            let full = t.words(m, most);
            let need = full.iter().rposition(|x| *x != 0).map_or(0, |x| x + 1);
            for len in [need, need + 1, E::WORDS, E::WORDS + 1, E::WORDS + 3, most, r.range(need, most)] {
                if len >= need && len <= most {
                    docs.push((Val::Seq(full[..len].iter().map(|w| Val::U(*w as u128, 64)).collect()), format!("{} words", len)));
                }
            }
        }
        "list" => {
            let base: Vec<Val> = members.iter().map(|i| var_val(t, *i)).collect();
            docs.push((Val::Seq(base.clone()), "in order".into()));
            docs.push((Val::Seq(base.iter().rev().cloned().collect()), "in reverse".into()));
            let mut d = base.clone();
            for _ in 0..r.below(5) { if !base.is_empty() { d.push(r.pick(&base).clone()); } }
            r.shuffle(&mut d);
            docs.push((Val::Seq(d), "shuffled with repetitions".into()));
            docs.push((Val::Seq([base.clone(), base].concat()), "twice".into()));
        }
        "map" => {
            let yes: Vec<(Val, Val)> = members.iter().map(|i| (var_val(t, *i), Val::Bool(true))).collect();
            let no: Vec<(Val, Val)> = (0..t.n).filter(|i| !m[*i]).map(|i| (var_val(t, i), Val::Bool(false))).collect();
            docs.push((Val::Map(yes.clone()), "members only".into()));
            docs.push((Val::Map([yes.clone(), no.clone()].concat()), "with every other variant false".into()));
            docs.push((Val::Map([no.clone(), yes.clone()].concat()), "false entries first".into()));
            let mut d = [yes, no].concat();
            r.shuffle(&mut d);
            docs.push((Val::Map(d), "shuffled, with false entries".into()));
        }
        x => {
            let (v, _) = t.num(m, 128);
            docs.push((Val::U(v, bits_of(x).unwrap()), "the integer".into()));
        }
    }
    for (doc, what) in docs {
        for mode in modes() {
            c.doing("deserialize");
            let got = mode.read::<EnumSet<E>>(&doc);
            match got {
                Err(e) => c.fail("a documented form is refused", format!("{} as {} ({}, {:?}): {} for {:?}", t.show(m), E::SER, what, mode, e, doc)),
                Ok(s) => { agree(c, t, &s, m, "a documented form is read wrongly", || format!("as {} ({}, {:?}): {:?}", E::SER, what, mode, doc)); }
            }
            if c.stop() { return; }
        }
        c.case(mix(t.hash_model(m), hash_bytes(what.as_bytes())), !members.is_empty());
        c.count("accepted_documents", 1);
    }
}

monitor_main!("C10", run);
