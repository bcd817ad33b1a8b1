//! C03: whatever safe operations produce, a set has no undeclared member.
use enumset::*;
use vh::tok::{modes, Rec, Val};
use vh::*;
include_zoo!();

/// Bits of `v` that denote no variant are garbage; mixes some into a valid number.
fn dirty<E: Zoo>(t: &Tab<E>, r: &mut Rng, bits: u32) -> u128 {
    let full = if bits == 128 { !0 } else { (1u128 << bits) - 1 };
    let valid = t.num(&vec![true; t.n], 128).0;
    full & match r.below(10) {
        0 => r.u128(),
        1 => r.u128() & valid,
        2 => valid,
        3 => !valid,
        4 => valid | 1u128 << r.below(bits as usize),
        5 => (r.u128() & valid) | 1u128 << r.below(bits as usize),
        // just past the declared bits
        6 => t.num(&t.random(r), 128).0 | 1u128.checked_shl(t.width).unwrap_or(0),
        7 => { let x = t.num(&t.random(r), 128).0; r.knit(x) }
        8 => { let x = r.u128() & valid; r.knit(x) }
        _ => t.num(&t.random(r), 128).0,
    }
}
fn dirty_words<E: Zoo>(t: &Tab<E>, r: &mut Rng, len: usize) -> Vec<u64> {
    let mut w = t.words(&t.random(r), len);
    let valid = t.words(&vec![true; t.n], len);
    if len == 0 { return w; }
    match r.below(10) {
        8 | 9 => r.knit_words(&mut w),
        0 => w.iter_mut().for_each(|x| *x = r.u64()),
        1 => w.iter_mut().zip(&valid).for_each(|(x, v)| *x = r.u64() & v),
        2 => w.iter_mut().zip(&valid).for_each(|(x, v)| *x |= r.u64() & !v),
        3 => { let i = r.below(len); w[i] |= 1 << r.below(64); }
        4 => { let i = r.below(len); w[i] = r.u64(); }
        5 => { let d = t.width as usize; if d / 64 < len { w[d / 64] |= 1 << (d % 64); } }
        6 => { let i = len - 1; w[i] |= 1 << 63; }
        _ => {}
    }
    w
}

/// The invariant. Returns the members, if it holds.
fn valid<E: Zoo>(c: &Ctx, t: &Tab<E>, s: &EnumSet<E>, how: &dyn Fn() -> String) -> Option<Model> {
    c.doing("observe");
    let m = t.read(s);
    let words = t.raw_words(s);
    let (wm, extra) = t.of_words(&words);
    let n = m.iter().filter(|x| **x).count();
    let mut bad = |what: String| { c.fail("a set has a member that is not a declared variant", format!("{}: {}", how(), what)); None };
    if extra { return bad(format!("words {:x?} while the members are {}", words, t.show(&m))); }
    if wm != m { return bad(format!("words {:x?} are not the members {}", words, t.show(&m))); }
    let (num, _) = t.num(&m, 128);
    if s.as_u128_truncated() != num { return bad(format!("numeric form {:#x} of {}", s.as_u128_truncated(), t.show(&m))); }
    if vec_of(s).iter().map(|w| w.count_ones() as usize).sum::<usize>() != n { return bad(format!("to_vec() {:x?} of {}", vec_of(s), t.show(&m))); }
    if s.len() != n || s.len() > t.n || s.len() > EnumSet::<E>::variant_count() as usize { return bad(format!("len() is {} for {}", s.len(), t.show(&m))); }
    if s.iter().take(t.n + 2).any(|e| t.rank(e).is_none()) || s.iter().take(t.n + 2).count() != n { return bad(format!("iteration yields {}", t.show_ranks(&bounded(t, s.iter())))); }
    if !s.is_subset(EnumSet::all()) || !EnumSet::all().is_superset(*s) || !(*s - EnumSet::all()).is_empty() { return bad(format!("{} exceeds all()", t.show(&m))); }
    if *s != t.build(&m) { return bad(format!("not equal to the set of its members {}", t.show(&m))); }
    if !(*s & s.complement()).is_empty() || (*s | !*s) != EnumSet::all() { return bad(format!("{} and its complement do not partition all()", t.show(&m))); }
    Some(m)
}

macro_rules! ints {
    ($c:ident $t:ident $r:ident $out:ident $how:ident; $($ty:ident $try:ident $from:ident $tr:ident),*) => {{
        let k = $r.below(6);
        let mut j = 0;
        $( if { j += 1; j - 1 == k } {
            let v = dirty($t, $r, $ty::BITS);
            let (m, bad) = $t.of_num(v);
            $c.doing(stringify!($try));
            $how = format!("{}({:#x})", stringify!($try), v);
            let x = EnumSet::<E>::$try(v as $ty);
            $c.check(x.is_none() == bad, "a checked conversion is wrong about undeclared bits", || $how.clone());
            if bad { $c.count("undeclared_bits_offered", 1); }
            if let Some(s) = x { $out.push((s, Some(m.clone()), $how.clone())); }
            if $r.chance(1, 16) {
                let x = no_panic(|| EnumSet::<E>::$from(v as $ty));
                $c.check(x.is_none() == bad, "a panicking conversion is wrong about undeclared bits", || format!("{}({:#x})", stringify!($from), v));
                if let Some(s) = x { $out.push((s, Some(m.clone()), stringify!($from).into())); }
            }
            $out.push((EnumSet::<E>::$tr(v as $ty), Some(m), format!("{}({:#x})", stringify!($tr), v)));
        } )*
    }};
}
fn array<E: Zoo, const N: usize>(c: &Ctx, t: &Tab<E>, r: &mut Rng, out: &mut Vec<(EnumSet<E>, Option<Model>, String)>) {
    let v = dirty_words(t, r, N);
    let mut a = [0u64; N];
    a.copy_from_slice(&v);
    let (m, bad) = t.of_words(&v);
    if bad { c.count("undeclared_bits_offered", 1); }
    let x = EnumSet::<E>::try_from_array(a);
    c.check(x.is_none() == bad, "a checked conversion is wrong about undeclared bits", || format!("try_from_array({:x?})", a));
    if let Some(s) = x { out.push((s, Some(m.clone()), format!("try_from_array({:x?})", a))); }
    if r.chance(1, 16) {
        let x = no_panic(|| EnumSet::<E>::from_array(a));
        c.check(x.is_none() == bad, "a panicking conversion is wrong about undeclared bits", || format!("from_array({:x?})", a));
        if let Some(s) = x { out.push((s, Some(m.clone()), format!("from_array({:x?})", a))); }
    }
    out.push((EnumSet::<E>::from_array_truncated(a), Some(m), format!("from_array_truncated({:x?})", a)));
}

fn document<E: Zoo>(t: &Tab<E>, r: &mut Rng) -> Val {
    let var = |r: &mut Rng| {
        let d = E::decl();
        if d.is_empty() || r.chance(1, 8) { Val::Variant(r.below(300) as u32, "nothing".into()) } else { let i = r.below(d.len()); Val::Variant(i as u32, d[i].2.into()) }
    };
    match E::SER {
        "array" => { let n = match r.below(4) { 0 => E::WORDS, 1 => r.below(E::WORDS + 2), 2 => E::WORDS + r.below(4), _ => r.below(20) };
                     Val::Seq(dirty_words(t, r, n).iter().map(|w| Val::U(*w as u128, 64)).collect()) }
        "list" => Val::Seq((0..r.below(2 * t.n + 2)).map(|_| var(r)).collect()),
        "map" => Val::Map((0..r.below(2 * t.n + 2)).map(|_| (var(r), Val::Bool(r.bool()))).collect()),
        x => { let b: u32 = x[1..].parse().unwrap(); Val::U(dirty(t, r, b), b) }
    }
}

fn run<E: Zoo>(c: &Ctx) {
    let t = &Tab::<E>::new();
    for k in 0..c.scale * 40 {
        let mut rr = c.rng(k as u64);
        let r = &mut rr;
        let mut pool: Vec<(EnumSet<E>, Model)> = vec![(EnumSet::new(), vec![false; t.n])];
        let mut trace: Vec<String> = vec![];
        for _step in 0..30 {
            let mut out: Vec<(EnumSet<E>, Option<Model>, String)> = vec![];
            let (a, am) = r.pick(&pool).clone();
            let (b, bm) = r.pick(&pool).clone();
            let mut how = String::new();
            match r.below(13) {
                0 => {
                    c.doing("constants");
                    out.push((EnumSet::all(), Some(vec![true; t.n]), "all()".into()));
                    out.push((EnumSet::empty(), Some(vec![false; t.n]), "empty()".into()));
                    out.push((EnumSet::default(), Some(vec![false; t.n]), "default()".into()));
                    if t.n > 0 {
                        let i = t.rank_biased(r);
                        let m: Model = (0..t.n).map(|j| j == i).collect();
                        out.push((EnumSet::only(t.vars[i]), Some(m.clone()), format!("only({})", t.names[i])));
                        out.push((t.vars[i].into(), Some(m.clone()), format!("from({})", t.names[i])));
                        if E::OPS { out.push((E::not_e(t.vars[i]), Some(m.iter().map(|x| !x).collect()), format!("!{}", t.names[i]))); }
                    }
                }
                1 => {
                    c.doing("complement");
                    let m: Model = am.iter().map(|x| !x).collect();
                    out.push((!a, Some(m.clone()), "!a".into()));
                    out.push((a.complement(), Some(m), "a.complement()".into()));
                }
                2 | 3 => {
                    c.doing("algebra");
                    let op = *r.pick(&OPS);
                    let mut x = a;
                    let y = match op {
                        Op::Or => { x |= b; a | b }
                        Op::And => { x &= b; a & b }
                        Op::Sub => { x -= b; a - b }
                        Op::Xor => { x ^= b; a ^ b }
                    };
                    let m = op.model(&am, &bm);
                    out.push((y, Some(m.clone()), format!("{:?}", op)));
                    out.push((x, Some(m), format!("{:?}=", op)));
                }
                4 if t.n > 0 => {
                    c.doing("updates");
                    let i = t.rank_biased(r);
                    let (mut x, mut m) = (a, am.clone());
                    if r.bool() { x.insert(t.vars[i]); m[i] = true; } else { x.remove(t.vars[i]); m[i] = false; }
                    out.push((x, Some(m), format!("update of {}", t.names[i])));
                    let (mut x, mut m) = (a, am.clone());
                    if r.bool() { x.insert_all(b); m = Op::Or.model(&m, &bm); } else { x.remove_all(b); m = Op::Sub.model(&m, &bm); }
                    out.push((x, Some(m), "update of many".into()));
                }
                5 => ints!(c t r out how; u8 try_from_u8 from_u8 from_u8_truncated, u16 try_from_u16 from_u16 from_u16_truncated,
                           u32 try_from_u32 from_u32 from_u32_truncated, u64 try_from_u64 from_u64 from_u64_truncated,
                           u128 try_from_u128 from_u128 from_u128_truncated, usize try_from_usize from_usize from_usize_truncated),
                6 => {
                    c.doing("arrays");
                    match r.below(9) {
                        0 => array::<E, 0>(c, t, r, &mut out), 1 => array::<E, 1>(c, t, r, &mut out), 2 => array::<E, 2>(c, t, r, &mut out),
                        3 => array::<E, 3>(c, t, r, &mut out), 4 => array::<E, 4>(c, t, r, &mut out), 5 => array::<E, 5>(c, t, r, &mut out),
                        6 => array::<E, 7>(c, t, r, &mut out), 7 => array::<E, 12>(c, t, r, &mut out), _ => array::<E, 18>(c, t, r, &mut out),
                    }
                }
                7 => {
                    c.doing("slices");
                    let len = match r.below(3) { 0 => r.below(20), 1 => E::WORDS, _ => E::WORDS + r.below(3) };
                    let v = dirty_words(t, r, len);
                    let (m, bad) = t.of_words(&v);
                    if bad { c.count("undeclared_bits_offered", 1); }
                    let x = EnumSet::<E>::try_from_slice(&v);
                    c.check(x.is_none() == bad, "a checked conversion is wrong about undeclared bits", || format!("try_from_slice({:x?})", v));
                    if let Some(s) = x { out.push((s, Some(m.clone()), format!("try_from_slice({:x?})", v))); }
                    if r.chance(1, 16) {
                        let x = no_panic(|| EnumSet::<E>::from_slice(&v));
                        c.check(x.is_none() == bad, "a panicking conversion is wrong about undeclared bits", || format!("from_slice({:x?})", v));
                        if let Some(s) = x { out.push((s, Some(m.clone()), format!("from_slice({:x?})", v))); }
                    }
                    out.push((EnumSet::from_slice_truncated(&v), Some(m), format!("from_slice_truncated({:x?})", v)));
                }
                8 => if let Some(f) = E::repr() {
                    c.doing("repr");
                    let v = dirty(t, r, f.bits);
                    let (m, bad) = t.of_num(v);
                    if bad { c.count("undeclared_bits_offered", 1); }
                    let x = (f.try_from_repr)(v);
                    c.check(x.is_none() == bad, "a checked conversion is wrong about undeclared bits", || format!("try_from_repr({:#x})", v));
                    if let Some(s) = x { out.push((s, Some(m.clone()), format!("try_from_repr({:#x})", v))); }
                    if r.chance(1, 16) {
                        let x = no_panic(|| (f.from_repr)(v));
                        c.check(x.is_none() == bad, "a panicking conversion is wrong about undeclared bits", || format!("from_repr({:#x})", v));
                        if let Some(s) = x { out.push((s, Some(m.clone()), format!("from_repr({:#x})", v))); }
                    }
                    out.push(((f.from_repr_truncated)(v), Some(m), format!("from_repr_truncated({:#x})", v)));
                },
                9 | 10 => {
                    c.doing("documents");
                    let d = document(t, r);
                    let modes = modes();
                    let mode = *r.pick(&modes);
                    match no_panic(|| mode.read::<EnumSet<E>>(&d)) {
                        Some(Ok(s)) => { c.count("documents_accepted", 1); out.push((s, None, format!("{:?} as {}", d, E::SER))); }
                        Some(Err(_)) => c.count("documents_refused", 1),
                        None => c.count("documents_panicking", 1),
                    }
                    if let Ok(j) = serde_json::to_string(&a) {
                        if let Ok(Ok(s)) = no_panic(|| serde_json::from_str::<EnumSet<E>>(&j)).ok_or(()) { out.push((s, Some(am.clone()), format!("JSON {}", j))); }
                    }
                    let _ = Rec::record(&a, true);
                }
                11 => {
                    c.doing("collections");
                    let vs: Vec<E> = (0..r.below(t.n + 1)).map(|_| t.vars[r.below(t.n)]).collect();
                    out.push((vs.iter().copied().collect(), None, "collected".into()));
                    out.push((vs.iter().sum(), None, "summed".into()));
                    let mut x = a;
                    x.extend(b.iter().rev());
                    out.push((x, Some(Op::Or.model(&am, &bm)), "extended".into()));
                    out.push(([a, b, !a].iter().copied().collect(), Some(vec![true; t.n]), "collected sets".into()));
                }
                _ => {
                    c.doing("own conversions");
                    out.push((if t.width > 20 * 64 { EnumSet::from_slice_truncated(&t.raw_words(&a)) } else { EnumSet::from_array_truncated(a.as_array_truncated::<20>()) }, Some(am.clone()), "through as_array_truncated".into()));
                    out.push((EnumSet::from_slice_truncated(&vec_of(&a)), Some(am.clone()), "through to_vec".into()));
                    out.push((EnumSet::from_u128_truncated(!a.as_u128_truncated()), Some((0..t.n).map(|i| t.discs[i] < 128 && !am[i]).collect()), "from inverted as_u128_truncated".into()));
                    out.push((EnumSet::from_u64_truncated(!a.as_u64_truncated()), Some((0..t.n).map(|i| t.discs[i] < 64 && !am[i]).collect()), "from inverted as_u64_truncated".into()));
                    if t.n > 0 && E::OPS {
                        let e = t.vars[r.below(t.n)];
                        let op = *r.pick(&OPS);
                        out.push((E::op_es(op, e, a), None, format!("variant {:?} a", op)));
                    }
                }
            }
            for (s, want, how) in out {
                let h = || format!("{}, from a = {}, b = {}, after [{}]", how, t.show(&am), t.show(&bm), trace.join("; "));
                let m = match valid(c, t, &s, &h) { Some(m) => m, None => return };
                if let Some(w) = want {
                    // dropping exactly the undeclared bits keeps every declared one
                    if !c.check(w == m, "a set produced safely has the wrong members", || format!("{} gives {}, expected {}", h(), t.show(&m), t.show(&w))) { return; }
                }
                let key = mix(t.hash_model(&m), hash_bytes(how.as_bytes()));
                c.case(key, m.iter().any(|x| *x));
                if key % 997 == 0 { c.sample(|| format!("{} gives {}", how, t.show(&m))); }
                if trace.len() < 40 { trace.push(how.chars().take(60).collect()); }
                if pool.len() < 6 { pool.push((s, m)); } else { let i = r.below(6); pool[i] = (s, m); }
            }
            if c.stop() { return; }
        }
    }
}

monitor_main!("C03", run);
