//! C02: algebra and relations against membership of the operands.
use enumset::*;
use vh::*;
include_zoo!();

fn run<E: Zoo>(c: &Ctx) {
    let t = Tab::<E>::new();
    let n = t.n;
    constants(c, &t);
    if let Some(all) = t.all_models(if c.scale > 4 { 6 } else { 5 }) {
        for a in &all {
            for b in &all {
                pair(c, &t, a, b);
            }
            if c.stop() { return; }
        }
        c.count("enums_with_every_pair", 1);
    }
    if let Some(all) = t.all_models(10) {
        for a in &all {
            single(c, &t, a);
        }
        c.count("enums_with_every_set", 1);
    }
    let rounds = c.scale * if n > 100 { 60 } else { 160 };
    for i in 0..rounds {
        let mut r = c.rng(i as u64);
        let a = t.random(&mut r);
        let b = t.related(&a, &mut r);
        pair(c, &t, &a, &b);
        single(c, &t, &a);
        if n > 0 {
            for _ in 0..3 {
                let k = t.rank_biased(&mut r);
                with_variant(c, &t, &a, k);
                two_variants(c, &t, k, t.rank_biased(&mut r));
            }
        }
        if c.stop() { return; }
    }
    // every variant against the empty, the full and one random set
    let mut r = c.rng(1 << 40);
    for k in 0..n {
        with_variant(c, &t, &vec![false; n], k);
        with_variant(c, &t, &vec![true; n], k);
        with_variant(c, &t, &t.random(&mut r), k);
        two_variants(c, &t, k, k);
        two_variants(c, &t, k, n - 1 - k);
        if c.stop() { return; }
    }
}

fn constants<E: Zoo>(c: &Ctx, t: &Tab<E>) {
    c.doing("constants");
    let none = vec![false; t.n];
    let full = vec![true; t.n];
    #[allow(deprecated)]
    for (what, s, m) in [
        ("new()", EnumSet::<E>::new(), &none),
        ("empty()", EnumSet::<E>::empty(), &none),
        ("default()", EnumSet::<E>::default(), &none),
        ("EMPTY", EnumSet::<E>::EMPTY, &none),
        ("all()", EnumSet::<E>::all(), &full),
        ("ALL", EnumSet::<E>::ALL, &full),
    ] {
        agree(c, t, &s, m, "a constant set has the wrong members", || what.into());
        c.case(mix(7, hash_bytes(what.as_bytes())), t.n > 0);
    }
    for k in 0..t.n {
        let mut m = none.clone();
        m[k] = true;
        agree(c, t, &EnumSet::only(t.vars[k]), &m, "only() has the wrong members", || format!("only({})", t.names[k]));
        agree(c, t, &EnumSet::from(t.vars[k]), &m, "From has the wrong members", || format!("from({})", t.names[k]));
        c.case(mix(8, k as u64), true);
    }
}

fn pair<E: Zoo>(c: &Ctx, t: &Tab<E>, a: &Model, b: &Model) {
    let (sa, sb) = (t.build(a), t.build(b));
    // what matters is the membership the operands report
    let (a, b) = (&t.read(&sa), &t.read(&sb));
    let (ca, cb) = (sa, sb);
    for op in OPS {
        let m = op.model(a, b);
        let how = |s: &str| format!("{} {:?} {} by {}", t.show(a), op, t.show(b), s);
        c.doing("binary operation");
        let by_method = match op {
            Op::Or => sa.union(sb),
            Op::And => sa.intersection(sb),
            Op::Sub => sa.difference(sb),
            Op::Xor => sa.symmetrical_difference(sb),
        };
        agree(c, t, &by_method, &m, "a set operation has the wrong members", || how("method"));
        let by_op = match op {
            Op::Or => sa | sb,
            Op::And => sa & sb,
            Op::Sub => sa - sb,
            Op::Xor => sa ^ sb,
        };
        agree(c, t, &by_op, &m, "a set operation has the wrong members", || how("operator"));
        let mut by_assign = sa;
        match op {
            Op::Or => by_assign |= sb,
            Op::And => by_assign &= sb,
            Op::Sub => by_assign -= sb,
            Op::Xor => by_assign ^= sb,
        }
        agree(c, t, &by_assign, &m, "a set operation has the wrong members", || how("assigning operator"));
        // with the very same object on both sides
        if op == Op::Or || op == Op::And {
            let mut x = sa;
            match op {
                Op::Or => x |= x,
                _ => x &= x,
            }
            agree(c, t, &x, a, "a set operation with itself has the wrong members", || how("self-assignment"));
        }
        // chained
        let chain = match op {
            Op::Or => sa.union(sb).union(sa),
            Op::And => sa.intersection(sb).intersection(sb),
            Op::Sub => sa.difference(sb).difference(sb),
            Op::Xor => sa.symmetrical_difference(sb).symmetrical_difference(sb),
        };
        let cm = match op {
            Op::Or => Op::Or.model(&m, a),
            Op::And => Op::And.model(&m, b),
            Op::Sub => Op::Sub.model(&m, b),
            Op::Xor => Op::Xor.model(&m, b),
        };
        agree(c, t, &chain, &cm, "a chained set operation has the wrong members", || how("chain"));
    }
    let mut ia = sa;
    ia.insert_all(sb);
    agree(c, t, &ia, &Op::Or.model(a, b), "insert_all has the wrong members", || format!("{} + {}", t.show(a), t.show(b)));
    let mut ra = sa;
    ra.remove_all(sb);
    agree(c, t, &ra, &Op::Sub.model(a, b), "remove_all has the wrong members", || format!("{} - {}", t.show(a), t.show(b)));

    c.doing("relation");
    let zip = || a.iter().zip(b);
    let rel = |name: &str, got: bool, want: bool| {
        c.check(got == want, "a relation disagrees with membership",
                || format!("{} {} {} is {} but membership says {}", t.show(a), name, t.show(b), got, want));
    };
    let sub = zip().all(|(x, y)| !x || *y);
    let sup = zip().all(|(x, y)| !y || *x);
    let dis = zip().all(|(x, y)| !(*x && *y));
    rel("is_subset", sa.is_subset(sb), sub);
    rel("is_superset", sa.is_superset(sb), sup);
    rel("is_disjoint", sa.is_disjoint(sb), dis);
    rel("is_subset (swapped)", sb.is_superset(sa), sub);
    rel("is_disjoint (swapped)", sb.is_disjoint(sa), dis);
    // the operands are what they were
    agree(c, t, &ca, a, "an operand changed", || "left operand".into());
    agree(c, t, &cb, b, "an operand changed", || "right operand".into());
    let key = mix(t.hash_model(a), t.hash_model(b));
    c.case(key, a.iter().any(|x| *x) && b.iter().any(|x| *x));
    if key % 50 == 0 {
        c.sample(|| format!("{} with {}: subset {}, superset {}, disjoint {}", t.show(a), t.show(b), sub, sup, dis));
    }
}

fn single<E: Zoo>(c: &Ctx, t: &Tab<E>, a: &Model) {
    let s = t.build(a);
    let a = &t.read(&s);
    let not: Model = a.iter().map(|x| !x).collect();
    c.doing("complement");
    agree(c, t, &s.complement(), &not, "complement has the wrong members", || format!("complement of {}", t.show(a)));
    agree(c, t, &!s, &not, "! has the wrong members", || format!("! of {}", t.show(a)));
    agree(c, t, &!!s, a, "double complement has the wrong members", || format!("!! of {}", t.show(a)));
    let n = a.iter().filter(|x| **x).count();
    c.check(s.len() == n, "len disagrees with membership", || format!("{} for {}", s.len(), t.show(a)));
    c.check(s.is_empty() == (n == 0), "is_empty disagrees with membership", || t.show(a));
    c.check(s.is_superset(EnumSet::all()) == (n == t.n), "is_superset(all()) disagrees with membership", || t.show(a));
    c.check(s.is_subset(EnumSet::all()), "not a subset of all()", || t.show(a));
    c.check(s.is_subset(s) && s.is_superset(s), "not a subset of itself", || t.show(a));
    c.case(mix(1, t.hash_model(a)), n > 0);
}

fn with_variant<E: Zoo>(c: &Ctx, t: &Tab<E>, a: &Model, k: usize) {
    let s = t.build(a);
    let a = &t.read(&s);
    let v = t.vars[k];
    let mut one = vec![false; t.n];
    one[k] = true;
    c.doing("operation with a variant");
    for op in OPS {
        let m = op.model(a, &one);
        let how = |s: &str| format!("{} {:?} {} by {}", t.show(a), op, t.names[k], s);
        let x = match op { Op::Or => s | v, Op::And => s & v, Op::Sub => s - v, Op::Xor => s ^ v };
        agree(c, t, &x, &m, "an operation with a variant has the wrong members", || how("set-variant operator"));
        let mut y = s;
        match op { Op::Or => y |= v, Op::And => y &= v, Op::Sub => y -= v, Op::Xor => y ^= v }
        agree(c, t, &y, &m, "an operation with a variant has the wrong members", || how("assigning operator"));
        if E::OPS {
            let z = E::op_es(op, v, s);
            agree(c, t, &z, &op.model(&one, a), "an operation with a variant has the wrong members",
                  || format!("{} {:?} {} by variant-set operator", t.names[k], op, t.show(a)));
        }
    }
    if E::OPS {
        let not: Model = one.iter().map(|x| !x).collect();
        agree(c, t, &E::not_e(v), &not, "! of a variant has the wrong members", || format!("!{}", t.names[k]));
    }
    c.case(mix(mix(2, k as u64), t.hash_model(a)), true);
}

fn two_variants<E: Zoo>(c: &Ctx, t: &Tab<E>, i: usize, j: usize) {
    if !E::OPS { return; }
    c.doing("operation on two variants");
    let mut a = vec![false; t.n];
    a[i] = true;
    let mut b = vec![false; t.n];
    b[j] = true;
    for op in OPS {
        let x = E::op_ee(op, t.vars[i], t.vars[j]);
        agree(c, t, &x, &op.model(&a, &b), "an operation on two variants has the wrong members",
              || format!("{} {:?} {}", t.names[i], op, t.names[j]));
    }
    c.case(mix(mix(3, i as u64), j as u64), true);
}

monitor_main!("C02", run);
