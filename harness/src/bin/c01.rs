//! C01: histories of updates against the mathematical set model.
use enumset::*;
use vh::*;
include_zoo!();

const K: usize = 4;

struct File<E: Zoo> {
    set: [EnumSet<E>; K],
    model: Vec<Model>,
    /// Copies taken earlier, which nothing may change.
    kept: Vec<(EnumSet<E>, Model, usize)>,
    log: Vec<String>,
}

fn run<E: Zoo>(c: &Ctx) {
    let t = Tab::<E>::new();
    let histories = c.scale * if t.n > 100 { 12 } else if t.n > 40 { 25 } else { 60 };
    for h in 0..histories {
        let mut r = c.rng(h as u64);
        history(c, &t, &mut r, if t.n > 100 { 60 } else { 120 });
        if c.stop() {
            return;
        }
    }
}

fn history<E: Zoo>(c: &Ctx, t: &Tab<E>, r: &mut Rng, steps: usize) {
    let mut f = File { set: [EnumSet::new(); K], model: vec![vec![false; t.n]; K], kept: vec![], log: vec![] };
    for step in 0..steps {
        let (d, s) = (r.below(K), r.below(K));
        let before = f.model[d].clone();
        let kind = r.below(27);
        let desc = match apply(c, t, r, &mut f, d, s, kind) {
            Some(x) => x,
            None => return,
        };
        f.log.push(desc);
        let key = mix(mix(kind as u64, t.hash_model(&before)), mix(t.hash_model(&f.model[d]), (d == s) as u64));
        c.case(key, f.model[d] != before || before.iter().any(|x| *x));
        // the register operated on, after every step; everything else regularly and at the end
        let full = step % 8 == 7 || step + 1 == steps;
        for k in 0..K {
            if k == d || full {
                let (st, m) = (f.set[k], &f.model[k]);
                if !agree(c, t, &st, m, "a set differs from its model", || hist(&f.log, &format!("r{}", k))) {
                    return;
                }
            }
        }
        if full {
            for (st, m, at) in &f.kept {
                if !agree(c, t, st, m, "a copy taken earlier changed", || hist(&f.log, &format!("copy from step {}", at))) {
                    return;
                }
            }
            c.count("full_checks", 1);
        }
    }
    c.sample(|| hist(&f.log[..f.log.len().min(14)], "history"));
}

fn hist(log: &[String], what: &str) -> String {
    let skip = log.len().saturating_sub(60);
    format!("{} after [{}{}]", what, if skip > 0 { "..; " } else { "" }, log[skip..].join("; "))
}

/// One step. None: the step reported a violation.
fn apply<E: Zoo>(c: &Ctx, t: &Tab<E>, r: &mut Rng, f: &mut File<E>, d: usize, s: usize, kind: usize) -> Option<String> {
    let n = t.n;
    let sm = f.model[s].clone();
    let ss = f.set[s];
    macro_rules! ret_check {
        ($got:expr, $want:expr, $name:expr) => {
            if $got != $want {
                f.log.push($name.clone());
                c.fail("an update misreports whether it changed the set",
                       format!("{}: returned {}, expected {}", hist(&f.log, &format!("r{}", d)), $got, $want));
                return None;
            }
        };
    }
    macro_rules! by_model {
        ($op:expr, $other:expr) => {{
            let o = $other;
            f.model[d] = $op.model(&f.model[d], &o);
        }};
    }
    let one = |i: usize| { let mut m = vec![false; n]; m[i] = true; m };
    Some(match kind {
        0..=5 if n > 0 => {
            let i = t.rank_biased(r);
            let name = format!("r{}.insert({})", d, t.names[i]);
            c.doing(&name);
            let got = f.set[d].insert(t.vars[i]);
            ret_check!(got, !f.model[d][i], name);
            f.model[d][i] = true;
            name
        }
        6..=9 if n > 0 => {
            // prefer a member
            let mut i = t.rank_biased(r);
            let members = ranks(&f.model[d]);
            if !members.is_empty() && r.chance(2, 3) {
                i = *r.pick(&members);
            }
            let name = format!("r{}.remove({})", d, t.names[i]);
            c.doing(&name);
            let got = f.set[d].remove(t.vars[i]);
            ret_check!(got, f.model[d][i], name);
            f.model[d][i] = false;
            name
        }
        10 => {
            c.doing("clear");
            f.set[d].clear();
            f.model[d] = vec![false; n];
            format!("r{}.clear()", d)
        }
        11 => {
            c.doing("insert_all");
            f.set[d].insert_all(ss);
            by_model!(Op::Or, sm);
            format!("r{}.insert_all(r{})", d, s)
        }
        12 => {
            c.doing("remove_all");
            f.set[d].remove_all(ss);
            by_model!(Op::Sub, sm);
            format!("r{}.remove_all(r{})", d, s)
        }
        13 => {
            c.doing("insert_all");
            let m = t.random(r);
            let x = t.build(&m);
            f.set[d].insert_all(x);
            let d2 = format!("r{}.insert_all({})", d, t.show(&m));
            if !agree(c, t, &x, &m, "an argument changed", || d2.clone()) { return None; }
            by_model!(Op::Or, m);
            d2
        }
        14 => {
            c.doing("remove_all");
            let m = t.related(&f.model[d], r);
            let x = t.build(&m);
            f.set[d].remove_all(x);
            let d2 = format!("r{}.remove_all({})", d, t.show(&m));
            if !agree(c, t, &x, &m, "an argument changed", || d2.clone()) { return None; }
            by_model!(Op::Sub, m);
            d2
        }
        15..=18 => {
            let op = OPS[kind - 15];
            c.doing("assigning operator");
            match op {
                Op::Or => f.set[d] |= ss,
                Op::And => f.set[d] &= ss,
                Op::Sub => f.set[d] -= ss,
                Op::Xor => f.set[d] ^= ss,
            }
            by_model!(op, sm);
            format!("r{} {:?}= r{}", d, op, s)
        }
        19 | 20 if n > 0 => {
            let op = *r.pick(&OPS);
            let i = t.rank_biased(r);
            c.doing("assigning operator with a variant");
            match op {
                Op::Or => f.set[d] |= t.vars[i],
                Op::And => f.set[d] &= t.vars[i],
                Op::Sub => f.set[d] -= t.vars[i],
                Op::Xor => f.set[d] ^= t.vars[i],
            }
            by_model!(op, one(i));
            format!("r{} {:?}= {}", d, op, t.names[i])
        }
        21 if n > 0 => {
            c.doing("extend with variants");
            let k = r.below(6);
            let v: Vec<usize> = (0..k).map(|_| t.rank_biased(r)).collect();
            f.set[d].extend(v.iter().map(|i| t.vars[*i]));
            for i in &v {
                f.model[d][*i] = true;
            }
            format!("r{}.extend({:?})", d, v.iter().map(|i| t.names[*i]).collect::<Vec<_>>())
        }
        22 => {
            c.doing("extend with sets");
            let ms: Vec<Model> = (0..r.below(4)).map(|_| t.random(r)).collect();
            let xs: Vec<EnumSet<E>> = ms.iter().map(|m| t.build(m)).collect();
            f.set[d].extend(xs.iter().copied());
            for m in &ms {
                by_model!(Op::Or, m.clone());
            }
            format!("r{}.extend({} sets: {})", d, ms.len(), ms.iter().map(|m| t.show(m)).collect::<Vec<_>>().join(", "))
        }
        23 => {
            c.doing("copy");
            f.set[d] = f.set[s];
            f.model[d] = sm;
            format!("r{} = r{}", d, s)
        }
        24 => {
            c.doing("mem::take");
            if d != s {
                f.set[d] = std::mem::take(&mut f.set[s]);
                f.model[d] = sm;
                f.model[s] = vec![false; n];
            }
            format!("r{} = take(r{})", d, s)
        }
        25 => {
            c.doing("clone kept");
            if f.kept.len() < 12 {
                #[allow(clippy::clone_on_copy)]
                f.kept.push((f.set[d].clone(), f.model[d].clone(), f.log.len()));
            }
            format!("keep r{}", d)
        }
        _ => {
            // a fresh starting point
            c.doing("rebuild");
            let m = t.random(r);
            f.set[d] = t.build(&m);
            f.model[d] = m;
            format!("r{} = {}", d, t.show(&f.model[d]))
        }
    })
}

monitor_main!("C01", run);
