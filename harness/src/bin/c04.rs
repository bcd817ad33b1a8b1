//! C04: iterators against a double-ended queue of the members.
use enumset::*;
use std::collections::VecDeque;
use vh::*;
include_zoo!();

fn run<E: Zoo>(c: &Ctx) {
    let t = Tab::<E>::new();
    // every set, every forward/backward split, where that is affordable
    if let Some(all) = t.all_models(6) {
        for m in &all {
            let k = m.iter().filter(|x| **x).count();
            for order in 0u32..1 << (k + 1).min(7) {
                scripted(c, &t, m, order, k + 3);
            }
            if c.stop() { return; }
        }
        c.count("enums_with_every_interleaving", 1);
    }
    whole(c, &t, &vec![true; t.n]);
    whole(c, &t, &vec![false; t.n]);
    let rounds = c.scale * if t.n > 100 { 60 } else { 150 };
    for i in 0..rounds {
        let mut r = c.rng(i as u64);
        let m = t.random(&mut r);
        whole(c, &t, &m);
        session(c, &t, &m, &mut r);
        session(c, &t, &m, &mut r);
        if c.stop() { return; }
    }
}

fn show<E: Zoo>(t: &Tab<E>, log: &[String], m: &Model) -> String {
    let skip = log.len().saturating_sub(80);
    format!("iter over {}: {}{}", t.show(m), if skip > 0 { ".., " } else { "" }, log[skip..].join(", "))
}

/// len and size_hint against the number of remaining members.
fn sizes<E: Zoo>(it: &EnumSetIter<E>, left: usize) -> Option<String> {
    let h = it.size_hint();
    if h != (left, Some(left)) {
        return Some(format!("size_hint is {:?} with {} left", h, left));
    }
    let l = it.len();
    if l != left {
        return Some(format!("len is {} with {} left", l, left));
    }
    None
}

fn scripted<E: Zoo>(c: &Ctx, t: &Tab<E>, m: &Model, order: u32, steps: usize) {
    let s = t.build(m);
    let mut q: VecDeque<usize> = ranks(m).into();
    let mut it = s.iter();
    let mut log = vec![];
    c.doing("interleaving of next and next_back");
    for i in 0..steps {
        let back = order >> (i % 32) & 1 == 1;
        let (got, want) = if back { (it.next_back(), q.pop_back()) } else { (it.next(), q.pop_front()) };
        log.push(if back { "back".to_string() } else { "next".to_string() });
        let g = got.map(|e| t.rank(e));
        if g != want.map(Some) {
            c.fail("an iterator yields the wrong member", format!("{} gave {}, expected {:?}", show(t, &log, m),
                   t.show_ranks(&g.into_iter().collect::<Vec<_>>()), want.map(|i| t.names[i])));
            return;
        }
        if let Some(d) = sizes(&it, q.len()) {
            c.fail("an iterator misreports its length", format!("{}: {}", show(t, &log, m), d));
            return;
        }
    }
    c.case(mix(t.hash_model(m), order as u64 + 1), m.iter().any(|x| *x));
}

/// Whole-iterator consumers on one set.
fn whole<E: Zoo>(c: &Ctx, t: &Tab<E>, m: &Model) {
    let s = t.build(m);
    let want: Vec<usize> = ranks(m);
    let back: Vec<usize> = want.iter().rev().copied().collect();
    let some = |v: &[usize]| v.iter().map(|x| Some(*x)).collect::<Vec<_>>();
    let expect = |what: &str, got: Vec<Option<usize>>, want: &[usize]| {
        if got != some(want) {
            c.fail("iteration yields the wrong members", format!("{} over {}: {}", what, t.show(m), t.show_ranks(&got)));
        }
    };
    c.doing("whole iteration");
    expect("iter", bounded(t, s.iter()), &want);
    expect("into_iter", bounded(t, s.into_iter()), &want);
    expect("rev", bounded(t, s.iter().rev()), &back);
    if c.stop() { return; } // the consumers below do not stop by themselves
    let mut v = vec![];
    for e in s { v.push(t.rank(e)); if v.len() > t.n { break; } }
    expect("for loop", v, &want);
    let mut v = vec![];
    s.iter().for_each(|e| v.push(t.rank(e)));
    expect("for_each", v, &want);
    expect("fold", s.iter().fold(vec![], |mut v, e| { v.push(t.rank(e)); v }), &want);
    expect("rfold", s.iter().rfold(vec![], |mut v, e| { v.push(t.rank(e)); v }), &back);
    expect("collect", s.iter().map(|e| t.rank(e)).collect(), &want);
    expect("collect rev", s.iter().rev().map(|e| t.rank(e)).collect(), &back);
    c.check(s.iter().count() == want.len(), "count() is wrong", || t.show(m));
    c.check(s.iter().last().map(|e| t.rank(e)) == want.last().map(|x| Some(*x)), "last() is wrong", || t.show(m));
    c.check(s.iter().min_by_key(|e| t.rank(*e)).map(|e| t.rank(e)) == want.first().map(|x| Some(*x)), "min is wrong", || t.show(m));
    let (a, b): (Vec<_>, Vec<_>) = s.iter().map(|e| t.rank(e)).partition(|x| x.map_or(0, |i| i) % 2 == 0);
    let mut ab = [a, b].concat();
    ab.sort();
    expect("partition", ab, &want);
    c.check(s.iter().len() == want.len(), "len() is wrong", || t.show(m));
    c.case(mix(0x77, t.hash_model(m)), !want.is_empty());
}

/// A random session of calls on one iterator, its clones and its set.
fn session<E: Zoo>(c: &Ctx, t: &Tab<E>, m: &Model, r: &mut Rng) {
    let mut s = t.build(m);
    let mut its: Vec<(EnumSetIter<E>, VecDeque<usize>)> = vec![(s.iter(), ranks(m).into())];
    let mut log: Vec<String> = vec![];
    let mut key = mix(5, t.hash_model(m));
    let steps = r.range(4, 12 + 2 * t.n.min(60));
    for _ in 0..steps {
        let i = r.below(its.len());
        let left = its[i].1.len();
        let act = r.below(23);
        key = mix(key, (act * 4 + i + 1000 * (act > 19) as usize) as u64);
        let arg = match r.below(8) {
            0 => 0,
            1 => 1,
            2 => left,
            3 => left.saturating_sub(1),
            4 => left + 1,
            5 => usize::MAX,
            _ => r.below(t.n + 2),
        };
        let bad = |log: &[String], d: String| {
            c.fail("an iterator misbehaves", format!("{}: {}", show(t, log, m), d));
        };
        macro_rules! cmp {
            ($name:expr, $got:expr, $want:expr) => {{
                log.push(format!("it{}.{}", i, $name));
                c.doing(log.last().unwrap());
                let got: Option<E> = $got;
                let g: Option<Option<usize>> = got.map(|e| t.rank(e));
                let w: Option<usize> = $want;
                if g != w.map(Some) {
                    bad(&log, format!("gave {}, expected {:?}", t.show_ranks(&g.into_iter().collect::<Vec<_>>()), w.map(|x| t.names[x])));
                    return;
                }
            }};
        }
        let (it, q) = { let p = &mut its[i]; (&mut p.0, &mut p.1) };
        match act {
            0..=3 => cmp!("next()", it.next(), q.pop_front()),
            4..=7 => cmp!("next_back()", it.next_back(), q.pop_back()),
            8 => cmp!(format!("nth({})", arg), it.nth(arg), { for _ in 0..arg.min(q.len()) { q.pop_front(); } q.pop_front() }),
            9 => cmp!(format!("nth_back({})", arg), it.nth_back(arg), { for _ in 0..arg.min(q.len()) { q.pop_back(); } q.pop_back() }),
            10 => {
                // the clone goes on by itself
                if its.len() < 4 {
                    let cl = (its[i].0.clone(), its[i].1.clone());
                    log.push(format!("it{} = it{}.clone()", its.len(), i));
                    its.push(cl);
                }
            }
            11 => {
                // changes of the set must not reach the iterators
                match r.below(4) {
                    0 => s.clear(),
                    1 => s = EnumSet::all(),
                    2 => { if t.n > 0 { let k = r.below(t.n); s ^= t.vars[k]; } }
                    _ => s = !s,
                }
                log.push("the set changes".into());
            }
            12 => {
                let k = arg.min(1000);
                log.push(format!("it{}.by_ref().take({})", i, k));
                let got: Vec<Option<usize>> = it.by_ref().take(k).take(t.n + 2).map(|e| t.rank(e)).collect();
                let want: Vec<Option<usize>> = (0..k.min(q.len())).map(|_| q.pop_front()).collect();
                if got != want { bad(&log, t.show_ranks(&got)); return; }
            }
            13 if t.n > 0 => {
                // stops at the first match, both ways
                let k = r.below(t.n);
                let backwards = r.bool();
                log.push(format!("it{}.{}(>= / <= {})", i, if backwards { "rfind" } else { "find" }, t.names[k]));
                let got = if backwards { it.rfind(|e| t.rank(*e).map_or(true, |x| x <= k)) } else { it.find(|e| t.rank(*e).map_or(true, |x| x >= k)) };
                let want = loop {
                    let x = if backwards { q.pop_back() } else { q.pop_front() };
                    match x { None => break None, Some(x) if (backwards && x <= k) || (!backwards && x >= k) => break Some(x), _ => {} }
                };
                let g = got.map(|e| t.rank(e));
                if g != want.map(Some) { bad(&log, format!("{:?}, expected {:?}", g, want)); return; }
            }
            14 => {
                let st = r.range(1, 5);
                log.push(format!("it{}.clone().step_by({})", i, st));
                let got: Vec<Option<usize>> = it.clone().step_by(st).take(t.n + 2).map(|e| t.rank(e)).collect();
                let want: Vec<Option<usize>> = q.iter().copied().step_by(st).map(Some).collect();
                if got != want { bad(&log, t.show_ranks(&got)); return; }
            }
            15 => {
                let k = arg.min(1000);
                log.push(format!("it{}.clone().skip({}).rev()", i, k));
                let got: Vec<Option<usize>> = it.clone().skip(k).rev().take(t.n + 2).map(|e| t.rank(e)).collect();
                let want: Vec<Option<usize>> = q.iter().copied().skip(k).rev().map(Some).collect();
                if got != want { bad(&log, t.show_ranks(&got)); return; }
            }
            16 => {
                let a = its[0].0.clone();
                log.push(format!("it{}.clone().chain(it0.clone())", i));
                let lim = 2 * t.n + 4;
                let got: Vec<Option<usize>> = its[i].0.clone().chain(a).take(lim).map(|e| t.rank(e)).collect();
                let want: Vec<Option<usize>> = its[i].1.iter().chain(its[0].1.iter()).map(|x| Some(*x)).collect();
                if got != want { bad(&log, t.show_ranks(&got)); return; }
                let p: Vec<_> = its[i].0.clone().zip(its[0].0.clone().rev()).take(lim).map(|(x, y)| (t.rank(x), t.rank(y))).collect();
                let pw: Vec<_> = its[i].1.iter().zip(its[0].1.iter().rev()).map(|(x, y)| (Some(*x), Some(*y))).collect();
                if p != pw { bad(&log, format!("zip gave {:?}", p)); return; }
            }
            17 => {
                // position and rposition consume up to the match
                if !q.is_empty() {
                    let k = q[r.below(q.len())];
                    log.push(format!("it{}.position({})", i, t.names[k]));
                    let got = it.position(|e| t.rank(e) == Some(k));
                    let mut want = None;
                    let mut p = 0;
                    while let Some(x) = q.pop_front() {
                        if x == k { want = Some(p); break; }
                        p += 1;
                    }
                    if got != want { bad(&log, format!("{:?}, expected {:?}", got, want)); return; }
                }
            }
            18 => {
                // enumerate/peekable from the back: relies on the exact length
                log.push(format!("it{}.clone().enumerate().rev()", i));
                let got: Vec<_> = it.clone().enumerate().rev().take(t.n + 2).map(|(k, e)| (k, t.rank(e))).collect();
                let want: Vec<_> = q.iter().copied().enumerate().map(|(k, x)| (k, Some(x))).rev().collect();
                if got != want { bad(&log, format!("{:?}", got)); return; }
            }
            19 => {
                // whole consumers on what is left, both ways; none of them may fall back on the full set
                log.push(format!("it{}.clone() consumed whole", i));
                let w: Vec<Option<usize>> = q.iter().copied().map(Some).collect();
                let b: Vec<Option<usize>> = w.iter().rev().copied().collect();
                let it = it.clone();
                let cl = || it.clone();
                let push = |mut v: Vec<Option<usize>>, e: E| { v.push(t.rank(e)); v };
                let odd = |e: &E| t.rank(*e).map_or(false, |x| x % 2 == 1);
                let as_set: EnumSet<E> = cl().collect();
                let mut each = vec![];
                cl().for_each(|e| each.push(t.rank(e)));
                let mut looped = vec![];
                for e in cl() { looped.push(t.rank(e)); if looped.len() > t.n { break; } }
                let (x, y): (Vec<E>, Vec<E>) = cl().partition(odd);
                let (wx, wy): (Vec<Option<usize>>, Vec<Option<usize>>) = w.iter().copied().partition(|x| x.map_or(false, |x| x % 2 == 1));
                let sub = |v: Vec<E>| v.into_iter().map(|e| t.rank(e)).collect::<Vec<_>>();
                let mut ext: Vec<E> = vec![];
                ext.extend(cl());
                // the variants' own order, which is not that of their discriminants
                let own: Vec<E> = q.iter().map(|x| t.vars[*x]).collect();
                let (lo, hi) = (own.iter().copied().min().map(|e| t.rank(e)), own.iter().copied().max().map(|e| t.rank(e)));
                let other = its[0].0.clone();
                let theirs: Vec<E> = its[0].1.iter().map(|x| t.vars[*x]).collect();
                let mut sorted: Vec<E> = cl().collect();
                sorted.sort();
                let mut sorted_own = own.clone();
                sorted_own.sort();
                for (what, ok) in [
                    ("fold", cl().fold(vec![], push) == w),
                    ("rfold", cl().rfold(vec![], push) == b),
                    ("rev().fold", cl().rev().fold(vec![], push) == b),
                    ("for_each", each == w),
                    ("for", looped == w),
                    ("count", cl().count() == w.len()),
                    ("rev().count", cl().rev().count() == w.len()),
                    ("last", cl().last().map(|e| t.rank(e)) == w.last().copied()),
                    ("rev().last", cl().rev().last().map(|e| t.rank(e)) == w.first().copied()),
                    ("min_by_key", cl().min_by_key(|e| t.rank(*e)).map(|e| t.rank(e)) == w.first().copied()),
                    ("max_by_key", cl().max_by_key(|e| t.rank(*e)).map(|e| t.rank(e)) == w.last().copied()),
                    ("min", cl().min().map(|e| t.rank(e)) == lo),
                    ("max", cl().max().map(|e| t.rank(e)) == hi),
                    ("rev().min", cl().rev().min().map(|e| t.rank(e)) == lo),
                    ("rev().max", cl().rev().max().map(|e| t.rank(e)) == hi),
                    ("min_by", cl().min_by(|x, y| y.cmp(x)).map(|e| t.rank(e)) == hi),
                    ("max_by", cl().max_by(|x, y| y.cmp(x)).map(|e| t.rank(e)) == lo),
                    ("is_sorted", cl().is_sorted() == own.is_sorted()),
                    ("is_sorted_by_key", cl().is_sorted_by_key(|e| t.rank(e))),
                    ("cmp", cl().cmp(other.clone()) == own.iter().cmp(theirs.iter())),
                    ("partial_cmp", cl().partial_cmp(other.clone()) == own.iter().partial_cmp(theirs.iter())),
                    ("lt", cl().lt(other.clone()) == own.iter().lt(theirs.iter())),
                    ("iter eq", cl().eq(other.clone()) == own.iter().eq(theirs.iter())),
                    ("sort", sub(sorted) == sub(sorted_own)),
                    ("reduce", cl().reduce(|_, e| e).map(|e| t.rank(e)) == w.last().copied()),
                    ("collect::<EnumSet>", sub(as_set.iter().collect()) == w),
                    ("sum", cl().sum::<EnumSet<E>>() == as_set),
                    ("partition", sub(x) == wx && sub(y) == wy),
                    ("extend", sub(ext) == w),
                    ("filter", sub(cl().filter(odd).collect()) == wx),
                    ("filter rev", sub(cl().filter(odd).rev().collect()) == wx.iter().rev().copied().collect::<Vec<_>>()),
                    ("any", cl().any(|e| odd(&e)) == !wx.is_empty()),
                    ("all", cl().all(|e| odd(&e)) == wy.is_empty()),
                    ("eq", cl().map(|e| t.rank(e)).eq(w.iter().copied())),
                    ("ne rev", cl().map(|e| t.rank(e)).rev().eq(b.iter().copied())),
                    ("fuse", sub(cl().fuse().collect()) == w),
                    ("take_while", sub(cl().take_while(|e| !odd(e)).collect()) == w.iter().copied().take_while(|x| x.map_or(true, |x| x % 2 == 0)).collect::<Vec<_>>()),
                    ("skip_while", sub(cl().skip_while(|e| !odd(e)).collect()) == w.iter().copied().skip_while(|x| x.map_or(true, |x| x % 2 == 0)).collect::<Vec<_>>()),
                    ("cycle", sub(cl().cycle().take(2 * w.len() + 1).collect()) == w.iter().copied().cycle().take(2 * w.len() + 1).collect::<Vec<_>>()),
                    ("scan", cl().scan(0usize, |n, e| { *n += 1; Some((*n, t.rank(e))) }).collect::<Vec<_>>() == w.iter().copied().enumerate().map(|(k, x)| (k + 1, x)).collect::<Vec<_>>()),
                ] {
                    if !ok { bad(&log, format!("{} disagrees", what)); return; }
                }
            }
            20 => {
                // stopped in the middle and gone on with, from either end
                let k = arg.min(1000);
                let back = r.bool();
                log.push(format!("it{}.{}({} steps)", i, if back { "try_rfold" } else { "try_fold" }, k));
                let mut got = vec![];
                let mut want = vec![];
                let mut n = 0;
                let mut f = |_: (), e: E| { got.push(t.rank(e)); n += 1; if n > k { Err(()) } else { Ok(()) } };
                let res = if back { it.try_rfold((), &mut f) } else { it.try_fold((), &mut f) };
                while want.len() <= k {
                    match if back { q.pop_back() } else { q.pop_front() } { Some(x) => want.push(Some(x)), None => break }
                }
                if got != want || res.is_err() != (want.len() > k) { bad(&log, format!("saw {}, {:?}", t.show_ranks(&got), res)); return; }
            }
            21 => {
                // an iterator replaced, swapped, moved
                log.push(format!("it{} moved", i));
                let j = r.below(its.len());
                its.swap(i, j);
                let p = std::mem::replace(&mut its[j].0, s.iter());
                let moved = Box::new(p);
                its[j].0 = *moved;
            }
            _ => {
                // exhausted iterators stay exhausted
                if q.is_empty() {
                    log.push(format!("it{} again at its end", i));
                    for k in 0..6 {
                        let x = if (key >> k) & 1 == 0 { it.next() } else { it.next_back() };
                        if x.is_some() { bad(&log, "yields again after its end".into()); return; }
                    }
                }
            }
        }
        for (k, (it, q)) in its.iter().enumerate() {
            if let Some(d) = sizes(it, q.len()) {
                c.fail("an iterator misreports its length", format!("{}: it{} {}", show(t, &log, m), k, d));
                return;
            }
        }
    }
    // drain everything, alternating ends, then insist on None from both
    for (k, (it, q)) in its.iter_mut().enumerate() {
        let mut turn = r.u64();
        for _ in 0..t.n + 4 {
            let back = turn & 1 == 1;
            turn = turn.rotate_right(1);
            let (g, w) = if back { (it.next_back(), q.pop_back()) } else { (it.next(), q.pop_front()) };
            if g.map(|e| t.rank(e)) != w.map(Some) {
                c.fail("an iterator misbehaves", format!("{}: draining it{} {} disagrees: {:?} expected {:?}", show(t, &log, m), k,
                       if back { "backwards" } else { "forwards" }, g.map(|e| t.rank(e)), w));
                return;
            }
        }
        if let Some(d) = sizes(it, 0) {
            c.fail("an iterator misreports its length", format!("{}: exhausted it{} {}", show(t, &log, m), k, d));
        }
    }
    c.case(key, m.iter().any(|x| *x));
    if key % 64 == 0 { c.sample(|| show(t, &log, m)); }
}

monitor_main!("C04", run);
