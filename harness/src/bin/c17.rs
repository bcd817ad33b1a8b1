//! C17: sets built from iterators, however the iterators behave.
use enumset::*;
use std::cell::Cell;
use vh::*;
include_zoo!();

/// An iterator with a size hint of its own choosing, which may panic at some point.
struct Feed<'a, T> {
    items: &'a [T],
    pos: &'a Cell<usize>,
    hint: (usize, Option<usize>),
    panic_at: usize,
}
impl<'a, T: Copy> Iterator for Feed<'a, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let p = self.pos.get();
        if p == self.panic_at {
            panic!("the iterator fails");
        }
        self.pos.set(p + 1);
        match self.items.get(p) {
            Some(x) => Some(*x),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

fn run<E: Zoo>(c: &Ctx) {
    let t = Tab::<E>::new();
    let rounds = c.scale * if t.n > 100 { 60 } else { 150 };
    basics(c, &t);
    for k in 0..rounds {
        let mut r = c.rng(k as u64);
        variants(c, &t, &mut r);
        sets(c, &t, &mut r);
        if c.stop() { return; }
    }
}

fn basics<E: Zoo>(c: &Ctx, t: &Tab<E>) {
    let none = vec![false; t.n];
    agree(c, t, &EnumSet::default(), &none, "Default is not the empty set", || "default()".into());
    agree(c, t, &std::iter::empty::<E>().collect(), &none, "collecting nothing is not the empty set", || "collect".into());
    agree(c, t, &std::iter::empty::<EnumSet<E>>().sum(), &none, "summing nothing is not the empty set", || "sum".into());
    agree(c, t, &std::iter::empty::<E>().sum(), &none, "summing nothing is not the empty set", || "sum".into());
    for i in 0..t.n {
        let mut m = none.clone();
        m[i] = true;
        agree(c, t, &EnumSet::from(t.vars[i]), &m, "From is not the singleton", || t.names[i].into());
        let s: EnumSet<E> = t.vars[i].into();
        agree(c, t, &s, &m, "into is not the singleton", || t.names[i].into());
        agree(c, t, &std::iter::once(t.vars[i]).collect(), &m, "collecting one variant is not the singleton", || t.names[i].into());
        agree(c, t, &Some(t.vars[i]).into_iter().sum(), &m, "summing one variant is not the singleton", || t.names[i].into());
        c.case(mix(9, i as u64), true);
    }
}

fn hint(r: &mut Rng, len: usize) -> (usize, Option<usize>) {
    match r.below(6) {
        0 => (len, Some(len)),
        1 => (0, None),
        2 => (0, Some(0)),
        3 => (usize::MAX, None),
        4 => (len + 5, Some(len + 9)),
        _ => (r.below(len + 1), None),
    }
}

fn variants<E: Zoo>(c: &Ctx, t: &Tab<E>, r: &mut Rng) {
    if t.n == 0 { return; }
    let len = match r.below(5) { 0 => 0, 1 => 1, 2 => r.range(1, 5), 3 => r.range(1, 40), _ => r.range(1, 3 * t.n) };
    let pool = r.range(1, t.n);
    let ids: Vec<usize> = (0..len).map(|_| if r.chance(3, 4) { t.rank_biased(r) } else { r.below(pool) }).collect();
    let items: Vec<E> = ids.iter().map(|i| t.vars[*i]).collect();
    let start_m = t.random(r);
    let start = t.build(&start_m);
    let union = |base: &Model, upto: usize| { let mut m = base.clone(); for i in &ids[..upto] { m[*i] = true; } m };
    let h = hint(r, len);
    let none = vec![false; t.n];
    let show = |how: &str| format!("{} of {:?} (hint {:?}) starting from {}", how, ids.iter().map(|i| t.names[*i]).collect::<Vec<_>>(), h, t.show(&start_m));
    let pos = Cell::new(0);
    macro_rules! feed {
        () => {{ pos.set(0); Feed { items: &items, pos: &pos, hint: h, panic_at: usize::MAX } }};
    }
    c.doing("extend with variants");
    let mut s = start;
    s.extend(feed!());
    agree(c, t, &s, &union(&start_m, len), "extend is not the union", || show("extend"));
    let s: EnumSet<E> = feed!().collect();
    agree(c, t, &s, &union(&none, len), "collect is not the union", || show("collect"));
    let s: EnumSet<E> = feed!().sum();
    agree(c, t, &s, &union(&none, len), "sum is not the union", || show("sum"));
    let s: EnumSet<E> = items.iter().sum();
    agree(c, t, &s, &union(&none, len), "sum of references is not the union", || show("sum by reference"));
    // adaptors of many kinds
    let s: EnumSet<E> = items.iter().copied().rev().chain(start).filter(|_| true).collect();
    agree(c, t, &s, &union(&start_m, len), "collect of an adaptor is not the union", || show("rev.chain"));
    let cut = r.below(len + 1);
    let s: EnumSet<E> = feed!().take(cut).collect();
    agree(c, t, &s, &union(&none, cut), "collect of a part is not the union", || show("take"));
    let (a, b): (EnumSet<E>, EnumSet<E>) = items.iter().copied().partition(|e| t.rank(*e).map_or(0, |x| x) % 2 == 0);
    let even: Model = union(&none, len).iter().enumerate().map(|(i, x)| *x && i % 2 == 0).collect();
    let odd: Model = union(&none, len).iter().enumerate().map(|(i, x)| *x && i % 2 == 1).collect();
    agree(c, t, &a, &even, "partition is not the union", || show("partition"));
    agree(c, t, &b, &odd, "partition is not the union", || show("partition"));
    let (a, b): (EnumSet<E>, EnumSet<E>) = items.iter().map(|e| (*e, *e)).unzip();
    agree(c, t, &a, &union(&none, len), "unzip is not the union", || show("unzip"));
    agree(c, t, &b, &union(&none, len), "unzip is not the union", || show("unzip"));
    let s: Option<EnumSet<E>> = items.iter().map(|e| Some(*e)).collect();
    agree(c, t, &s.unwrap(), &union(&none, len), "collect through Option is not the union", || show("Option"));
    let mut s = start;
    for e in start { s.extend(std::iter::once(e)); }
    agree(c, t, &s, &start_m, "extending a set by its members changes it", || show("self"));
    // a panic on the way
    if len > 0 {
        let at = r.below(len + 1);
        c.doing("an iterator that panics");
        let mut s = start;
        pos.set(0);
        let f = Feed { items: &items, pos: &pos, hint: h, panic_at: at };
        let done = no_panic(|| s.extend(f));
        c.check(done.is_none() || s == EnumSet::all(), "a panic of the iterator is swallowed", || show("extend"));
        let got = t.read(&s);
        let upto = union(&start_m, at);
        c.check((0..t.n).all(|i| (!start_m[i] || got[i]) && (!got[i] || upto[i])) , "a panicking iterator leaves a wrong set",
                || format!("{}: holds {} after {} items", show("extend"), t.show(&got), at));
        agree(c, t, &s, &got, "a panicking iterator leaves an inconsistent set", || show("extend"));
    }
    let key = mix(mix(1, t.hash_model(&start_m)), ids.iter().fold(len as u64, |h, i| mix(h, *i as u64)));
    c.case(key, len > 0);
    if key % 64 == 0 { c.sample(|| show("extend/collect/sum")); }
}

fn sets<E: Zoo>(c: &Ctx, t: &Tab<E>, r: &mut Rng) {
    let len = match r.below(4) { 0 => 0, 1 => 1, 2 => 2, _ => r.range(1, 10) };
    let ms: Vec<Model> = (0..len).map(|_| t.random(r)).collect();
    let items: Vec<EnumSet<E>> = ms.iter().map(|m| t.build(m)).collect();
    let start_m = t.random(r);
    let start = t.build(&start_m);
    let none = vec![false; t.n];
    let union = |base: &Model, upto: usize| { let mut m = base.clone(); for x in &ms[..upto] { m = Op::Or.model(&m, x); } m };
    let h = hint(r, len);
    let show = |how: &str| format!("{} of {} sets [{}] (hint {:?}) starting from {}", how, len, ms.iter().map(|m| t.show(m)).collect::<Vec<_>>().join(", "), h, t.show(&start_m));
    let pos = Cell::new(0);
    macro_rules! feed {
        () => {{ pos.set(0); Feed { items: &items, pos: &pos, hint: h, panic_at: usize::MAX } }};
    }
    c.doing("extend with sets");
    let mut s = start;
    s.extend(feed!());
    agree(c, t, &s, &union(&start_m, len), "extend by sets is not the union", || show("extend"));
    let s: EnumSet<E> = feed!().collect();
    agree(c, t, &s, &union(&none, len), "collect of sets is not the union", || show("collect"));
    let s: EnumSet<E> = feed!().sum();
    agree(c, t, &s, &union(&none, len), "sum of sets is not the union", || show("sum"));
    let s: EnumSet<E> = items.iter().sum();
    agree(c, t, &s, &union(&none, len), "sum of set references is not the union", || show("sum by reference"));
    let s: EnumSet<E> = items.iter().copied().flatten().collect();
    agree(c, t, &s, &union(&none, len), "collect of members is not the union", || show("flatten"));
    let s: EnumSet<E> = items.iter().flat_map(|s| s.iter()).sum();
    agree(c, t, &s, &union(&none, len), "sum of members is not the union", || show("flat_map"));
    if len > 0 {
        let at = r.below(len + 1);
        c.doing("an iterator of sets that panics");
        let mut s = start;
        pos.set(0);
        let f = Feed { items: &items, pos: &pos, hint: h, panic_at: at };
        let done = no_panic(|| s.extend(f));
        c.check(done.is_none() || s == EnumSet::all(), "a panic of the iterator is swallowed", || show("extend"));
        let got = t.read(&s);
        let upto = union(&start_m, at);
        c.check((0..t.n).all(|i| (!start_m[i] || got[i]) && (!got[i] || upto[i])), "a panicking iterator leaves a wrong set",
                || format!("{}: holds {} after {} sets", show("extend"), t.show(&got), at));
        agree(c, t, &s, &got, "a panicking iterator leaves an inconsistent set", || show("extend"));
    }
    for (s, m) in items.iter().zip(&ms) {
        agree(c, t, s, m, "an item changed", || show("items"));
    }
    c.case(ms.iter().fold(mix(2, t.hash_model(&start_m)), |h, m| mix(h, t.hash_model(m))), len > 0);
}

monitor_main!("C17", run);
