//! C07: equality, hashing and ordering of sets produced in many different ways.
use enumset::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{BuildHasher, Hash, Hasher};
use vh::*;
include_zoo!();

/// Records exactly what a set feeds to a hasher.
#[derive(Default, Clone)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { hash_bytes(&self.0) }
    fn write(&mut self, b: &[u8]) { self.0.push(b.len() as u8); self.0.extend_from_slice(b); }
}
fn rec<T: Hash>(t: &T) -> Vec<u8> {
    let mut h = Rec::default();
    t.hash(&mut h);
    h.0
}
/// A fixed-key hash builder, so that runs are repeatable.
#[derive(Default, Clone)]
struct Fixed;
impl BuildHasher for Fixed {
    type Hasher = Rec;
    fn build_hasher(&self) -> Rec { Rec::default() }
}

/// Produces the set `m` by one of many routes.
fn produce<E: Zoo>(t: &Tab<E>, m: &Model, r: &mut Rng) -> (EnumSet<E>, &'static str) {
    let members: Vec<E> = (0..t.n).filter(|i| m[*i]).map(|i| t.vars[i]).collect();
    let mut shuffled = members.clone();
    r.shuffle(&mut shuffled);
    let not: Model = m.iter().map(|x| !x).collect();
    let many = (t.width as usize / 64 + 4).max(17);
    let words = t.words(m, many);
    let (num, over) = t.num(m, 128);
    loop {
        return match r.below(19) {
            0 => (t.build(m), "insert in order"),
            1 => { let mut s = EnumSet::new(); for e in &shuffled { s.insert(*e); s.insert(*e); } (s, "insert shuffled, twice") }
            2 => (shuffled.iter().copied().collect(), "collect"),
            3 => { let mut s = EnumSet::all(); for i in 0..t.n { if !m[i] { s.remove(t.vars[i]); } } (s, "remove from all") }
            4 => (EnumSet::all() - t.build(&not), "all minus complement"),
            5 => (!t.build(&not), "complement of complement"),
            6 => { let x = t.random(r); let s = t.build(&x); ((t.build(m) ^ s) ^ s, "xor twice") }
            7 => (shuffled.iter().map(|e| EnumSet::only(*e)).sum(), "sum of singletons"),
            8 => { let x: Model = m.iter().map(|b| *b || r.bool()).collect(); (t.build(m) & t.build(&x), "intersection with a superset") }
            9 => { let x: Model = not.iter().map(|b| *b && r.bool()).collect(); let y: Model = m.iter().zip(&x).map(|(a, b)| *a || *b).collect(); (t.build(&y) - t.build(&x), "difference") }
            10 => { let mut s = EnumSet::all(); s.clear(); s.extend(shuffled.iter().copied()); (s, "clear and extend") }
            11 => (EnumSet::from_slice_truncated(&words), "from a longer slice"),
            12 if many == 17 => match EnumSet::try_from_array::<17>(words.clone().try_into().unwrap()) { Some(s) => (s, "from a longer array"), None => continue },
            13 => { let mut w = words.clone(); let valid = t.words(&vec![true; t.n], many); for (i, x) in w.iter_mut().enumerate() { *x |= r.u64() & !valid[i]; } (EnumSet::from_slice_truncated(&w), "truncated from words with garbage") }
            14 if !over => { let (valid, _) = t.num(&vec![true; t.n], 128); (EnumSet::from_u128_truncated(num | r.u128() & !valid), "truncated from a number with garbage") }
            15 if !over => match EnumSet::try_from_u128(num) { Some(s) => (s, "from a number"), None => continue },
            16 => { let mut s = t.build(m); if t.n > 0 { let k = r.below(t.n); if m[k] { s.remove(t.vars[k]); s |= t.vars[k]; } else { s.insert(t.vars[k]); s -= t.vars[k]; } } (s, "member toggled and restored") }
            17 => { let s = t.build(m); let mut i = s.iter(); let mut o = EnumSet::new(); for _ in 0..t.n + 1 { match i.next_back() { Some(e) => { o |= e; } None => break } } (o, "rebuilt backwards from its iterator") }
            18 => match EnumSet::try_from_slice(&vec_of(&t.build(m))) { Some(s) => (s, "through to_vec"), None => continue },
            _ => continue,
        };
    }
}

/// Counts the members, to see whether a route produced what it should.
fn is<E: Zoo>(t: &Tab<E>, s: &EnumSet<E>, m: &Model) -> bool {
    t.read(s) == *m
}

fn run<E: Zoo>(c: &Ctx) {
    let t = Tab::<E>::new();
    variants_apart(c, &t);
    let rounds = c.scale * if t.n > 100 { 60 } else { 150 };
    for k in 0..rounds {
        let mut r = c.rng(k as u64);
        let a = t.random(&mut r);
        // the same members by different routes
        let (x, hx) = produce(&t, &a, &mut r);
        let (y, hy) = produce(&t, &a, &mut r);
        if is(&t, &x, &a) && is(&t, &y, &a) {
            same(c, &t, &a, x, y, hx, hy);
            c.case(mix(mix(1, t.hash_model(&a)), hash_bytes(hx.as_bytes()) ^ hash_bytes(hy.as_bytes()).rotate_left(9)), a.iter().any(|x| *x));
            if k % 40 == 3 {
                c.sample(|| format!("{} by {} equals itself by {}", t.show(&a), hx, hy));
            }
        }
        // three sets in some relation
        let b = t.related(&a, &mut r);
        let d = t.related(&b, &mut r);
        let ms = [&a, &b, &d];
        let ss = [x, produce(&t, &b, &mut r).0, produce(&t, &d, &mut r).0];
        if (0..3).all(|i| is(&t, &ss[i], ms[i])) {
            triple(c, &t, &ms, &ss);
        }
        if t.n > 0 {
            let i = t.rank_biased(&mut r);
            variant(c, &t, &a, x, i);
            if let Some(j) = a.iter().position(|x| *x) {
                variant(c, &t, &a, x, j);
            }
        }
        if c.stop() { return; }
    }
    if let Some(all) = t.all_models(5) {
        let ss: Vec<EnumSet<E>> = all.iter().map(|m| t.build(m)).collect();
        for i in 0..all.len() {
            for j in 0..all.len() {
                triple(c, &t, &[&all[i], &all[j], &all[(i + j) % all.len()]], &[ss[i], ss[j], ss[(i + j) % all.len()]]);
            }
            if c.stop() { return; }
        }
    }
    for i in 0..t.n {
        for j in 0..t.n.min(20) {
            let mut m = vec![false; t.n];
            m[(i + j) % t.n] = true;
            variant(c, &t, &m, t.build(&m), i);
        }
        variant(c, &t, &vec![false; t.n], EnumSet::new(), i);
        variant(c, &t, &vec![true; t.n], EnumSet::all(), i);
        if c.stop() { return; }
    }
    for k in 0..c.scale * 2 {
        collections(c, &t, &mut c.rng(1 << 33 | k as u64));
        if c.stop() { return; }
    }
}

fn same<E: Zoo>(c: &Ctx, t: &Tab<E>, m: &Model, x: EnumSet<E>, y: EnumSet<E>, hx: &str, hy: &str) {
    let how = || format!("{} by [{}] and by [{}]", t.show(m), hx, hy);
    c.doing("comparing equal sets");
    c.check(x == y && y == x && !(x != y), "sets with the same members are not equal", how);
    c.check(x.cmp(&y) == Ordering::Equal, "equal sets do not compare as Equal", how);
    c.check(x.partial_cmp(&y) == Some(Ordering::Equal), "equal sets do not compare as Equal", how);
    c.check(rec(&x) == rec(&y), "equal sets hash differently", how);
    c.check(Fixed.hash_one(x) == Fixed.hash_one(y), "equal sets hash differently", how);
    #[allow(clippy::clone_on_copy)]
    let z = x.clone();
    c.check(z == x && x == z && rec(&z) == rec(&x) && is(t, &z, m), "a clone differs", how);
    let w = x;
    c.check(w == x, "a copy differs", how);
    let mut v = EnumSet::all();
    v.clone_from(&x);
    c.check(v == x, "clone_from differs", how);
}

fn variant<E: Zoo>(c: &Ctx, t: &Tab<E>, m: &Model, s: EnumSet<E>, i: usize) {
    let want = (0..t.n).all(|k| m[k] == (k == i));
    c.doing("comparing with a variant");
    let how = || format!("{} against {}", t.show(m), t.names[i]);
    let e = t.vars[i];
    c.check((s == e) == want && (s != e) == !want, "a set compares wrongly with a variant", how);
    if E::OPS {
        c.check(E::eq_es(e, s) == want, "a variant compares wrongly with a set", how);
    }
    c.case(mix(mix(3, i as u64), t.hash_model(m)), true);
}

fn triple<E: Zoo>(c: &Ctx, t: &Tab<E>, m: &[&Model; 3], s: &[EnumSet<E>; 3]) {
    c.doing("ordering three sets");
    let show = || format!("{}, {}, {}", t.show(m[0]), t.show(m[1]), t.show(m[2]));
    let mut ord = [[Ordering::Equal; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            let (x, y) = (&s[i], &s[j]);
            let eq = m[i] == m[j];
            c.check((x == y) == eq, "equality disagrees with membership", show);
            c.check((x != y) == !eq, "inequality disagrees with membership", show);
            let o = x.cmp(y);
            ord[i][j] = o;
            c.check((o == Ordering::Equal) == eq, "ordering disagrees with equality", show);
            c.check(x.partial_cmp(y) == Some(o), "partial_cmp disagrees with cmp", show);
            c.check((x < y) == (o == Ordering::Less), "< disagrees with cmp", show);
            c.check((x <= y) == (o != Ordering::Greater), "<= disagrees with cmp", show);
            c.check((x > y) == (o == Ordering::Greater), "> disagrees with cmp", show);
            c.check((x >= y) == (o != Ordering::Less), ">= disagrees with cmp", show);
            let (mx, mn) = ((*x).max(*y), (*x).min(*y));
            c.check(mx == if o == Ordering::Greater { *x } else { *y }, "max disagrees with cmp", show);
            c.check(mn == if o == Ordering::Greater { *y } else { *x }, "min disagrees with cmp", show);
            if eq {
                c.check(rec(x) == rec(y), "equal sets hash differently", show);
            }
        }
    }
    for i in 0..3 {
        for j in 0..3 {
            c.check(ord[i][j] == ord[j][i].reverse(), "ordering is not antisymmetric", show);
            for k in 0..3 {
                if ord[i][j] != Ordering::Greater && ord[j][k] != Ordering::Greater {
                    c.check(ord[i][k] != Ordering::Greater, "ordering is not transitive", show);
                }
            }
        }
    }
    if s[0] <= s[2] {
        let cl = s[1].clamp(s[0], s[2]);
        c.check(cl >= s[0] && cl <= s[2], "clamp leaves its bounds", show);
    }
    c.case(mix(mix(t.hash_model(m[0]), t.hash_model(m[1])), t.hash_model(m[2])), m[0] != m[1]);
}

/// Collections of sets behave as collections keyed by membership.
fn collections<E: Zoo>(c: &Ctx, t: &Tab<E>, r: &mut Rng) {
    c.doing("collections of sets");
    let mut hs: HashSet<EnumSet<E>, Fixed> = HashSet::with_hasher(Fixed);
    let mut std_hs: HashSet<EnumSet<E>> = HashSet::new();
    let mut bs: BTreeSet<EnumSet<E>> = BTreeSet::new();
    let mut hm: HashMap<EnumSet<E>, usize, Fixed> = HashMap::with_hasher(Fixed);
    let mut model: BTreeMap<Model, usize> = BTreeMap::new();
    let base: Vec<Model> = (0..12).map(|_| t.random(r)).collect();
    for k in 0..40 {
        let m = if r.bool() { r.pick(&base).clone() } else { t.related(r.pick(&base), r) };
        let (s, _) = produce(t, &m, r);
        if !is(t, &s, &m) { continue; }
        let show = || format!("step {} with {}", k, t.show(&m));
        if r.chance(2, 3) {
            let new = !model.contains_key(&m);
            let old = model.insert(m.clone(), k);
            c.check(hs.insert(s) == new, "a HashSet of sets disagrees with membership", show);
            c.check(std_hs.insert(s) == new, "a HashSet of sets disagrees with membership", show);
            c.check(bs.insert(s) == new, "a BTreeSet of sets disagrees with membership", show);
            c.check(hm.insert(s, k) == old, "a HashMap keyed by sets disagrees with membership", show);
        } else {
            let was = model.remove(&m);
            c.check(hs.remove(&s) == was.is_some(), "a HashSet of sets disagrees with membership", show);
            c.check(std_hs.remove(&s) == was.is_some(), "a HashSet of sets disagrees with membership", show);
            c.check(bs.remove(&s) == was.is_some(), "a BTreeSet of sets disagrees with membership", show);
            c.check(hm.remove(&s) == was, "a HashMap keyed by sets disagrees with membership", show);
        }
        c.check(hs.len() == model.len() && bs.len() == model.len() && hm.len() == model.len() && std_hs.len() == model.len(),
                "a collection of sets has the wrong size", show);
        c.case(mix(mix(4, k as u64), t.hash_model(&m)), true);
    }
    let mut v: Vec<EnumSet<E>> = bs.iter().copied().collect();
    r.shuffle(&mut v);
    v.sort();
    c.check(v.windows(2).all(|w| w[0] < w[1]), "sorting sets is not strict on distinct sets", || format!("{} sets", v.len()));
    c.check(v.iter().eq(bs.iter()), "sorting disagrees with BTreeSet order", || format!("{} sets", v.len()));
    for s in &v {
        c.check(v.binary_search(s).is_ok(), "binary search misses a set", || format!("{} sets", v.len()));
    }
}

monitor_main!("C07", run);
