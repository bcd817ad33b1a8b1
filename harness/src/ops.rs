//! Observation of a set through its whole public read interface.
use crate::ctx::*;
use crate::zoo::*;
use enumset::EnumSet;

/// Compares everything a reader can see of `s` with the model. Returns the first disagreement.
pub fn disagreement<E: Zoo>(t: &Tab<E>, s: &EnumSet<E>, m: &[bool]) -> Option<String> {
    let got = t.read(s);
    let n = m.iter().filter(|x| **x).count();
    if got != m {
        return Some(format!("contains() says {} but the members are {}", t.show(&got), t.show(m)));
    }
    if s.len() != n {
        return Some(format!("len() is {} for {}", s.len(), t.show(m)));
    }
    if s.is_empty() != (n == 0) {
        return Some(format!("is_empty() is {} for {}", s.is_empty(), t.show(m)));
    }
    let mut it = s.iter();
    let mut seen = Vec::with_capacity(n);
    for _ in 0..t.n + 2 {
        match it.next() {
            Some(e) => seen.push(t.rank(e)),
            None => break,
        }
    }
    let want: Vec<Option<usize>> = (0..t.n).filter(|i| m[*i]).map(Some).collect();
    if seen != want {
        return Some(format!("iteration yields {} for {}", t.show_ranks(&seen), t.show(m)));
    }
    None
}

pub fn agree<E: Zoo>(c: &Ctx, t: &Tab<E>, s: &EnumSet<E>, m: &[bool], what: &str, how: impl FnOnce() -> String) -> bool {
    match disagreement(t, s, m) {
        None => true,
        Some(d) => {
            c.fail(what, format!("{}: {}", how(), d));
            false
        }
    }
}

/// Collects a run of `next()` with a bound, so a broken iterator cannot run away.
pub fn bounded<E: Zoo, I: Iterator<Item = E>>(t: &Tab<E>, mut it: I) -> Vec<Option<usize>> {
    let mut v = Vec::new();
    for _ in 0..t.n + 4 {
        match it.next() {
            Some(e) => v.push(t.rank(e)),
            None => break,
        }
    }
    v
}

pub fn ranks(m: &[bool]) -> Vec<usize> {
    (0..m.len()).filter(|i| m[*i]).collect()
}

/// The comparison and copies of bare variants: every variant equals itself and no other.
pub fn variants_apart<E: Zoo>(c: &Ctx, t: &Tab<E>) {
    c.doing("comparing variants");
    let pair = |i: usize, j: usize| {
        let (a, b) = (t.vars[i], t.vars[j]);
        c.check((a == b) == (i == j) && (a != b) == (i != j), "variants compare wrongly", || format!("{}={} and {}={}", t.names[i], t.discs[i], t.names[j], t.discs[j]));
    };
    for i in 0..t.n {
        if t.n <= 150 {
            for j in 0..t.n { pair(i, j); }
        } else {
            for j in [i, (i + 1) % t.n, 0, t.n - 1, i * 7 % t.n] { pair(i, j); pair(j, i); }
            // those whose discriminants share their low bits
            for d in [64u32, 128, 256, 512, 1 << 16] {
                if let Some(j) = t.discs.iter().position(|x| *x == t.discs[i].wrapping_add(d)) { pair(i, j); pair(j, i); }
            }
        }
        #[allow(clippy::clone_on_copy)]
        let k = t.vars[i].clone();
        let mut l = t.vars[t.n - 1 - i];
        l.clone_from(&k);
        c.check(t.rank(k) == Some(i) && t.rank(l) == Some(i), "a clone of a variant is another", || t.names[i].into());
    }
    c.case(crate::mix(0x7761, t.n as u64), t.n > 1);
}
