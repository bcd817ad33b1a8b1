//! C16: Debug and Display under every formatter flag, with failing writers and members.
use enumset::*;
use std::fmt::Write;
use vh::*;
include_zoo!();

/// A writer that fails once its budget is used up and remembers what it accepted.
struct Budget(usize, String, usize);
impl Write for Budget {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.2 > 0 || s.len() > self.0 {
            self.2 = 1;
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        self.1.push_str(s);
        Ok(())
    }
}

/// A writer whose n-th call fails, and no other.
struct Once(usize, usize);
impl Write for Once {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        self.1 += 1;
        if self.1 - 1 == self.0 { Err(std::fmt::Error) } else { Ok(()) }
    }
}

type Render<T> = fn(&mut dyn Write, &T) -> std::fmt::Result;
macro_rules! specs {
    ($($s:literal)*) => { vec![$(($s, (|w, x| write!(w, $s, x)) as Render<_>)),*] };
}
macro_rules! wspecs {
    ($($s:literal)*) => { vec![$(($s, (|w, x| write!(w, $s, x, w = 23, p = 5)) as Render<_>)),*] };
}
fn debug_specs<T: std::fmt::Debug>() -> Vec<(&'static str, Render<T>)> {
    let mut v: Vec<(&'static str, Render<T>)> = specs!("{:?}" "{:#?}" "{:+?}" "{:-?}" "{:08?}" "{:x?}" "{:X?}" "{:#x?}" "{:#X?}" "{:20?}" "{:<20?}" "{:>20?}" "{:^20?}" "{:*^20?}" "{:.2?}" "{:12.3?}" "{:_<+#30.4x?}" "{:1?}" "{:^0?}");
    v.extend(wspecs!("{:w$.p$?}" "{:#>w$.p$?}"));
    v
}
fn display_specs<T: std::fmt::Display>() -> Vec<(&'static str, Render<T>)> {
    let mut v: Vec<(&'static str, Render<T>)> = specs!("{}" "{:#}" "{:+}" "{:-}" "{:08}" "{:20}" "{:<20}" "{:>20}" "{:^20}" "{:*^20}" "{:.2}" "{:12.3}" "{:_<+#30.4}" "{:1}");
    v.extend(wspecs!("{:w$.p$}" "{:#>w$.p$}"));
    v
}

fn run<E: Zoo>(c: &Ctx) {
    let t = Tab::<E>::new();
    let (ds, de) = (debug_specs::<EnumSet<E>>(), debug_specs::<E>());
    let (ps, pe) = (display_specs::<EnumSet<E>>(), display_specs::<E>());
    let rounds = c.scale * if t.n > 64 { 10 } else { 30 };
    for k in 0..rounds {
        let mut r = c.rng(k as u64);
        let m = match k { 0 => vec![false; t.n], 1 => vec![true; t.n], _ => t.random(&mut r) };
        let s = t.build(&m);
        for i in 0..ds.len() {
            check(c, &t, &m, &s, ds[i], de[i], "EnumSet(", ")", &mut r);
        }
        for i in 0..ps.len() {
            check(c, &t, &m, &s, ps[i], pe[i], "", "", &mut r);
        }
        // through the ways the standard library forwards formatting
        c.doing("to_string");
        c.check(s.to_string() == format!("{}", s), "to_string differs from Display", || t.show(&m));
        let inner: Vec<String> = (0..t.n).filter(|i| m[*i]).map(|i| format!("{:#?}", t.vars[i])).collect();
        let nested = format!("{:#?}", Some(s));
        let want = format!("Some(\n    EnumSet({}),\n)", inner.join(" | ").replace('\n', "\n    "));
        c.check(nested == want, "Debug inside another value is wrong", || format!("{}: {}", t.show(&m), nested));
        if c.stop() { return; }
    }
    for i in 0..t.n {
        let mut m = vec![false; t.n];
        m[i] = true;
        let s = t.build(&m);
        check(c, &t, &m, &s, ds[0], de[0], "EnumSet(", ")", &mut c.rng(i as u64));
        check(c, &t, &m, &s, ps[0], pe[0], "", "", &mut c.rng(i as u64));
        if c.stop() { return; }
    }
}

fn check<E: Zoo>(c: &Ctx, t: &Tab<E>, m: &Model, s: &EnumSet<E>, spec: (&str, Render<EnumSet<E>>), each: (&str, Render<E>),
                 open: &str, close: &str, r: &mut Rng) {
    let mut want = String::from(open);
    let mut first = true;
    for i in 0..t.n {
        if m[i] {
            if !first { want.push_str(" | "); }
            first = false;
            each.1(&mut want, &t.vars[i]).unwrap();
        }
    }
    want.push_str(close);
    c.doing("formatting");
    let mut got = String::new();
    let res = spec.1(&mut got, s);
    c.check(res.is_ok() && got == want, "a set is rendered wrongly",
            || format!("{} of {}: {:?} ({:?}), expected {:?}", spec.0, t.show(m), got, res, want));
    // a writer that gives up somewhere in the middle
    for _ in 0..2 {
        let budget = if want.is_empty() { 0 } else { r.below(want.len() + 1) };
        let mut w = Budget(budget, String::new(), 0);
        let res = spec.1(&mut w, s);
        let fits = w.2 == 0;
        c.check(res.is_ok() == fits, "an error of the output is not propagated",
                || format!("{} of {} into {} bytes: {:?}", spec.0, t.show(m), budget, res));
        c.check(!fits || w.1 == want, "a set is rendered wrongly", || format!("{} of {}: {:?}", spec.0, t.show(m), w.1));
        c.check(want.starts_with(&w.1), "what was written before an error is not a prefix", || format!("{} of {}: {:?}", spec.0, t.show(m), w.1));
    }
    // a writer that fails once, at any of its calls
    for _ in 0..2 {
        let at = r.below(2 * t.n.min(m.iter().filter(|x| **x).count()) + 3);
        let mut w = Once(at, 0);
        let res = spec.1(&mut w, s);
        c.check(res.is_ok() == (w.1 <= at), "an error of the output is not propagated",
                || format!("{} of {} with only write {} failing, of {}: {:?}", spec.0, t.show(m), at, w.1, res));
    }
    // a member whose formatter fails
    let members = ranks(m);
    if !members.is_empty() {
        let bad = *r.pick(&members);
        FMT_FAIL.with(|f| f.set(Some(t.discs[bad])));
        let mut out = String::new();
        let res = spec.1(&mut out, s);
        FMT_FAIL.with(|f| f.set(None));
        c.check(res.is_err(), "an error of a member is not propagated", || format!("{} of {} with {} failing: {:?}", spec.0, t.show(m), t.names[bad], out));
    }
    let key = mix(t.hash_model(m), hash_bytes(spec.0.as_bytes()));
    c.case(key, !members.is_empty());
    if key % 300 == 0 {
        c.sample(|| format!("{} of {} is {:?}", spec.0, t.show(m), want));
    }
}

monitor_main!("C16", run);
