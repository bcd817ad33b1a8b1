//! C12: constants evaluated by the compiler against the operations at run time.
use enumset::*;
use vh::*;
include_zoo!();
#[allow(dead_code, unused)]
mod consts {
    include!(concat!(env!("VERIF_ZOO"), "/consts.rs"));
}

pub fn c12_meta<E: Zoo>(c: &Ctx, count: u32, width: u32) {
    let n = E::decl().len() as u32;
    c.check(count == n, "variant_count() in a constant is wrong", || format!("{} instead of {}", count, n));
    c.check(width == E::WIDTH, "bit_width() in a constant is wrong", || format!("{} instead of {}", width, E::WIDTH));
    c.check(EnumSet::<E>::variant_count() == n && EnumSet::<E>::bit_width() == E::WIDTH, "variant_count()/bit_width() at run time is wrong",
            || format!("{} {}", EnumSet::<E>::variant_count(), EnumSet::<E>::bit_width()));
    c.case(mix(count as u64, width as u64), n > 0);
}

thread_local! { static TABS: std::cell::RefCell<Option<(std::any::TypeId, std::rc::Rc<dyn std::any::Any>)>> = const { std::cell::RefCell::new(None) }; }
fn tab<E: Zoo>() -> std::rc::Rc<Tab<E>> {
    TABS.with(|t| {
        let mut t = t.borrow_mut();
        let id = std::any::TypeId::of::<E>();
        if t.as_ref().map_or(true, |x| x.0 != id) {
            *t = Some((id, std::rc::Rc::new(Tab::<E>::new())));
        }
        t.as_ref().unwrap().1.clone().downcast().unwrap()
    })
}

pub fn c12_check<E: Zoo>(c: &Ctx, s: EnumSet<E>, expr: &str, discs: &[u32], matched: fn(EnumSet<E>) -> usize, idx: usize) {
    let t = tab::<E>();
    c.doing(expr);
    let m: Model = t.discs.iter().map(|d| discs.binary_search(d).is_ok()).collect();
    agree(c, &t, &s, &m, "a constant has the wrong members", || expr.into());
    let r = t.build(&m);
    c.check(s == r && r == s && s.cmp(&r) == std::cmp::Ordering::Equal, "a constant differs from the run-time set", || expr.into());
    c.check(t.raw_words(&s) == t.raw_words(&r) && t.of_words(&t.raw_words(&s)) == (m.clone(), false),
            "a constant has other bits than the run-time set", || format!("{}: {:x?} instead of {:x?}", expr, t.raw_words(&s), t.raw_words(&r)));
    // further run-time use of the constant
    c.check((s | !s) == EnumSet::all() && (s & !s).is_empty() && !!s == s, "a constant misbehaves in run-time operations", || expr.into());
    let mut x = s;
    for i in 0..t.n { if m[i] { c.check(x.remove(t.vars[i]), "a constant misbehaves in run-time updates", || expr.into()); } }
    c.check(x.is_empty() && x == EnumSet::new(), "a constant misbehaves in run-time updates", || expr.into());
    // patterns: the run-time set takes the arm of the first equal constant
    for set in [s, r] {
        let got = matched(set);
        c.check(got == idx, "a constant does not work as a pattern", || format!("{}: arm {} instead of {}", expr, got as isize, idx as isize));
    }
    let key = hash_bytes(expr.as_bytes());
    c.case(mix(key, t.hash_model(&m)), !discs.is_empty());
    c.count("constants", 1);
    if key % 23 == 0 { c.sample(|| format!("{} is {}", expr, t.show(&m))); }
}

/// The same operations at run time on the operands of the macros: the other half of the comparison
/// is in the constants themselves, which were computed from the definition.
struct M;
impl Visitor for M {
    fn visit<E: Zoo>(&self, name: &'static str) -> Job<'_> {
        let f = consts::run_all().into_iter().find(|x| x.0 == name).map(|x| x.1);
        Job { name: name.into(), src: E::SRC.into(), run: Box::new(move |c| if let Some(f) = f { f(c) }) }
    }
}
fn main() {
    run_jobs("C12", zoo::visit_all(&M));
}
