//! C13: what a compiled enum reports about itself against its definition.
use enumset::*;
use std::mem::size_of;
use vh::*;
include_zoo!();
#[allow(dead_code, unused)]
mod decl {
    use super::*;
    include!(concat!(env!("VERIF_ZOO"), "/decl.rs"));
}

/// Whether a type implements a trait, decided by the compiler without requiring it.
#[macro_export]
macro_rules! has {
    ($t:ty: $($tr:tt)*) => {{
        #[allow(dead_code)]
        trait No { const HAS: bool = false; }
        impl<T: ?Sized> No for T {}
        struct W<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: ?Sized + $($tr)*> W<T> { const HAS: bool = true; }
        <W<$t>>::HAS
    }};
}

/// Facts about one enum: what the compiler says (generated) and what the definition says.
pub struct Facts {
    /// discriminant according to the compiler, in declaration order
    pub discs: &'static [i128],
    /// (trait, implemented, expected)
    pub impls: Vec<(&'static str, bool, bool)>,
    pub size_exact: bool,
}

pub fn facts<E: Zoo>(c: &Ctx, f: Facts) {
    let t = &Tab::<E>::new();
    // the generator and the compiler must agree before anything else is judged
    assert!(f.discs.iter().copied().eq(E::decl().iter().map(|x| x.1 as i128)), "the generator is wrong about {}", E::SRC);
    for (name, is, want) in &f.impls {
        c.check(is == want, "an impl is missing or not suppressed", || format!("{}: implemented {}, documented {}", name, is, want));
        c.case(hash_bytes(name.as_bytes()) ^ *is as u64, true);
        c.count("impls_probed", 1);
    }
    let size = size_of::<EnumSet<E>>();
    c.check(if f.size_exact { size == E::SIZE } else { size <= E::SIZE }, "the set is not as compact as documented", || format!("{} bytes, documented {}", size, E::SIZE));
    c.check(size_of::<Option<EnumSet<E>>>() >= size, "sizes are inconsistent", String::new);

    variants_apart(c, t);
    c.doing("metadata");
    let all = EnumSet::<E>::all();
    c.check(EnumSet::<E>::variant_count() as usize == t.n, "variant_count() is wrong", || format!("{} instead of {}", EnumSet::<E>::variant_count(), t.n));
    c.check(EnumSet::<E>::bit_width() == E::WIDTH, "bit_width() is wrong", || format!("{} instead of {}", EnumSet::<E>::bit_width(), E::WIDTH));
    agree(c, t, &all, &vec![true; t.n], "all() is wrong", || "all()".into());
    agree(c, t, &EnumSet::new(), &vec![false; t.n], "new() is wrong", || "new()".into());
    c.case(1, t.n > 0);
    let need = (E::WIDTH as usize).div_ceil(64);
    let mut w = vec![0u64; need + 1];
    c.check(all.try_copy_into_slice(&mut w).is_some() && w == t.words(&vec![true; t.n], need + 1), "all() has other bits than the variants", || format!("{:x?}", w));

    for i in 0..t.n {
        // one member per variant, at the position of its discriminant
        let e = t.vars[i];
        let d = t.discs[i] as usize;
        let m: Model = (0..t.n).map(|j| j == i).collect();
        c.doing("variant");
        let s = EnumSet::only(e);
        agree(c, t, &s, &m, "a variant is not one member", || t.names[i].into());
        let mut w = vec![0u64; need + 1];
        c.check(s.try_copy_into_slice(&mut w).is_some() && w == t.words(&m, need + 1), "a variant is not at the position of its discriminant", || format!("{}={}: {:x?}", t.names[i], d, w));
        if d < 128 { c.check(s.as_u128_truncated() == 1 << d, "a variant is not at the position of its discriminant", || format!("{}={}", t.names[i], d)); }
        // and back, by position
        let mut w = vec![0u64; need + 1];
        w[d / 64] = 1 << (d % 64);
        let back = EnumSet::<E>::try_from_slice(&w);
        c.check(back.map_or(false, |x| t.read(&x) == m && bounded(t, x.iter()) == [Some(i)] && bounded(t, x.iter().rev()) == [Some(i)]),
                "the position of a discriminant is not its variant", || format!("{}={}: {:?}", t.names[i], d, back.map(|x| t.show_ranks(&bounded(t, x.iter())))));
        // its neighbours are only members if they are declared
        for x in [d.wrapping_sub(1), d + 1, d + 64] {
            if x / 64 < w.len() {
                let mut w = vec![0u64; need + 1];
                w[x / 64] = 1 << (x % 64);
                let declared = t.discs.contains(&(x as u32));
                c.check(EnumSet::<E>::try_from_slice(&w).is_some() == declared, "an undeclared position is a member, or a declared one is not", || format!("position {}", x));
            }
        }
        c.case(mix(7, d as u64), true);
        if d % 97 == 3 { c.sample(|| format!("{} = {} in {}", t.names[i], d, E::SRC)); }
        if c.stop() { return; }
    }
    c.count("variants", t.n as u64);
    c.count("definitions", 1);
}

struct M;
impl Visitor for M {
    fn visit<E: Zoo>(&self, name: &'static str) -> Job<'_> {
        let f = decl::run_all().into_iter().find(|x| x.0 == name).map(|x| x.1);
        Job { name: name.into(), src: E::SRC.into(), run: Box::new(move |c| if let Some(f) = f { f(c) }) }
    }
}
fn main() {
    run_jobs("C13", zoo::visit_all(&M));
}
