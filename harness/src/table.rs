//! Tables of monomorphized checks.
use crate::util::Case;
use crate::zoo::{self, Visitor, Zoo};

pub struct Entry {
    pub name: String,
    pub run: fn(&mut Case),
}

pub type Table = Vec<Entry>;

/// A check that is instantiated for every type.
pub trait TypeCheck {
    fn run<T: Zoo>(case: &mut Case);
    fn wants<T: Zoo>() -> bool {
        true
    }
}

pub struct Build<C>(pub Table, std::marker::PhantomData<C>);

impl<C: TypeCheck> Default for Build<C> {
    fn default() -> Self {
        Build(vec![], std::marker::PhantomData)
    }
}

impl<C: TypeCheck> Visitor for Build<C> {
    fn visit<T: Zoo>(&mut self) {
        if C::wants::<T>() {
            self.0.push(Entry { name: T::name(), run: C::run::<T> });
        }
    }
}

/// One entry per type of the zoo.
pub fn table<C: TypeCheck>() -> Table {
    let mut b = Build::<C>::default();
    zoo::visit_all(&mut b);
    b.0
}

/// Runs every entry `per` times.
pub fn run(ctx: &'static crate::util::Ctx, group: &str, t: &Table, per: u64) {
    let n = t.len() as u64;
    ctx.count(&format!("types in {}", group), n);
    ctx.group(group, n * per, |case| {
        let e = &t[(case.idx % n) as usize];
        case.label = e.name.clone();
        (e.run)(case)
    });
}
