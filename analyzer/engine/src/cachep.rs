//! The cache: entry states, user code and obligations of its operations.
use crate::facts::{self, Clause, NK, T};
use crate::mach::*;
use crate::models::is_o;
use crate::prog::Prog;
use crate::value::*;
use ir::{Callee, Ty};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub fn role_fact(r: Role, w: u8) -> u16 {
    match r {
        Role::Art => facts::a(w),
        Role::Dyn => facts::d(w),
        Role::Dept => facts::t(w),
        Role::Depy => facts::c(w),
        Role::Leaf => facts::l(w),
        Role::Known => facts::k(w),
    }
}

/// What an operation is about.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Lookup,
    LookupMut,
    Get,
    GetMut,
    GetDyn,
    DynState,
    DynStateMut,
    IsKnown,
    Count,
    Invalidate,
    Purge,
    ClearArtifacts,
    ClearAll,
    Gc,
    New,
    Resolve,
    MyState,
    /// Any other function: only general obligations.
    Other,
}

pub fn op_of(name: &str, resolver: bool) -> Op {
    if resolver {
        return match name {
            "resolve" | "resolve_ref" | "resolve_cloned" => Op::Resolve,
            "my_state" => Op::MyState,
            _ => Op::Other,
        };
    }
    match name {
        "lookup" | "lookup_ref" | "lookup_cloned" => Op::Lookup,
        "lookup_mut" => Op::LookupMut,
        "get" | "get_ref" | "get_cloned" => Op::Get,
        "get_mut" => Op::GetMut,
        "get_dyn_state" => Op::GetDyn,
        "dyn_state" => Op::DynState,
        "dyn_state_mut" => Op::DynStateMut,
        "is_builder_known" => Op::IsKnown,
        "number_of_known_builders" => Op::Count,
        "invalidate" => Op::Invalidate,
        "purge" => Op::Purge,
        "clear_artifacts" => Op::ClearArtifacts,
        "clear_all" => Op::ClearAll,
        "garbage_collection" => Op::Gc,
        "new" | "default" | "new_with_doctor" => Op::New,
        _ => Op::Other,
    }
}

#[derive(Clone, Debug)]
pub struct Scen {
    pub name: String,
    pub target: Option<Id>,
    pub user: Option<Id>,
    /// Dependents of a builder of class i may be of class j.
    pub allow: [[bool; 3]; 3],
    /// Class of the witnesses: 0 T, 1 N, 2 Tgt; None: not classified
    pub wcl: [Option<u8>; 2],
    /// Possible classes of others
    pub classes: [bool; 3],
    pub acyclic: bool,
    pub gc: bool,
    /// The target has no other dependents than the other witness.
    pub lone: bool,
}

impl Scen {
    pub fn plain(name: &str, target: Option<Id>, user: Option<Id>) -> Scen {
        Scen { name: name.into(), target, user, allow: [[true, true, true], [true; 3], [true; 3]], wcl: [None, None], classes: [true, false, false], acyclic: false, gc: false, lone: false }
    }
    fn w_allow(&self, w: u8, cl: u8) -> bool {
        // dependents of w may be of class cl
        match self.wcl[w as usize] { Some(c) => self.allow[c as usize][cl as usize], None => true }
    }
}

pub fn scenarios(op: Op) -> Vec<Scen> {
    let w = Id::W;
    let mut r = vec![];
    let inval = |r: &mut Vec<Scen>| {
        // T: transitive dependents of the target and the target itself; N: all others
        let allow = [[true, false, false], [true, true, false], [false; 3]];
        for w2 in 0..2u8 {
            r.push(Scen { name: format!("target w1, w2 {}", if w2 == 0 { "may depend on it" } else { "does not depend on it" }), target: Some(w(0)), user: None, allow, wcl: [Some(0), Some(w2)], classes: [true, true, false], acyclic: false, gc: false, lone: false });
        }
        for w1 in 0..2u8 {
            for w2 in 0..2u8 {
                if w1 > w2 { continue }
                r.push(Scen { name: format!("target another builder, w1 {}, w2 {}", if w1 == 0 { "may depend on it" } else { "does not" }, if w2 == 0 { "may depend on it" } else { "does not" }), target: Some(Id::O(0)), user: None, allow, wcl: [Some(w1), Some(w2)], classes: [true, true, false], acyclic: false, gc: false, lone: false });
            }
        }
    };
    match op {
        Op::Lookup | Op::Get | Op::GetDyn | Op::DynState | Op::IsKnown => {
            r.push(Scen::plain("target w1", Some(w(0)), None));
            r.push(Scen::plain("target another builder", Some(Id::O(0)), None));
        }
        Op::Count | Op::ClearArtifacts | Op::ClearAll | Op::New => r.push(Scen::plain("any state", None, None)),
        Op::Other => {
            r.push(Scen::plain("target w1", Some(w(0)), Some(w(1))));
            r.push(Scen::plain("target another builder", Some(Id::O(0)), Some(w(0))));
        }
        Op::Invalidate | Op::Purge | Op::DynStateMut => inval(&mut r),
        Op::LookupMut | Op::GetMut => {
            inval(&mut r);
            for x in &mut r { x.lone = true }
            let allow = [[true, false, false], [true, true, true], [true, false, false]];
            for w2 in 0..2u8 {
                r.push(Scen { name: format!("target w1 (in no cycle), w2 {}", if w2 == 0 { "may depend on it" } else { "does not depend on it" }), target: Some(w(0)), user: None, allow, wcl: [Some(2), Some(w2)], classes: [true, true, false], acyclic: true, gc: false, lone: false });
            }
            for (w1, w2) in [(0, 0), (0, 1), (1, 1)] {
                r.push(Scen { name: format!("target another builder (in no cycle), w1 {}, w2 {}", if w1 == 0 { "may depend on it" } else { "does not" }, if w2 == 0 { "may depend on it" } else { "does not" }), target: Some(Id::O(2)), user: None, allow, wcl: [Some(w1), Some(w2)], classes: [true, true, true], acyclic: true, gc: false, lone: false });
            }
        }
        Op::Gc => {
            // classes: dead without dependents, alive, dead with dependents
            r.push(Scen { name: "any state".into(), target: None, user: None, allow: [[false; 3], [true; 3], [true; 3]], wcl: [None, None], classes: [true; 3], acyclic: false, gc: true, lone: false });
        }
        Op::Resolve => {
            r.push(Scen::plain("user w1, target w2", Some(w(1)), Some(w(0))));
            r.push(Scen::plain("user w1, target another builder", Some(Id::O(0)), Some(w(0))));
            r.push(Scen::plain("user another builder, target w1", Some(w(0)), Some(Id::O(0))));
            r.push(Scen::plain("user and target other builders", Some(Id::O(0)), Some(Id::O(1))));
            r[3].classes = [true, true, false];
        }
        Op::MyState => {
            r.push(Scen::plain("user w1", None, Some(w(0))));
            r.push(Scen::plain("user another builder", None, Some(Id::O(0))));
        }
    }
    r
}

pub struct CacheWorld {
    pub p: Rc<Prog>,
    pub op: Op,
    pub scen: Scen,
    pub fname: String,
    /// An operation of a resolver.
    pub resolver: bool,
    /// Where the parts of the cache are.
    pub roles: RefCell<BTreeMap<Role, Place>>,
    pub id_ty: u32,
    pub mutable: bool,
    slots: RefCell<BTreeMap<(Role, Id), V>>,
    /// How many facts are remembered.
    pub precise: u8,
    pub extra: RefCell<BTreeSet<String>>,
    /// Running from a concrete state.
    pub hist: Option<Hist>,
}

/// A concrete state of a cache that knows no other builders than the witnesses (see hist.rs).
pub struct Hist {
    pub facts: Vec<bool>,
    pub alive: [bool; 2],
    /// Functions for resolving, called by builders at work.
    pub resolve: Vec<u32>,
    /// The stored artifact of the builder was made from the stored one of the other.
    pub uses: [bool; 2],
    /// States on exit, whether user code panicked, and what the artifacts are made from then.
    pub outs: RefCell<Vec<(V, bool, [bool; 2])>>,
}

fn inv(e: u16) -> Vec<Clause> {
    let mut r: Vec<Clause> = vec![];
    let b = |f: u16| facts::bit(f + e * NK);
    let mut imp = |x: u16, y: u16| r.push((b(y), b(x)));
    for w in 0..2u8 {
        let o = 1 - w;
        for x in [facts::a(w), facts::d(w), facts::l(w), facts::t(w), facts::c(w)] { imp(x, facts::k(w)) }
        imp(facts::e(w), facts::t(w));
        imp(facts::e(w), facts::c(o));
        for c in 0..3 {
            imp(facts::dto(w, c), facts::t(w));
            imp(facts::dco(w, c), facts::c(w));
        }
    }
    for w in 0..2u8 {
        r.push((0, b(facts::l(w)) | b(facts::e(w))));
        let mut any = b(facts::e(w));
        for c in 0..3 {
            r.push((0, b(facts::l(w)) | b(facts::dto(w, c))));
            any |= b(facts::dto(w, c));
        }
        r.push((b(facts::l(w)) | any, b(facts::k(w))));
    }
    r
}

pub fn ptr(i: Id) -> V {
    V::Sym(Sym::Ptr(i, false))
}
fn ev(s: &str) -> Sy {
    s.into()
}

pub fn count(m: &M, name: &str) -> u8 {
    m.st.ghost.ev.iter().filter(|(k, _)| &*k.0 == name).map(|x| *x.1).sum()
}
pub fn event(m: &mut M, name: &str, args: Vec<V>) {
    let g = Rc::make_mut(&mut m.st.ghost);
    let n = g.ev.entry((ev(name), args)).or_insert(0);
    *n = (*n + 1).min(3);
}

impl CacheWorld {
    pub fn new(p: Rc<Prog>, op: Op, scen: Scen, fname: String, id_ty: u32, hist: Option<Hist>) -> CacheWorld {
        CacheWorld { p, op, scen, fname, resolver: false, roles: Default::default(), id_ty, mutable: true, slots: Default::default(), precise: 0, extra: Default::default(), hist }
    }
    fn place(&self, r: Role) -> Option<Place> {
        self.roles.borrow().get(&r).cloned()
    }
    fn part(&self, m: &mut M, r: Role) -> Option<V> {
        let p = self.place(r)?;
        match m.read(&p) { Ok(v) => Some(v), _ => None }
    }
    /// Whether the fact of the given kind holds in the current state.
    pub fn term(&self, m: &mut M, f: u16) -> T {
        let elem = |c: &Coll, m: &mut M, id: Id| -> T {
            let mut r = T::F;
            for (k, n) in &c.elems {
                let k = k.clone();
                if let Ok(Some((i, _))) = m.id_of(&k) {
                    if i == id {
                        r = match n { Cnt::One | Cnt::Must => T::True, Cnt::Fact(f) => T::Lit(*f), _ => T::Free };
                    }
                }
            }
            r
        };
        let w = |x: u16| (x % 2) as u8;
        let slot = |me: &Self, m: &mut M, r: Role, wi: u8| -> T {
            match me.part(m, r) {
                Some(V::Map(mm)) => match &mm.slots[wi as usize] {
                    Slot::Abs => T::F,
                    Slot::Val(_) => T::True,
                    Slot::Lazy(e) => T::Lit(role_fact(r, wi) + *e as u16 * NK),
                },
                _ => {
                    m.imprecise(&format!("{:?} is not a map", r));
                    T::Free
                }
            }
        };
        let in_slot = |me: &Self, m: &mut M, r: Role, wi: u8, id: Id, lazy: u16| -> T {
            match me.part(m, r) {
                Some(V::Map(mm)) => match &mm.slots[wi as usize] {
                    Slot::Abs => T::F,
                    Slot::Lazy(e) => T::Lit(lazy + *e as u16 * NK),
                    Slot::Val(v) => match &**v {
                        V::Coll(c) => elem(c, m, id),
                        _ => {
                            m.imprecise("dependency entry is not a collection");
                            T::Free
                        }
                    },
                },
                _ => T::Free,
            }
        };
        match f {
            0 | 1 => slot(self, m, Role::Known, w(f)),
            2 | 3 => slot(self, m, Role::Art, w(f)),
            4 | 5 => slot(self, m, Role::Dyn, w(f)),
            6 | 7 => match self.part(m, Role::Leaf) {
                Some(V::Coll(c)) => elem(&c, m, Id::W(w(f))),
                _ => {
                    m.imprecise("leaf set");
                    T::Free
                }
            },
            8 | 9 => slot(self, m, Role::Dept, w(f)),
            10 | 11 => slot(self, m, Role::Depy, w(f)),
            12 | 13 => in_slot(self, m, Role::Dept, w(f), Id::W(1 - w(f)), f),
            14..=19 => in_slot(self, m, Role::Dept, ((f - 14) / 3) as u8, Id::O(((f - 14) % 3) as u8), f),
            20..=25 => in_slot(self, m, Role::Depy, ((f - 20) / 3) as u8, Id::O(((f - 20) % 3) as u8), f),
            f => T::Lit(f),
        }
    }
    /// As recorded among the dependencies.
    fn term_ey(&self, m: &mut M, wi: u8) -> T {
        let o = 1 - wi;
        match self.part(m, Role::Depy) {
            Some(V::Map(mm)) => match &mm.slots[o as usize] {
                Slot::Abs => T::F,
                Slot::Lazy(e) => T::Lit(facts::e(wi) + *e as u16 * NK),
                Slot::Val(v) => match &**v {
                    V::Coll(c) => {
                        let mut r = T::F;
                        for (k, n) in &c.elems {
                            let k = k.clone();
                            if let Ok(Some((Id::W(i), _))) = m.id_of(&k) {
                                if i == wi { r = match n { Cnt::One | Cnt::Must => T::True, Cnt::Fact(f) => T::Lit(*f), _ => T::Free } }
                            }
                        }
                        r
                    }
                    _ => T::Free,
                },
            },
            _ => T::Free,
        }
    }
    /// Whether what the fact is about is still there since the entry.
    pub fn kept(&self, m: &mut M, f: u16) -> T {
        let t = if matches!(f, 2..=5) {
            // the very value
            let (r, w) = if f < 4 { (Role::Art, (f - 2) as u8) } else { (Role::Dyn, (f - 4) as u8) };
            match self.part(m, r) {
                Some(V::Map(mm)) => match &mm.slots[w as usize] {
                    Slot::Val(v) => {
                        let v = v.clone();
                        match m.deep(&v, 9) {
                            Ok(V::Sym(Sym::Art(Id::W(x), Gen::Init))) if r == Role::Art && x == w => T::True,
                            Ok(V::Sym(Sym::Dyn(Id::W(x), Gen::Init))) if r == Role::Dyn && x == w => T::True,
                            Ok(V::Unk) => T::Free,
                            _ => T::F,
                        }
                    }
                    _ => self.term(m, f),
                },
                _ => T::Free,
            }
        } else {
            self.term(m, f)
        };
        self.origin(m, t)
    }
    fn origin(&self, m: &M, t: T) -> T {
        match t {
            T::Lit(x) if x >= NK => {
                let e = (x / NK) as usize;
                let s = m.st.snaps[e - 1].terms[(x % NK) as usize];
                self.origin(m, s)
            }
            t => t,
        }
    }
    fn init(&self, f: u16) -> T {
        T::Lit(f)
    }
    fn chk(&self, m: &mut M, prop: &str, conds: &[(T, bool)], msg: &str) {
        m.obl(prop);
        if !m.wanted(prop) { return }
        if m.possible(conds) {
            let loc = self.fname.clone();
            m.violate(prop, format!("{} [{}]", msg, self.scen.name), loc);
        }
    }
    fn fail(&self, m: &mut M, prop: &str, msg: &str) {
        let loc = self.fname.clone();
        m.violate(prop, format!("{} [{}]", msg, self.scen.name), loc);
    }

    /// The bookkeeping invariant.
    /// `fin`: what is broken stays so and makes a later operation break other properties as well.
    fn check_inv(&self, m: &mut M, prop: &str, when: &str, fin: bool) {
        let with = |x: &str| if fin { format!("{}|{}", prop, x) } else { prop.to_string() };
        for w in 0..2u8 {
            let n = w + 1;
            let k = self.term(m, facts::k(w));
            for (x, what) in [(facts::a(w), "has an artifact"), (facts::d(w), "has a dynamic state"), (facts::l(w), "is a garbage collection candidate"), (facts::t(w), "has an entry of dependents"), (facts::c(w), "has an entry of dependencies")] {
                let t = self.term(m, x);
                let p = format!("{}|C30", if matches!(x, 2..=7) { with("C22") } else { prop.to_string() });
                self.chk(m, &p, &[(t, true), (k, false)], &format!("{}: a builder (w{}) {} but is not known", when, n, what));
            }
            let ed = self.term(m, facts::e(w));
            let ey = self.term_ey(m, w);
            self.chk(m, &with("C03|C11"), &[(ed, true), (ey, false)], &format!("{}: w{} is recorded as dependent of w{}, but not the other way", when, 2 - w, n));
            self.chk(m, &with("C02|C22"), &[(ed, false), (ey, true)], &format!("{}: w{} is recorded as dependency of w{}, but not the other way", when, n, 2 - w));
            let l = self.term(m, facts::l(w));
            self.chk(m, &with("C10"), &[(l, true), (ed, true)], &format!("{}: a builder (w{}) with a dependent is a garbage collection candidate", when, n));
            let mut none = vec![(k, true), (l, false), (ed, false)];
            for c in 0..3 {
                let x = self.term(m, facts::dto(w, c));
                // (a candidate that has other dependents: any of them may be the other witness)
                none.push((x, false));
            }
            self.chk(m, &with("C11|C22"), &none, &format!("{}: a known builder (w{}) without dependents is not a garbage collection candidate", when, n));
            // the references and values are its own
            if let Some(V::Map(mm)) = self.part(m, Role::Known) {
                if let Slot::Val(v) = &mm.slots[w as usize] {
                    let v = v.clone();
                    match m.deep(&v, 9) {
                        Ok(V::Sym(Sym::Weak(Id::W(x)))) if x == w => {}
                        Ok(V::Unk) | Err(_) => {}
                        Ok(x) => {
                            let s = show(&x);
                            self.fail(m, &format!("{}|C30", prop), &format!("{}: the cache keeps {} for the known builder w{} instead of its weak reference", when, s, n))
                        }
                    }
                    m.obl(prop);
                }
            }
            for (r, p2) in [(Role::Art, "C15"), (Role::Dyn, "C15")] {
                if let Some(V::Map(mm)) = self.part(m, r) {
                    if let Slot::Val(v) = &mm.slots[w as usize] {
                        let v = v.clone();
                        m.obl(p2);
                        match (r, m.deep(&v, 9)) {
                            (Role::Art, Ok(V::Sym(Sym::Art(Id::W(x), _)))) if x == w => {}
                            (Role::Dyn, Ok(V::Sym(Sym::Dyn(Id::W(x), _)))) if x == w => {}
                            (_, Ok(V::Unk) | Err(_)) => {}
                            (_, Ok(x)) => {
                                let s = show(&x);
                                for p in [p2, if r == Role::Art { "C01" } else { "C06" }] {
                                    self.fail(m, p, &format!("{}: {} is stored as {:?} of w{}", when, s, r, n));
                                }
                            }
                        }
                    }
                }
            }
        }
    }

    /// Invalidation is complete, and edges are lost with the artifact only.
    fn check_complete(&self, m: &mut M) {
        let c28 = if self.op == Op::DynStateMut { "C02|C06|C28" } else { "C02|C28" };
        for u in 0..2u8 {
            let v = 1 - u;
            let (un, vn) = (u + 1, v + 1);
            // (then a dependency that is there may have been recorded just now)
            if count(m, &format!("w{} resolves w{}", vn, un)) > 0 { continue }
            let au = self.init(facts::a(u));
            let ku = self.kept(m, facts::a(u));
            let kv = self.kept(m, facts::a(v));
            let e_init = self.init(facts::e(u));
            let e_kept = { let x = self.term(m, facts::e(u)); self.origin(m, x) };
            let ey_kept = { let x = self.term_ey(m, u); self.origin(m, x) };
            let back_init = self.init(facts::e(v));
            let back_kept = { let x = self.term(m, facts::e(v)); self.origin(m, x) };
            let a_v = self.init(facts::a(v));
            let mut aff: Vec<(Vec<(T, bool)>, String)> = vec![];
            if self.invalidates() && self.scen.target == Some(Id::W(u)) {
                // (without artifact, there is no access to it)
                aff.push((if self.op == Op::LookupMut { vec![(au, true)] } else { vec![] }, "is invalidated".into()));
            }
            aff.push((vec![(au, true), (ku, false)], "loses its artifact".into()));
            aff.push((vec![(back_init, true), (back_kept, false)], "loses a recorded dependency".into()));
            for c in 0..3 {
                let i = self.init(facts::dco(u, c));
                let k = { let x = self.term(m, facts::dco(u, c)); self.origin(m, x) };
                aff.push((vec![(i, true), (k, false)], "loses a recorded dependency".into()));
                self.chk(m, c28, &[(i, true), (k, false), (au, true), (ku, true)], &format!("w{} loses a recorded dependency but keeps its artifact", un));
            }
            for (c, what) in aff {
                let mut x = c.clone();
                x.extend([(e_init, true), (a_v, true), (kv, true)]);
                self.chk(m, c28, &x, &format!("w{} {}, but w{}, which depends on it, keeps its artifact", un, what, vn));
                if !matches!(self.op, Op::Gc) {
                    let mut x = c;
                    let mut y = x.clone();
                    x.extend([(e_init, true), (e_kept, true)]);
                    y.extend([(e_init, true), (ey_kept, true)]);
                    self.chk(m, c28, &y, &format!("w{} {}, but w{}, which depends on it, is not invalidated (it keeps its recorded dependency)", un, what, vn));
                    self.chk(m, c28, &x, &format!("w{} {}, but w{}, which depends on it, is not invalidated (it keeps the recorded dependency)", un, what, vn));
                }
            }
            // v depends on u
            for p in ["C02", "C04", "C28"] {
                self.chk(m, p, &[(e_init, true), (e_kept, false), (a_v, true), (kv, true)], &format!("the dependency of w{} on w{} is forgotten, but w{} keeps its artifact", vn, un, vn));
            }
        }
    }
    fn invalidates(&self) -> bool {
        matches!(self.op, Op::Invalidate | Op::Purge | Op::DynStateMut | Op::LookupMut | Op::GetMut)
    }

    fn keeps(&self, m: &mut M, prop: &str, f: u16, msg: &str) {
        let i = self.init(f);
        let k = self.kept(m, f);
        self.chk(m, prop, &[(i, true), (k, false)], msg);
    }
    fn absent(&self, m: &mut M, prop: &str, f: u16, msg: &str) {
        let t = self.term(m, f);
        self.chk(m, prop, &[(t, true)], msg);
    }
    fn same(&self, m: &mut M, prop: &str, msg: &str) {
        for f in 0..26u16 {
            let i = self.init(f);
            let k = if f < 6 { self.kept(m, f) } else { self.term(m, f) };
            self.chk(m, prop, &[(i, true), (k, false)], &format!("{}: lost: {}", msg, facts::name(f)));
            let t = self.term(m, f);
            self.chk(m, prop, &[(i, false), (t, true)], &format!("{}: added: {}", msg, facts::name(f)));
        }
    }

    fn user_code(&self, m: &mut M, what: &str) {
        if matches!(self.op, Op::Lookup | Op::LookupMut | Op::GetDyn | Op::IsKnown | Op::Count) {
            self.fail(m, "C07", &format!("a lookup runs the user's {}", what));
        }
        if self.op == Op::Gc {
            self.fail(m, "C10", &format!("garbage collection runs the user's {}", what));
        }
        if matches!(self.op, Op::ClearAll | Op::ClearArtifacts | Op::New) {
            self.fail(m, "C09", &format!("runs the user's {}", what));
        }
        if matches!(self.op, Op::Invalidate | Op::Purge) {
            self.fail(m, "C01", &format!("invalidation runs the user's {}", what));
        }
        self.check_inv(m, "C12|C25", &format!("when the user's {} is called", what), false);
    }

    fn havoc(&self, m: &mut M) -> R<()> {
        let mut terms = vec![];
        for f in 0..26u16 { terms.push(self.term(m, f)) }
        terms.push(T::Lit(26));
        terms.push(T::Lit(27));
        let snap = Snap { terms, building: m.st.building };
        let mut s = (*m.st.snaps).clone();
        s.push(snap);
        if s.len() >= facts::MAXE as usize {
            m.imprecise("many builds in one operation");
            return Err(Stop::Dead);
        }
        m.st.snaps = Rc::new(s);
        let e = m.epoch();
        for r in ROLES {
            let Some(p) = self.place(r) else { continue };
            match m.read(&p)? {
                V::Map(mm) => {
                    let mut mm = (*mm).clone();
                    mm.role = Some(r);
                    for w in 0..2u8 {
                        let keep = match (r, &mm.slots[w as usize]) {
                            (Role::Art | Role::Dyn | Role::Known, Slot::Val(_)) => true,
                            (Role::Art, Slot::Abs) if m.st.building & (1 << w) != 0 => true,
                            _ => false,
                        };
                        if !keep { mm.slots[w as usize] = Slot::Lazy(e) }
                    }
                    mm.oth = [Some((Cnt::May, Box::new(V::Any))), Some((Cnt::May, Box::new(V::Any))), Some((Cnt::May, Box::new(V::Any)))];
                    m.write(&p, V::Map(Rc::new(mm)))?;
                }
                V::Coll(c) => {
                    let mut c = (*c).clone();
                    c.role = Some(r);
                    c.elems = self.leaf_elems(m, e);
                    for cl in 0..3 {
                        let k = m.wrap(self.id_ty, ptr(Id::O(cl)));
                        c.elems.insert(k, Cnt::May);
                    }
                    m.write(&p, V::Coll(Rc::new(c)))?;
                }
                _ => m.imprecise("part of the cache"),
            }
        }
        Ok(())
    }
    fn leaf_elems(&self, m: &M, e: u8) -> BTreeMap<V, Cnt> {
        let mut r = BTreeMap::new();
        for w in 0..2u8 {
            r.insert(m.wrap(self.id_ty, ptr(Id::W(w))), Cnt::Fact(facts::l(w) + e as u16 * NK));
        }
        for c in 0..3u8 {
            if self.scen.classes[c as usize] && !(self.scen.gc && c == 2) {
                r.insert(m.wrap(self.id_ty, ptr(Id::O(c))), Cnt::May);
            }
        }
        r
    }

    // ---- entry ----
    /// A value of the given type made of the given leaves.
    fn mk(&self, m: &M, ty: u32, leaf: &V, id: Id) -> V {
        match self.p.ty(ty) {
            Ty::Ref(_, t) => match self.p.ty(t) {
                Ty::Adt(p, _) if self.is_raw(&p) => V::Ref(Place { root: Root::G(0), path: vec![] }),
                Ty::Prim(s) if s == "str" => V::Sym(Sym::Named("text".into(), vec![V::Sym(Sym::Can(id))])),
                _ => V::RefVal(Box::new(self.mk(m, t, leaf, id))),
            },
            Ty::Adt(p, args) => {
                if p == "std::marker::PhantomData" { return V::Adt(p.into(), 0, vec![], false) }
                if p == "std::string::String" { return V::Sym(Sym::Named("text".into(), vec![V::Sym(Sym::Can(id))])) }
                if ty == self.id_ty { return m.wrap(ty, ptr(id)) }
                match self.p.fields(&p, &args, 0) {
                    Some(f) => V::Adt(p.into(), 0, f.iter().map(|x| self.mk(m, x.1, leaf, id)).collect(), false),
                    None => leaf.clone(),
                }
            }
            Ty::Ptr(..) => ptr(id),
            Ty::Prim(_) => V::Any,
            _ => leaf.clone(),
        }
    }
    pub fn is_raw(&self, path: &str) -> bool {
        // the type that has a map of artifacts
        match self.p.adt(path) {
            Some(a) => a.variants.len() == 1 && a.variants[0].fields.iter().filter(|f| matches!(self.p.ty(f.ty), Ty::Adt(ref p, _) if is_map_path(p))).count() >= 3,
            None => false,
        }
    }
    /// The cache in an arbitrary consistent state; empty: all maps are.
    pub fn mk_cache(&self, m: &mut M, ty: u32, at: Place) -> V {
        let Ty::Adt(p, args) = self.p.ty(ty) else { return V::Sym(Sym::Doctor) };
        let Some(fs) = self.p.fields(&p, &args, 0) else {
            return V::Sym(Sym::Doctor);
        };
        let mut l = vec![];
        for (i, (name, t)) in fs.iter().enumerate() {
            let here = at.step(Step::F(i as u32));
            let v = match self.p.ty(*t) {
                Ty::Adt(q, a) if is_map_path(&q) => match self.map_role(name, &a) {
                    Some(r) if self.roles.borrow().contains_key(&r) => {
                        self.extra.borrow_mut().insert(format!("field {}: {}", name, self.p.show_ty(*t)));
                        m.imprecise(&format!("field {} of the cache", name));
                        V::Unk
                    }
                    Some(r) => {
                        self.roles.borrow_mut().insert(r, here);
                        let o = |c: usize| if self.scen.classes[c] { Some((Cnt::May, Box::new(V::Any))) } else { None };
                        V::Map(Rc::new(MapV { role: Some(r), slots: [Slot::Lazy(0), Slot::Lazy(0)], oth: [o(0), o(1), o(2)], dirty: false, kty: a[0], vty: a[1] }))
                    }
                    None => {
                        self.extra.borrow_mut().insert(format!("field {}: {}", name, self.p.show_ty(*t)));
                        m.imprecise(&format!("field {} of the cache", name));
                        V::Unk
                    }
                },
                Ty::Adt(q, a) if is_set_path(&q) && a.first() == Some(&self.id_ty) => {
                    if self.roles.borrow().contains_key(&Role::Leaf) || !name.contains("leaf") && fs.iter().any(|x| x.0.contains("leaf")) {
                        self.extra.borrow_mut().insert(format!("field {}: {}", name, self.p.show_ty(*t)));
                        m.imprecise(&format!("field {} of the cache", name));
                        V::Unk
                    } else {
                        self.roles.borrow_mut().insert(Role::Leaf, here);
                        let mut c = coll(true);
                        c.role = Some(Role::Leaf);
                        c.ety = self.id_ty;
                        c.elems = self.leaf_elems(m, 0);
                        V::Coll(Rc::new(c))
                    }
                }
                Ty::Adt(q, _) if q == "std::marker::PhantomData" => V::Adt(q.into(), 0, vec![], false),
                Ty::Adt(q, _) if self.p.adt(&q).is_some() && self.p.adt(&q).unwrap().kind == "Struct" => self.mk_cache(m, *t, here),
                Ty::Param(_) | Ty::Dyn(..) | Ty::Proj(..) => V::Sym(Sym::Doctor),
                Ty::Prim(_) => V::Any,
                _ => {
                    self.extra.borrow_mut().insert(format!("field {}: {}", name, self.p.show_ty(*t)));
                    V::Any
                }
            };
            l.push(v);
        }
        V::Adt(p.into(), 0, l, false)
    }
    fn map_role(&self, name: &str, a: &[u32]) -> Option<Role> {
        if a.first() != Some(&self.id_ty) { return None }
        let v = self.p.ty(*a.get(1)?);
        Some(match v {
            Ty::Param(_) => Role::Art,
            Ty::Proj(t, _, _) if t.contains("CanStrong") => Role::Known,
            Ty::Adt(p, x) if is_set_path(&p) && x.first() == Some(&self.id_ty) => {
                let has = |l: &[&str]| l.iter().any(|x| name.contains(x));
                if has(&["dependenc", "deps_of", "depends_on", "uses", "needs", "requires", "child", "outgoing", "providers"]) { Role::Depy }
                else if has(&["dependent", "dependant", "user", "used_by", "rev", "rdep", "parent", "consumer", "client", "incoming", "invers", "back", "referrer"]) { Role::Dept }
                else { Role::Depy }
            }
            Ty::Adt(p, _) if p == "std::boxed::Box" => Role::Dyn,
            _ => return None,
        })
    }
}

pub fn is_map_path(p: &str) -> bool {
    p.ends_with("::HashMap") || p.ends_with("::BTreeMap")
}
pub fn is_set_path(p: &str) -> bool {
    p.ends_with("::HashSet") || p.ends_with("::BTreeSet")
}

impl World for CacheWorld {
    fn clauses(&self) -> Vec<Clause> {
        if let Some(h) = &self.hist {
            return h.facts.iter().enumerate().map(|(f, x)| if *x { (facts::bit(f as u16), 0) } else { (0, facts::bit(f as u16)) }).collect();
        }
        let mut r = inv(0);
        let s = &self.scen;
        let b = facts::bit;
        let yes = |f: u16| (b(f), 0u128);
        let no = |f: u16| (0u128, b(f));
        for w in 0..2u8 {
            for c in 0..3u8 {
                if !s.classes[c as usize] {
                    r.push(no(facts::dto(w, c)));
                    r.push(no(facts::dco(w, c)));
                    continue;
                }
                if !s.w_allow(w, c) { r.push(no(facts::dto(w, c))) }
                if let Some(wc) = s.wcl[w as usize] {
                    // w depends on class c: dependents of c include class of w
                    if !s.allow[c as usize][wc as usize] { r.push(no(facts::dco(w, c))) }
                }
            }
            if let (Some(wc), Some(oc)) = (s.wcl[w as usize], s.wcl[1 - w as usize]) {
                if !s.allow[wc as usize][oc as usize] { r.push(no(facts::e(w))) }
            }
            if s.gc { r.push(no(facts::dco(w, 0))) }
        }
        if let (true, Some(Id::W(w))) = (s.lone, s.target) {
            for c in 0..3 { r.push(no(facts::dto(w, c))) }
        }
        for x in [s.target, s.user].into_iter().flatten() {
            if let Id::W(w) = x { r.push(yes(facts::al(w))) }
        }
        if let Some(Id::W(w)) = s.user {
            r.push(yes(facts::k(w)));
            r.push(yes(facts::d(w)));
            r.push(no(facts::a(w)));
        }
        r
    }
    fn after_snap(&self, snaps: &[Snap]) -> Vec<Clause> {
        let mut r = vec![];
        for (i, s) in snaps.iter().enumerate() {
            let e = i as u16 + 1;
            r.extend(inv(e));
            // (clause of terms and literals) with the given polarity
            let mut add = |ts: &[(T, bool)]| {
                let mut c = (0u128, 0u128);
                for (t, pos) in ts {
                    match t {
                        T::True => if *pos { return },
                        T::F => if !*pos { return },
                        T::Free => return,
                        T::Lit(f) => if *pos { c.0 |= facts::bit(*f) } else { c.1 |= facts::bit(*f) },
                    }
                }
                r.push(c);
            };
            let now = |f: u16| T::Lit(f + e * NK);
            for f in 0..26u16 {
                if matches!(f, 6 | 7) { continue }
                // what was there stays
                add(&[(s.terms[f as usize], false), (now(f), true)]);
            }
            for w in 0..2u8 {
                if s.building & (1 << w) != 0 { add(&[(now(facts::a(w)), false)]) }
                // new dependencies are those of builders without artifact
                let (v, u) = (1 - w, w);
                add(&[(now(facts::e(u)), false), (s.terms[facts::e(u) as usize], true), (s.terms[facts::a(v) as usize], false)]);
                for c in 0..3 {
                    add(&[(now(facts::dco(w, c)), false), (s.terms[facts::dco(w, c) as usize], true), (s.terms[facts::a(w) as usize], false)]);
                }
            }
        }
        r
    }
    fn needed(&self) -> u128 {
        let mut r = 0;
        let mut add = |f: u16| r |= facts::bit(f);
        if self.precise >= 2 || (self.precise == 1 && !(self.invalidates() || self.op == Op::Gc)) { return u128::MAX }
        for w in 0..2u8 {
            for f in [facts::k(w), facts::a(w), facts::d(w), facts::al(w)] { add(f) }
            if matches!(self.op, Op::Gc | Op::LookupMut | Op::GetMut) || self.precise > 0 { add(facts::e(w)) }
            if self.op == Op::Gc {
                for f in [facts::l(w), facts::dto(w, 1)] { add(f) }
            }
            if self.precise > 0 {
                for c in 0..3 {
                    add(facts::dto(w, c));
                    add(facts::dco(w, c));
                }
            }
        }
        r
    }
    fn slot(&self, m: &mut M, r: Role, id: Id, epoch: u8) -> R<V> {
        let cache = epoch == 0 && m.st.snaps.is_empty() && matches!(r, Role::Dept | Role::Depy);
        if !cache { return self.slot2(m, r, id, epoch) }
        if let Some(v) = self.slots.borrow().get(&(r, id)) { return Ok(v.clone()) }
        let st = (m.st.known, m.st.vals);
        (m.st.known, m.st.vals) = (0, 0);
        let v = self.slot2(m, r, id, epoch);
        (m.st.known, m.st.vals) = st;
        let v = v?;
        self.slots.borrow_mut().insert((r, id), v.clone());
        Ok(v)
    }
    fn downcast(&self, m: &mut M, _have: u32, want: u32, v: &V) -> Option<bool> {
        self.type_ok(m, want, v)
    }
    fn call(&self, m: &mut M, c: &Callee, a: &[V]) -> R<Option<Res>> {
        let ret = |v: V| Ok(Some(Res::Ret(v)));
        let tr = c.trait_.as_deref().unwrap_or("").rsplit("::").next().unwrap_or("").to_string();
        if c.resolved && !matches!(tr.as_str(), "Promise" | "Builder" | "Doctor") { return Ok(None) }
        let id = |m: &mut M, i: usize| -> R<Id> {
            match a.get(i) {
                Some(v) => match m.id_of(v)? { Some((i, _)) => Ok(i), None => { m.imprecise("identity lost"); Ok(Id::O(0)) } },
                None => Ok(Id::O(0)),
            }
        };
        match (tr.as_str(), c.name.as_str()) {
            ("Promise", "id") => {
                let i = id(m, 0)?;
                ret(m.wrap(self.id_ty, ptr(i)))
            }
            ("Promise", n) => {
                let i = id(m, 0)?;
                let f = self.p.find_fns(|f| f.name == n && matches!(&f.impl_trait, Some((t, _)) if t.ends_with("Promise")));
                let Some(out) = f.first().and_then(|f| f.sig_output) else { return Ok(None) };
                let leaf = if n == "builder" { V::Sym(Sym::Builder(i)) } else { V::Sym(Sym::Can(i)) };
                ret(self.mk(m, out, &leaf, i))
            }
            ("CanBase" | "Can", "can_as_ptr" | "bin_as_ptr") => {
                let i = id(m, 0)?;
                ret(ptr(i))
            }
            ("CanStrong", "downgrade") => {
                let i = id(m, 0)?;
                ret(V::Sym(Sym::Weak(i)))
            }
            ("CanStrong", "upgrade_from_weak") => {
                let i = id(m, 0)?;
                let alive = match i {
                    Id::W(w) => m.fact(facts::al(w))?,
                    Id::O(c) => if self.scen.gc { c == 1 } else { m.flip() },
                };
                let t = matches!(i, Id::O(_));
                ret(if alive { V::some(V::Sym(Sym::Can(i)), t) } else { V::none(t) })
            }
            ("CanSized", "from_bin" | "into_bin") => ret(a[0].clone()),
            (_, "downcast_can" | "downcast_can_ref" | "downcast_can_mut") => {
                let v = m.deref(&a[0])?;
                let want = c.args.get(1).copied().unwrap_or(u32::MAX);
                let ok = self.type_ok(m, want, &v).unwrap_or(true);
                let t = matches!(v, V::Sym(Sym::Art(Id::O(_), _)));
                ret(if ok { V::some(a[0].clone(), t) } else { V::none(t) })
            }
            ("Clone", "clone") => {
                let v = m.deref(&a[0])?;
                ret(v)
            }
            ("Builder", "init_dyn_state") => {
                let i = id(m, 0)?;
                self.user_code(m, "init_dyn_state");
                let nested = self.nested(m).is_some();
                event(m, if nested { "nested init" } else { "init" }, vec![ptr(i)]);
                if let (Some(t), false) = (self.scen.target, nested) {
                    m.obl("C06");
                    if t != i && self.op != Op::Other { self.fail(m, "C06", "the state initializer of another builder is run") }
                }
                if let Id::W(w) = i {
                    let d = self.term(m, facts::d(w));
                    self.chk(m, "C06", &[(d, true)], "the state initializer is run although there is a state");
                }
                if m.flip() { return Ok(Some(Res::Panic(true, "init_dyn_state".into()))) }
                ret(V::Sym(Sym::Dyn(i, if nested { Gen::Nested } else { Gen::New })))
            }
            ("Builder", "build") => {
                let i = id(m, 0)?;
                self.user_code(m, "build");
                let nested = self.nested(m).is_some();
                event(m, if nested { "nested build" } else { "build" }, vec![ptr(i)]);
                m.obl("C01");
                if !nested && Some(i) != self.scen.target && self.op != Op::Other { self.fail(m, "C01", "the builder that is run is not the one asked for") }
                if count(m, "build") > 1 { self.fail(m, "C01", "a builder is run more than once") }
                // the resolver is of this builder
                let r = m.deref(&a[1])?;
                if let V::Adt(_, _, f, _) = &r {
                    let mut any = false;
                    for x in f.clone() {
                        if matches!(m.deref(&x)?, V::Adt(ref p, ..) if self.is_raw(p)) { continue }
                        if let Some((j, _)) = m.id_of(&x)? {
                            any = true;
                            m.obl("C04");
                            if j != i {
                                for p in ["C04", "C24", "C16"] { self.fail(m, p, "the resolver given to the builder is that of another one") }
                            }
                        }
                    }
                    if !any { m.imprecise("resolver") }
                } else { m.imprecise("resolver") }
                if let Id::W(w) = i {
                    let d = self.term(m, facts::d(w));
                    self.chk(m, "C06", &[(d, false)], "the builder is run before its dynamic state exists");
                    let k = self.term(m, facts::k(w));
                    self.chk(m, "C12|C30", &[(k, false)], "the builder is run before it is known");
                    let x = self.term(m, facts::a(w));
                    self.chk(m, "C01", &[(x, true)], "the builder is run although its artifact is stored");
                    if let Some(Id::W(u)) = self.scen.user {
                        if self.op == Op::Resolve { self.check_edge(m, u, w, "when the resolved builder is run") }
                    }
                    m.st.building |= 1 << w;
                }
                if let Some(u) = self.scen.user {
                    if self.op == Op::Resolve { self.guarantee(m, u, "when the resolved builder is run") }
                } else if !matches!(self.op, Op::Other) && !nested {
                    self.nothing_lost(m, if self.invalidates() { None } else { Some("C01") }, "C06", "C12", "when the builder is run");
                }
                if let (Some(h), Id::W(w)) = (&self.hist, i) {
                    // what a builder can do: resolve the other one, unless that is at work
                    let o = 1 - w;
                    let n = if m.st.building & (1 << o) == 0 && h.alive[o as usize] { h.resolve.len() } else { 0 };
                    let c = m.choose(n + 1);
                    if c == 0 { return self.built(m, w, nested).map(Some) }
                    event(m, &format!("w{} resolves w{}", w + 1, o + 1), vec![]);
                    m.push_nat(Nat::World(w as u32), vec![]);
                    m.push_inst(h.resolve[c - 1], vec![a[1].clone(), V::RefVal(Box::new(V::Sym(Sym::Prom(Id::W(o)))))]);
                    return Ok(Some(Res::Pushed));
                }
                self.havoc(m)?;
                match m.choose(3) {
                    0 => {
                        if let Id::W(w) = i { m.st.building &= !(1 << w) }
                        event(m, "built", vec![ptr(i)]);
                        ret(V::ok(V::Sym(Sym::Art(i, Gen::New))))
                    }
                    1 => {
                        event(m, "failed", vec![ptr(i)]);
                        ret(V::err(V::Sym(Sym::Err(i))))
                    }
                    _ => Ok(Some(Res::Panic(true, "build".into()))),
                }
            }
            ("Doctor", n) => {
                let mut l = vec![];
                for x in &a[1..] {
                    let x = m.deep(x, 9)?;
                    // an artifact, or a builder
                    let mut art = None;
                    x.walk(&mut |y| if let V::Sym(s @ Sym::Art(..)) = y { art = Some(s.clone()) });
                    if let Some(s) = art { l.push(V::Sym(s)) } else if let Some((i, _)) = m.id_of(&x)? { l.push(ptr(i)) } else { l.push(V::Unk) }
                }
                event(m, &format!("{}doctor {}", if self.nested(m).is_some() { "nested " } else { "" }, n), l);
                ret(V::unit())
            }
            ("AsRef", "as_ref") => ret(a[0].clone()),
            ("Default", "default") => ret(V::Sym(Sym::Doctor)),
            ("Drop", _) => ret(V::unit()),
            ("Debug" | "Display" | "Pointer", "fmt") => ret(if m.flip() { V::ok(V::unit()) } else { V::err(V::Any) }),
            _ => Ok(None),
        }
    }
    fn nat_return(&self, m: &mut M, k: u32, v: V) -> R<Res> {
        if matches!(&v, V::Adt(p, 0, ..) if p.ends_with("Result")) { event(m, &format!("w{} uses w{}", k + 1, 2 - k), vec![]) }
        // (whatever the other builder yielded)
        let outer = m.st.frames.iter().filter(|f| matches!(f.kind, FK::Nat(Nat::World(_)))).count() > 1;
        self.built(m, k as u8, outer)
    }
    fn exit(&self, m: &mut M, x: &Exit) -> R<()> {
        if let Some(h) = &self.hist {
            let (v, p) = match (x, self.op) {
                (Exit::Ret(v), Op::New) => (Some(m.deref(v)?), false),
                (Exit::Ret(_), _) => (Some(m.st.globals[0].clone()), false),
                (Exit::Panic(i), _) if i.user => (Some(m.st.globals[0].clone()), true),
                _ => (None, false),
            };
            if let (Some(v), true) = (v, m.st.imprecise.is_none()) {
                let uses = if self.op == Op::New { [false; 2] } else { self.made_from(m, h, x)? };
                h.outs.borrow_mut().push((v, p, uses))
            }
        }
        match x {
            Exit::Panic(i) if !i.user => {
                let loc = i.loc.to_string();
                if self.op != Op::New {
                    // (a known builder has no state only after its initializer panicked)
                    let cl = m.clauses();
                    let must = |f: u16, v: bool| { let b = facts::bit(f); if m.st.known & b != 0 { return (m.st.vals & b != 0) == v } !facts::sat(m.st.known | b, if v { m.st.vals & !b } else { m.st.vals | b }, &cl) };
                    let after = (0..2u8).any(|w| must(facts::k(w), true) && must(facts::d(w), false));
                    m.violate(if after { "C22|C25" } else { "C22" }, format!("panics: {} [{}]", i.what, self.scen.name), loc.clone());
                    if i.loc.contains("downcast") || i.what.contains("invalid type") { m.violate("C15", format!("panics: {} [{}]", i.what, self.scen.name), loc) }
                }
                return Ok(());
            }
            _ => {}
        }
        m.obl("C22");
        if self.op == Op::New {
            if let Exit::Ret(v) = x { self.check_new(m, v)? }
            return Ok(());
        }
        if !self.mutable {
            return self.exit2(m, x);
        }
        let (prop, when) = match x { Exit::Ret(_) => ("C12", "on return"), Exit::Panic(_) => ("C25", "after a panic of user code") };
        self.check_inv(m, prop, when, true);
        self.check_complete(m);
        self.exit2(m, x)
    }
}

impl CacheWorld {
    /// The builder at work on whose behalf the current code runs, if that is not the operation's own.
    fn nested(&self, m: &M) -> Option<u8> {
        self.hist.as_ref()?;
        m.st.frames.iter().rev().find_map(|f| match f.kind { FK::Nat(Nat::World(k)) => Some(k as u8), _ => None })
    }
    /// An artifact must be gone if one that it was made from is (or may be changed).
    fn made_from(&self, m: &mut M, h: &Hist, x: &Exit) -> R<[bool; 2]> {
        let mut now = [None, None];
        if let Some(V::Map(mm)) = self.part(m, Role::Art) {
            for w in 0..2 {
                if let Slot::Val(v) = &mm.slots[w] {
                    let v = v.clone();
                    if let V::Sym(Sym::Art(i, g)) = m.deep(&v, 9)? { if i == Id::W(w as u8) { now[w] = Some(g) } }
                }
            }
        }
        let mut r = [false; 2];
        let given = |m: &mut M| -> R<bool> {
            let Exit::Ret(v) = x else { return Ok(false) };
            let v = m.deref(v)?;
            Ok(matches!(self.op, Op::GetMut | Op::LookupMut) && matches!(&v, V::Adt(p, i, ..) if p.ends_with("Result") && *i == 0 || p.ends_with("Option") && *i == 1))
        };
        for w in 0..2usize {
            let o = 1 - w;
            m.obl("C02"); m.obl("C28");
            r[w] = match now[w] {
                Some(Gen::Init) if h.uses[w] => {
                    if now[o] != Some(Gen::Init) {
                        self.fail(m, "C01|C02|C28", &format!("the artifact of w{} is kept although that of w{}, from which it was made, is {}", w + 1, o + 1, if now[o].is_some() { "replaced" } else { "dropped" }));
                    } else if self.scen.target == Some(Id::W(o as u8)) && given(m)? {
                        self.fail(m, "C02|C28", &format!("the artifact of w{} is kept although that of w{}, from which it was made, may be changed", w + 1, o + 1));
                    }
                    now[o].is_some()
                }
                Some(Gen::Init) | None => false,
                Some(_) => count(m, &format!("w{} uses w{}", w + 1, o + 1)) > 0,
            };
        }
        Ok(r)
    }
    fn built(&self, m: &mut M, w: u8, nested: bool) -> R<Res> {
        let i = Id::W(w);
        let n = if nested { "nested " } else { "" };
        m.st.building &= !(1 << w);
        Ok(match m.choose(3) {
            0 => {
                event(m, &format!("{}built", n), vec![ptr(i)]);
                Res::Ret(V::ok(V::Sym(Sym::Art(i, if nested { Gen::Nested } else { Gen::New }))))
            }
            1 => {
                event(m, &format!("{}failed", n), vec![ptr(i)]);
                Res::Ret(V::err(V::Sym(Sym::Err(i))))
            }
            _ => Res::Panic(true, "build".into()),
        })
    }
    fn slot2(&self, m: &mut M, r: Role, id: Id, epoch: u8) -> R<V> {
        let e = epoch as u16;
        Ok(match (r, id) {
            (Role::Art | Role::Dyn, _) => {
                let mut gen = Gen::Init;
                if let Id::W(w) = id {
                    if epoch > 0 {
                        let t = m.st.snaps[epoch as usize - 1].terms[role_fact(r, w) as usize];
                        let t = self.origin(m, t);
                        gen = match t {
                            T::Lit(f) => if m.fact(f)? { Gen::Init } else { Gen::Nested },
                            _ => Gen::Nested,
                        };
                    }
                }
                if r == Role::Art { V::Sym(Sym::Art(id, gen)) } else { V::Box(BoxK::Box, Box::new(V::Dyn(u32::MAX, Box::new(V::Sym(Sym::Dyn(id, gen)))))) }
            }
            (Role::Known, _) => V::Sym(Sym::Weak(id)),
            (Role::Dept | Role::Depy, Id::W(w)) => {
                let mut c = coll(true);
                c.ety = self.id_ty;
                let o = 1 - w;
                let k = m.wrap(self.id_ty, ptr(Id::W(o)));
                c.elems.insert(k, Cnt::Fact(if r == Role::Dept { facts::e(w) } else { facts::e(o) } + e * NK));
                for cl in 0..3u8 {
                    let f = if r == Role::Dept { facts::dto(w, cl) } else { facts::dco(w, cl) } + e * NK;
                    if m.possible(&[(T::Lit(f), true)]) {
                        let k = m.wrap(self.id_ty, ptr(Id::O(cl)));
                        c.elems.insert(k, Cnt::Fact(f));
                    }
                }
                V::Coll(Rc::new(c))
            }
            (Role::Dept | Role::Depy, Id::O(cl)) => {
                let mut c = coll(true);
                c.ety = self.id_ty;
                c.taint = true;
                for w in 0..2u8 {
                    // dependents of the other: w depends on it
                    let f = if r == Role::Dept { facts::dco(w, cl) } else { facts::dto(w, cl) };
                    if e > 0 || m.possible(&[(T::Lit(f), true)]) {
                        let k = m.wrap(self.id_ty, ptr(Id::W(w)));
                        c.elems.insert(k, Cnt::May);
                    }
                }
                for d in 0..3u8 {
                    let ok = if r == Role::Dept { self.scen.allow[cl as usize][d as usize] } else { self.scen.allow[d as usize][cl as usize] };
                    if e > 0 || (ok && self.scen.classes[d as usize]) {
                        let k = m.wrap(self.id_ty, ptr(Id::O(d)));
                        c.elems.insert(k, Cnt::May);
                    }
                }
                V::Coll(Rc::new(c))
            }
            (Role::Leaf, _) => V::unit(),
        })
    }
    fn type_ok(&self, m: &mut M, want: u32, v: &V) -> Option<bool> {
        let t = m.p.ty(want);
        let (id, item) = match v {
            V::Sym(Sym::Art(i, _)) => (*i, "Artifact"),
            V::Sym(Sym::Dyn(i, _)) => (*i, "DynState"),
            _ => return None,
        };
        let (target, user) = match self.nested(m) { Some(u) => (Some(Id::W(1 - u)), Some(Id::W(u))), None => (self.scen.target, self.scen.user) };
        let same = |x: Option<Id>| match (x, id) { (Some(Id::O(_)), Id::O(_)) => true, (Some(a), b) => a == b, _ => false };
        let ok = match &t {
            Ty::Proj(tr, n, _) if tr.rsplit("::").next() == Some("Builder") => n == item && same(target),
            Ty::Param(_) => item == "DynState" && same(user),
            _ => false,
        };
        m.obl("C15");
        if !ok && !m.tainted() {
            let ts = m.p.show_ty(want);
            let loc = m.here();
            m.violate("C15", format!("{} is read as {} [{}]", show(v), ts, self.scen.name), loc);
        }
        Some(ok)
    }
    /// u depends on v, by both relations
    fn check_edge(&self, m: &mut M, u: u8, v: u8, when: &str) {
        if u == v { return }
        let ed = self.term(m, facts::e(v));
        let ey = self.term_ey(m, v);
        self.chk(m, "C04", &[(ed, false)], &format!("{}: the resolving builder is not among the dependents of the resolved one", when));
        self.chk(m, "C04", &[(ey, false)], &format!("{}: the resolved builder is not among the dependencies of the resolving one", when));
        for w in [u, v] {
            let k = self.term(m, facts::k(w));
            self.chk(m, "C04|C30", &[(k, false)], &format!("{}: a builder with recorded dependency is not known", when));
        }
    }
    /// What builders at work may do to the cache.
    fn guarantee(&self, m: &mut M, u: Id, when: &str) {
        for w in 0..2u8 {
            let n = w + 1;
            self.keeps(m, "C24", facts::a(w), &format!("{}: a resolver method drops or replaces the artifact of w{}", when, n));
            self.keeps(m, "C24", facts::d(w), &format!("{}: a resolver method drops or replaces the dynamic state of w{}", when, n));
            self.keeps(m, "C24", facts::k(w), &format!("{}: a resolver method makes w{} unknown", when, n));
            self.keeps(m, "C04", facts::e(w), &format!("{}: a resolver method drops the recorded dependency of w{} on w{}", when, 2 - w, n));
            for c in 0..3 {
                self.keeps(m, "C04", facts::dto(w, c), &format!("{}: a resolver method drops a recorded dependency on w{}", when, n));
                self.keeps(m, "C04", facts::dco(w, c), &format!("{}: a resolver method drops a recorded dependency of w{}", when, n));
            }
            // only builders without artifact get new dependencies
            let (v, uu) = (1 - w, w);
            let now = self.term(m, facts::e(uu));
            let old = self.init(facts::e(uu));
            let av = self.init(facts::a(v));
            if m.epoch() == 0 {
                self.chk(m, "C04", &[(old, false), (now, true), (av, true)], &format!("{}: a dependency of w{} on w{} is recorded although w{} is not being built", when, v + 1, uu + 1, v + 1));
            }
        }
        if let Id::W(w) = u {
            let t = self.term(m, facts::a(w));
            self.chk(m, "C05", &[(t, true)], &format!("{}: an artifact of a builder still at work is stored", when));
        }
    }
    fn nothing_lost(&self, m: &mut M, art: Option<&str>, state: &str, rest: &str, when: &str) {
        for w in 0..2u8 {
            let n = w + 1;
            if let Some(p) = art {
                self.keeps(m, p, facts::a(w), &format!("{}: the artifact of w{} has been dropped or replaced", when, n));
            }
            self.keeps(m, state, facts::d(w), &format!("{}: the dynamic state of w{} has been dropped or replaced", when, n));
            self.keeps(m, rest, facts::k(w), &format!("{}: w{} is not known any more", when, n));
        }
    }

    fn check_new(&self, m: &mut M, v: &V) -> R<()> {
        let v = m.deref(v)?;
        let mut n = 0;
        let mut bad = vec![];
        v.walk(&mut |x| match x {
            V::Map(mm) => {
                n += 1;
                if mm.slots.iter().any(|s| *s != Slot::Abs) || mm.oth.iter().any(|o| o.is_some()) { bad.push("a map is not empty") }
            }
            V::Coll(c) => {
                n += 1;
                if !c.elems.is_empty() { bad.push("a set is not empty") }
            }
            _ => {}
        });
        m.obl("C09");
        if n == 0 {
            m.imprecise("new cache");
            self.fail(m, "C09", "the result is not recognised as a cache");
        }
        for b in bad { self.fail(m, "C09", &format!("the new cache is not empty: {}", b)) }
        if self.fname.contains("new_with_doctor") {
            let mut has = false;
            v.walk(&mut |x| if let V::Sym(Sym::Named(s, _)) = x { if &**s == "given doctor" { has = true } });
            m.obl("C09");
            if !has { self.fail(m, "C09", "the new cache does not have the given doctor") }
        }
        Ok(())
    }

    fn exit2(&self, m: &mut M, x: &Exit) -> R<()> {
        let s = self.scen.clone();
        let t = s.target;
        let tw = match t { Some(Id::W(w)) => Some(w), _ => None };
        let res = match x { Exit::Ret(v) => Some(m.deep(v, 12)?), _ => None };
        let panicked = res.is_none();
        let builds = count(m, "build");
        let inits = count(m, "init");
        let op = self.op;
        // ---- general ----
        self.check_doctor(m, panicked);
        match op {
            Op::Lookup | Op::GetDyn | Op::IsKnown | Op::Count => {
                self.same(m, "C07", "a lookup changes the cache");
                if let (Some(V::Map(_)), _) = (self.part(m, Role::Art), 0) {}
                for r in [Role::Art, Role::Dyn, Role::Known, Role::Dept, Role::Depy] { self.others_same(m, "C07", r) }
            }
            Op::LookupMut => {
                for w in 0..2u8 {
                    for f in [facts::k(w), facts::a(w), facts::d(w), facts::e(w)] {
                        let i = self.init(f);
                        let n = self.term(m, f);
                        self.chk(m, "C07", &[(i, false), (n, true)], &format!("a lookup adds something: {}", facts::name(f)));
                    }
                }
            }
            _ => {}
        }
        if self.resolver && op == Op::Other { self.guarantee(m, s.user.unwrap(), "at exit") }
        // ---- invalidation ----
        if self.invalidates() {
            for w in 0..2u8 {
                let n = w + 1;
                if s.wcl[w as usize] == Some(1) || (s.acyclic && s.wcl[w as usize] == Some(2)) {
                    self.keeps(m, "C03", facts::a(w), &format!("the artifact of w{}, which does not depend on the target, is dropped", n));
                }
                if !(op == Op::Purge && tw == Some(w)) {
                    self.keeps(m, "C03|C06", facts::d(w), &format!("the dynamic state of w{} is dropped", n));
                    self.keeps(m, "C03", facts::k(w), &format!("w{} becomes unknown", n));
                }
            }
            if let (Some(w), false) = (tw, s.acyclic) {
                if matches!(op, Op::Invalidate | Op::DynStateMut | Op::Purge) {
                    for p in if op == Op::DynStateMut { &["C02", "C06", "C28"][..] } else { &["C02"][..] } {
                        self.absent(m, p, facts::a(w), "the artifact of the target is still there");
                    }
                }
            }
        }
        if !self.invalidates() && !matches!(op, Op::ClearAll | Op::ClearArtifacts | Op::Gc | Op::Other) {
            // (as far as visible: the result of the operation)
            let failed = match &res { Some(v) => is_err(v), None => false };
            let (art, state, rest) = match (panicked, failed) {
                (true, _) => ("C01|C25", "C06|C25", "C12|C25"),
                (_, true) => ("C01|C05", "C06|C05", "C12|C05"),
                _ if op == Op::DynState => ("C01|C06", "C06", "C12|C06"),
                _ => ("C01", "C06", "C12|C01"),
            };
            self.nothing_lost(m, Some(art), state, rest, "at exit");
        } else if panicked {
            for w in 0..2u8 { self.keeps(m, "C25", facts::d(w), "the dynamic state is lost by a panic"); }
        }
        if panicked {
            if let Some(w) = tw {
                if builds > 0 { self.absent(m, "C25", facts::a(w), "an artifact is stored although the build panicked"); }
            }
        }
        match op {
            Op::Lookup | Op::LookupMut => if let Some(r) = &res { self.check_opt(m, r, facts::a, "C07", false, s.acyclic || op == Op::Lookup)? },
            Op::GetDyn => if let Some(r) = &res { self.check_opt(m, r, facts::d, "C07", true, true)? },
            Op::IsKnown => {
                m.obl("C07");
                match (&res, tw) {
                    (Some(V::Bool(b, _)), Some(w)) => self.chk(m, "C07", &[(T::Lit(facts::k(w)), !*b)], "the answer whether a builder is known is wrong"),
                    (Some(V::Bool(..)), None) => {}
                    (Some(r), _) => { let s = show(r); if *r == V::Unk { m.imprecise("result") } self.fail(m, "C07", &format!("the answer whether a builder is known is {}", s)) }
                    _ => {}
                }
            }
            Op::Count => {
                m.obl("C07");
                if res != Some(V::Sym(Sym::Len(Role::Known as u8))) {
                    let s = res.as_ref().map(show).unwrap_or_default();
                    if res == Some(V::Unk) { m.imprecise("result") }
                    self.fail(m, "C07", &format!("the number of known builders is computed as {}", s));
                }
            }
            Op::Get | Op::GetMut | Op::Resolve => {
                if let Some(w) = tw {
                    if !(op == Op::GetMut && !s.acyclic) {
                        if builds > 0 { self.chk(m, "C01", &[(T::Lit(facts::a(w)), true)], "the builder is run although its artifact was stored"); }
                    }
                    if inits > 0 { self.chk(m, "C06", &[(T::Lit(facts::d(w)), true)], "the state is initialised although there was one") }
                    if inits > 1 { self.fail(m, "C06", "the state is initialised more than once") }
                }
                if builds > 1 { self.fail(m, "C01", "more than one build for one request") }
                let t = t.unwrap();
                if let Some(r) = &res {
                    match r {
                        V::Adt(p, 0, f, _) if p.ends_with("Result") => {
                            m.obl("C01");
                            let want = if builds > 0 { Gen::New } else { Gen::Init };
                            let got = f.first().cloned().unwrap_or(V::Unk);
                            let okv = match (&got, t) {
                                (V::Sym(Sym::Art(i, g)), Id::W(_)) => *i == t && *g == want,
                                (V::Sym(Sym::Art(Id::O(_), _)), Id::O(_)) => true,
                                _ => false,
                            };
                            if !okv {
                                if got == V::Unk { m.imprecise("result") }
                                let g = show(&got);
                                self.fail(m, "C01", &format!("the result is {} instead of the artifact of the target ({})", g, if builds > 0 { "just built" } else { "stored" }));
                                if builds == 0 && count(m, "failed") == 0 && got != V::Unk { let g = show(&got); self.fail(m, "C05", &format!("the result is {}", g)) }
                            }
                            if count(m, "failed") > 0 { self.fail(m, "C05", "the build failed, but the result is Ok") }
                            if builds == 0 {
                                if let Some(w) = tw { self.chk(m, "C01", &[(T::Lit(facts::a(w)), false)], "an artifact is returned that neither was stored nor has been built"); }
                            } else if let Some(w) = tw {
                                // stored under this builder
                                let st = match self.part(m, Role::Art) { Some(V::Map(mm)) => match &mm.slots[w as usize] { Slot::Val(v) => Some((**v).clone()), _ => None }, _ => None };
                                m.obl("C01");
                                let st = match st { Some(v) => m.deep(&v, 9).ok(), None => None };
                                if st != Some(V::Sym(Sym::Art(t, Gen::New))) {
                                    let s = st.as_ref().map(show).unwrap_or("nothing".into());
                                    self.fail(m, "C01", &format!("after a successful build {} is stored for the builder", s));
                                }
                            }
                        }
                        V::Adt(p, 1, f, _) if p.ends_with("Result") => {
                            m.obl("C05");
                            let got = f.first().cloned().unwrap_or(V::Unk);
                            let ok = matches!((&got, t), (V::Sym(Sym::Err(i)), t) if *i == t);
                            if !ok {
                                if got == V::Unk { m.imprecise("result") }
                                let g = show(&got);
                                self.fail(m, "C05", &format!("the error returned is {} instead of the builder's", g))
                            }
                            if count(m, "failed") == 0 { self.fail(m, "C05", "an error is returned although the builder did not fail") }
                            if let Some(w) = tw {
                                self.absent(m, "C05", facts::a(w), "an artifact is stored for a builder that failed");
                            }
                        }
                        r => {
                            let g = show(r);
                            if *r == V::Unk || *r == V::Any { m.imprecise("result") }
                            self.fail(m, "C01", &format!("the result is {}", g));
                        }
                    }
                }
                if let Some(w) = tw {
                    if builds == 0 && !panicked && count(m, "failed") == 0 { self.chk(m, "C01", &[(T::Lit(facts::a(w)), false)], "nothing was stored, but the builder has not been run") }
                }
            }
            Op::DynState | Op::DynStateMut => {
                if builds > 0 { self.fail(m, "C06", "accessing a state runs the builder") }
                if let Some(r) = &res {
                    m.obl("C06");
                    let t = t.unwrap();
                    let want = if inits > 0 { Gen::New } else { Gen::Init };
                    let ok = match (r, t) {
                        (V::Sym(Sym::Dyn(i, g)), Id::W(_)) => *i == t && *g == want,
                        (V::Sym(Sym::Dyn(Id::O(_), _)), Id::O(_)) => true,
                        _ => false,
                    };
                    if !ok {
                        if *r == V::Unk { m.imprecise("result") }
                        let g = show(r);
                        self.fail(m, "C06", &format!("the state returned is {}", g))
                    }
                    if let Some(w) = tw {
                        if inits > 0 { self.chk(m, "C06", &[(T::Lit(facts::d(w)), true)], "the state is initialised although there was one") } else { self.chk(m, "C06", &[(T::Lit(facts::d(w)), false)], "the state is not initialised by the initializer") }
                        let d = self.term(m, facts::d(w));
                        self.chk(m, "C06", &[(d, false)], "the state is not kept");
                    }
                    if inits > 1 { self.fail(m, "C06", "the state is initialised more than once") }
                }
            }
            Op::MyState => {
                if let (Some(r), Some(u)) = (&res, s.user) {
                    m.obl("C06");
                    let ok = match (r, u) { (V::Sym(Sym::Dyn(i, Gen::Init)), Id::W(_)) => *i == u, (V::Sym(Sym::Dyn(Id::O(_), _)), Id::O(_)) => true, _ => false };
                    if !ok {
                        if *r == V::Unk { m.imprecise("result") }
                        let g = show(r);
                        for p in ["C06", "C24"] { self.fail(m, p, &format!("the state given to the builder is {}", g)) }
                    }
                }
                self.same(m, "C24", "accessing the own state changes the cache");
                self.guarantee(m, s.user.unwrap(), "at exit");
            }
            Op::Purge => {
                if let Some(w) = tw {
                    for f in [facts::k(w), facts::a(w), facts::d(w), facts::l(w), facts::t(w), facts::c(w), facts::e(w), facts::e(1 - w)] {
                        self.absent(m, "C08", f, &format!("after purging w{}: {}", w + 1, facts::name(f)));
                    }
                    let y = self.term_ey(m, w);
                    self.chk(m, "C08", &[(y, true)], "the purged builder is still recorded as dependency");
                }
            }
            Op::ClearArtifacts | Op::ClearAll => {
                let all = op == Op::ClearAll;
                for w in 0..2u8 {
                    for f in [facts::a(w), facts::e(w), facts::dto(w, 0), facts::dco(w, 0)] {
                        self.absent(m, "C09", f, &format!("after clearing: {}", facts::name(f)));
                    }
                    let y = self.term_ey(m, w);
                    self.chk(m, "C09", &[(y, true)], "a dependency is still recorded");
                    for f in [facts::k(w), facts::d(w)] {
                        if all { self.absent(m, "C09", f, &format!("after clearing everything: {}", facts::name(f))) } else { self.keeps(m, "C09", f, &format!("clearing the artifacts drops: {}", facts::name(f))) }
                    }
                    if all {
                        for f in [facts::l(w), facts::t(w), facts::c(w)] { self.absent(m, "C09", f, &format!("after clearing everything: {}", facts::name(f))) }
                    } else {
                        let l = self.term(m, facts::l(w));
                        self.chk(m, "C09", &[(T::Lit(facts::k(w)), true), (l, false)], "a known builder is no candidate for garbage collection after clearing the artifacts");
                    }
                }
                for r in [Role::Art, Role::Dept, Role::Depy, Role::Dyn, Role::Known] {
                    let Some(V::Map(mm)) = self.part(m, r) else { continue };
                    let gone = mm.oth.iter().all(|o| o.is_none());
                    m.obl("C09");
                    if self.hist.is_some() {} else if matches!(r, Role::Dyn | Role::Known) && !all {
                        if gone { self.fail(m, "C09", &format!("clearing the artifacts removes {:?} of other builders", r)) }
                    } else if !gone && (matches!(r, Role::Art) || all) {
                        self.fail(m, "C09", &format!("{:?} of other builders may be left", r))
                    }
                }
                if all {
                    if let Some(V::Coll(c)) = self.part(m, Role::Leaf) {
                        if c.elems.keys().any(is_o) { self.fail(m, "C09", "candidates for garbage collection are left") }
                    }
                }
            }
            Op::Gc => {
                for w in 0..2u8 {
                    let o = 1 - w;
                    let alive = (T::Lit(facts::al(w)), true);
                    for f in [facts::k(w), facts::a(w), facts::d(w)] {
                        let i = self.init(f);
                        let k = self.kept(m, f);
                        self.chk(m, "C10", &[alive, (i, true), (k, false)], &format!("lost although the builder is referenced from outside: {}", facts::name(f)));
                        let e = self.init(facts::e(w));
                        let ok = self.kept(m, facts::k(o));
                        self.chk(m, "C10", &[(e, true), (T::Lit(facts::k(o)), true), (ok, true), (i, true), (k, false)], &format!("lost although w{} depends on it: {}", o + 1, facts::name(f)));
                        self.chk(m, "C10", &[(T::Lit(facts::dto(w, 1)), true), (i, true), (k, false)], &format!("lost although a builder that can be reached depends on it: {}", facts::name(f)));
                    }
                    let dead = [(T::Lit(facts::al(w)), false), (T::Lit(facts::k(w)), true), (T::Lit(facts::l(w)), true)];
                    for f in [facts::k(w), facts::a(w), facts::d(w), facts::l(w), facts::t(w), facts::c(w), facts::e(o)] {
                        let n = self.term(m, f);
                        let mut c = dead.to_vec();
                        c.push((n, true));
                        self.chk(m, "C11", &c, &format!("left of an unreachable builder without dependents: {}", facts::name(f)));
                    }
                    let y = self.term_ey(m, w);
                    let mut c = dead.to_vec();
                    c.push((y, true));
                    self.chk(m, "C11", &c, "an unreachable builder is still recorded as dependency");
                    // others keep their artifacts
                    let i = self.init(facts::a(w));
                    let k = self.kept(m, facts::a(w));
                    let kk = self.kept(m, facts::k(w));
                    self.chk(m, "C10", &[(i, true), (k, false), (kk, true)], &format!("the artifact of w{}, which is not collected, is dropped", w + 1));
                }
            }
            _ => {}
        }
        if op == Op::Resolve {
            let u = s.user.unwrap();
            if let (Id::W(u), Some(w)) = (u, tw) {
                self.check_edge(m, u, w, "at exit");
                if m.epoch() == 0 {
                    // and not the other way
                    let i = self.init(facts::e(u));
                    let n = self.term(m, facts::e(u));
                    self.chk(m, "C04", &[(i, false), (n, true)], "the dependency is recorded in the wrong direction");
                }
            }
            if let (Id::W(u), Some(Id::O(c))) = (u, t) {
                let x = self.term(m, facts::dco(u, c));
                self.chk(m, "C04|C28", &[(x, false)], "at exit: the dependency is not recorded for the resolving builder");
            }
            if let (Id::O(c), Some(w)) = (u, tw) {
                let x = self.term(m, facts::dto(w, c));
                self.chk(m, "C04|C28", &[(x, false)], "at exit: the dependency is not recorded for the resolved builder");
            }
            self.guarantee(m, u, "at exit");
        }
        if matches!(op, Op::Invalidate | Op::Purge) && (builds > 0 || inits > 0) {
            self.fail(m, "C03", "invalidation runs user code");
        }
        Ok(())
    }
    fn others_same(&self, m: &mut M, prop: &str, r: Role) {
        if let Some(V::Map(mm)) = self.part(m, r) {
            m.obl(prop);
            for c in 0..3 {
                if self.scen.classes[c] && mm.oth[c].is_none() { self.fail(m, prop, &format!("{:?} of other builders is removed", r)) }
                if let Some((Cnt::Must, _)) = mm.oth[c] { self.fail(m, prop, &format!("{:?} of another builder is added", r)) }
            }
        }
    }
    fn check_opt(&self, m: &mut M, r: &V, f: fn(u8) -> u16, prop: &str, dyn_: bool, strict: bool) -> R<()> {
        let t = self.scen.target.unwrap();
        m.obl(prop);
        match r {
            V::Adt(p, 0, _, _) if p.ends_with("Option") => {
                if let (Id::W(w), true) = (t, strict) {
                    self.chk(m, prop, &[(T::Lit(f(w)), true)], "nothing is found although it is stored");
                    if !dyn_ { self.chk(m, "C01", &[(T::Lit(f(w)), true)], "nothing is found although it is stored") } else { self.chk(m, "C06", &[(T::Lit(f(w)), true)], "nothing is found although it is stored") }
                }
            }
            V::Adt(p, 1, l, _) if p.ends_with("Option") => {
                let got = l.first().cloned().unwrap_or(V::Unk);
                let ok = match (&got, t, dyn_) {
                    (V::Sym(Sym::Art(i, Gen::Init)), Id::W(_), false) | (V::Sym(Sym::Dyn(i, Gen::Init)), Id::W(_), true) => *i == t,
                    (V::Sym(Sym::Art(Id::O(_), _)), Id::O(_), false) | (V::Sym(Sym::Dyn(Id::O(_), _)), Id::O(_), true) => true,
                    _ => false,
                };
                if !ok {
                    if got == V::Unk { m.imprecise("result") }
                    let g = show(&got);
                    self.fail(m, prop, &format!("{} is found", g))
                }
                if let Id::W(w) = t { self.chk(m, prop, &[(T::Lit(f(w)), false)], "something is found although nothing is stored") }
            }
            r => {
                if *r == V::Unk || *r == V::Any { m.imprecise("result") }
                let g = show(r);
                self.fail(m, prop, &format!("the result is {}", g))
            }
        }
        Ok(())
    }
    fn check_doctor(&self, m: &mut M, panicked: bool) {
        if !self.p.c.features.iter().any(|f| f == "diagnostics") { return }
        let s = &self.scen;
        let mut want: BTreeMap<(Sy, Vec<V>), u8> = BTreeMap::new();
        let t = s.target.map(ptr);
        if self.op == Op::Resolve {
            want.insert((ev("doctor resolve"), vec![ptr(s.user.unwrap()), t.clone().unwrap()]), 1);
        }
        if count(m, "built") > 0 {
            if let Some(t) = s.target { want.insert((ev("doctor build"), vec![ptr(t), V::Sym(Sym::Art(t, Gen::New))]), 1); }
        }
        if matches!(self.op, Op::Invalidate | Op::Purge | Op::DynStateMut) {
            want.insert((ev("doctor invalidate"), vec![t.clone().unwrap()]), 1);
        }
        if self.op == Op::ClearAll { want.insert((ev("doctor clear"), vec![]), 1); }
        let got: BTreeMap<(Sy, Vec<V>), u8> = m.st.ghost.ev.iter().filter(|(k, _)| k.0.starts_with("doctor ")).map(|(k, v)| (k.clone(), *v)).collect();
        m.obl("C16");
        if panicked {
            // events that did happen
            for (k, n) in &got {
                if want.get(k).copied().unwrap_or(0) < *n { self.fail(m, "C16", &format!("the doctor is notified of {} {} times", k.0, n)) }
            }
            return;
        }
        if self.op == Op::Other && got.is_empty() { return }
        if got != want {
            let sh = |x: &BTreeMap<(Sy, Vec<V>), u8>| x.iter().map(|(k, n)| format!("{}({}) x{}", k.0, k.1.iter().map(show).collect::<Vec<_>>().join(", "), n)).collect::<Vec<_>>().join("; ");
            let (g, w) = (sh(&got), sh(&want));
            self.fail(m, "C16", &format!("the doctor is notified of [{}] instead of [{}]", g, w));
        }
    }
}

/// Analyses one function in one scenario.
pub fn run(p: &Rc<Prog>, f: &ir::Fn, op: Op, scen: &Scen, props: Option<std::collections::HashSet<String>>, limit: u64, precise: u8) -> Option<M> {
    let id_ty = id_type(p)?;
    let inst = f.inst?;
    let resolver = f.impl_self.map(|s| matches!(p.ty(s), Ty::Adt(ref q, _) if q.ends_with("Resolver"))).unwrap_or(false);
    let mut w = CacheWorld::new(p.clone(), op, scen.clone(), format!("{} ({}:{})", f.path, f.file, f.line), id_ty, None);
    w.resolver = resolver;
    w.precise = precise;
    let w = Rc::new(w);
    let mut m = M::new(p.clone(), w.clone(), &format!("{} [{}]", f.path, scen.name));
    m.props = props;
    m.limit = limit;
    m.trace_on = precise > 0;
    m.stop_early = m.props.is_some();
    m.st.globals = vec![V::Undef, V::Undef];
    let mut args = vec![];
    for (i, t) in f.sig_inputs.iter().enumerate() {
        let (inner, by_ref) = match p.ty(*t) { Ty::Ref(_, x) => (x, true), _ => (*t, false) };
        let v = match p.ty(inner) {
            Ty::Adt(ref path, ref a) if i == 0 && p.adt(path).is_some() && f.impl_self.map(|s| s == inner || matches!(p.ty(s), Ty::Adt(ref q, _) if q == path)).unwrap_or(false) => {
                if path.ends_with("Resolver") {
                    // the cache it refers to
                    let fs = p.fields(path, a, 0)?;
                    let raw = fs.iter().find_map(|x| match p.ty(x.1) { Ty::Ref(_, t) => match p.ty(t) { Ty::Adt(ref q, _) if w.is_raw(q) => Some(t), _ => None }, _ => None })?;
                    let c = w.mk_cache(&mut m, raw, Place { root: Root::G(0), path: vec![] });
                    m.st.globals[0] = c;
                    let u = scen.user.unwrap_or(Id::W(0));
                    let r = w.mk(&m, inner, &V::Sym(Sym::Can(u)), u);
                    m.st.globals[1] = r;
                    V::Ref(Place { root: Root::G(1), path: vec![] })
                } else {
                    let c = w.mk_cache(&mut m, inner, Place { root: Root::G(0), path: vec![] });
                    m.st.globals[0] = c;
                    if by_ref { V::Ref(Place { root: Root::G(0), path: vec![] }) } else { V::Unk }
                }
            }
            Ty::Param(_) if by_ref => V::RefVal(Box::new(V::Sym(Sym::Prom(scen.target.unwrap_or(Id::W(0)))))),
            Ty::Param(_) => V::named("given doctor"),
            _ => V::Any,
        };
        args.push(v);
    }
    if op != Op::New && w.roles.borrow().len() != ROLES.len() {
        m.st.imprecise = Some("the parts of the cache are not recognised".into());
        m.violate("*", format!("the parts of the cache are not recognised: only {:?}", w.roles.borrow().keys().collect::<Vec<_>>()), f.path.clone());
        return Some(m);
    }
    // the user is at work
    if let Some(Id::W(u)) = scen.user {
        if resolver { m.st.building |= 1 << u }
    }
    m.push_inst(inst, args);
    m.run();
    Some(m)
}

pub fn id_type(p: &Prog) -> Option<u32> {
    let f = p.find_fns(|f| f.name == "id" && matches!(&f.impl_trait, Some((t, _)) if t.ends_with("Promise")));
    f.first().and_then(|f| f.sig_output)
}

/// The public operations.
pub fn ops(p: &Prog) -> Vec<(ir::Fn, Op)> {
    let mut r = vec![];
    for f in &p.c.fns {
        let Some(s) = f.impl_self else { continue };
        let Ty::Adt(path, _) = p.ty(s) else { continue };
        let last = path.rsplit("::").next().unwrap_or("");
        if !path.contains("cache") || f.inst.is_none() || !f.exported { continue }
        let op = match last {
            "Cache" => op_of(&f.name, false),
            "Resolver" => op_of(&f.name, true),
            _ => continue,
        };
        if f.impl_trait.is_some() && !matches!(f.name.as_str(), "default") { continue }
        if matches!(f.name.as_str(), "doctor" | "into_doctor") { continue }
        r.push((f.clone(), op));
    }
    r
}

fn is_err(v: &V) -> bool {
    matches!(v, V::Adt(p, 1, _, _) if p.ends_with("result::Result"))
}
