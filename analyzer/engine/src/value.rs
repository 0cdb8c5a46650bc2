//! Abstract values.
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Sy = Rc<str>;

/// A builder: one of the two witnesses, or some other one of the given class.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Id {
    W(u8),
    O(u8),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Gen {
    /// Was there when the operation started.
    Init,
    /// Made by a direct call of user code.
    New,
    /// Made within a call of user code, i.e. by a nested build.
    Nested,
    /// Was stored once, but is not any more.
    Old,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Sym {
    /// A promise, the (reference to the) builder itself, its can, weak can and address (bool: taint).
    Prom(Id),
    Builder(Id),
    Can(Id),
    Weak(Id),
    Ptr(Id, bool),
    /// Artifact and dynamic state of a builder, in whatever container.
    Art(Id, Gen),
    Dyn(Id, Gen),
    Err(Id),
    /// Size of one of the cache's maps as of now.
    Len(u8),
    Doctor,
    /// Anything else, e.g. the value of a named input.
    Named(Sy, Vec<V>),
}

/// Index of a boolean about the entry state (or the state after user code): epoch * 64 + kind.
pub type Fact = u16;

/// How often an element is in a collection.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Cnt {
    One,
    May01,
    /// At least one
    Must,
    May,
    /// (One for witnesses, Must for others) if the fact holds, none otherwise.
    Fact(Fact),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Coll {
    pub set: bool,
    pub elems: BTreeMap<V, Cnt>,
    /// Obtained from the entry of an other builder, thus of unknown contents.
    pub taint: bool,
    pub role: Option<Role>,
    /// Type of the elements.
    pub ety: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Role {
    Art,
    Dyn,
    /// Dependents of the key
    Dept,
    /// Dependencies of the key
    Depy,
    Leaf,
    Known,
}

pub const ROLES: [Role; 6] = [Role::Art, Role::Dyn, Role::Dept, Role::Depy, Role::Leaf, Role::Known];

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Slot {
    Lazy(u8),
    Abs,
    Val(Box<V>),
}

/// A map with builder ids as keys.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct MapV {
    pub role: Option<Role>,
    pub slots: [Slot; 2],
    /// Per class: presence of other builders (None: none of them) and their value, if the map has no role.
    pub oth: [Option<(Cnt, Box<V>)>; 3],
    /// An element has been added to the entry of an other builder.
    pub dirty: bool,
    pub kty: u32,
    pub vty: u32,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct IterV {
    pub items: BTreeMap<V, Cnt>,
    pub taint: bool,
    /// Size of which collection it has, if it is untouched
    pub whole: Option<Role>,
    /// The items in their order, if it is known
    pub seq: Option<Vec<V>>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Root {
    /// Frame, local
    L(u32, u32),
    /// Global cell
    G(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Step {
    F(u32),
    /// Value of a map
    MV(Id),
    /// Contents of a box
    B,
    /// Contents of an `Any`
    A,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Place {
    pub root: Root,
    pub path: Vec<Step>,
}

impl Place {
    pub fn step(&self, s: Step) -> Place {
        let mut p = self.clone();
        p.path.push(s);
        p
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum BoxK {
    Box,
    Rc,
    Arc,
    Weak,
    Cell,
}

/// A piece of text.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Piece {
    Lit(Sy),
    /// value, format trait, replacements made
    Hole(Box<V>, Sy, Vec<(Sy, Sy)>),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum V {
    Undef,
    /// Any value: every possibility is realistic.
    Any,
    /// Value lost by the analysis.
    Unk,
    /// bool: taint
    Bool(bool, bool),
    Int(i128, bool),
    /// Named integer plus offset
    Lin(Sy, i128),
    /// An integer greater than zero
    Pos(bool),
    Str(Sy),
    Bytes(Rc<Vec<u8>>),
    Sym(Sym),
    Tuple(Vec<V>),
    Arr(Vec<V>),
    /// path, variant, fields, taint
    Adt(Sy, u32, Vec<V>, bool),
    Closure(u32, Vec<V>),
    /// Index into the callee table
    FnItem(u32),
    Ref(Place),
    RefVal(Box<V>),
    Box(BoxK, Box<V>),
    /// Unsized value with its original type
    Dyn(u32, Box<V>),
    Coll(Rc<Coll>),
    Map(Rc<MapV>),
    Iter(Rc<IterV>),
    /// Map entry: map, key (value, id); variant by presence
    Entry(Place, Box<V>),
    Text(Vec<Piece>),
    /// Formatting argument
    FmtArg(Box<V>, Sy),
}

impl V {
    pub fn unit() -> V {
        V::Tuple(vec![])
    }
    pub fn none(t: bool) -> V {
        V::Adt("std::option::Option".into(), 0, vec![], t)
    }
    pub fn some(v: V, t: bool) -> V {
        V::Adt("std::option::Option".into(), 1, vec![v], t)
    }
    pub fn ok(v: V) -> V {
        V::Adt("std::result::Result".into(), 0, vec![v], false)
    }
    pub fn err(v: V) -> V {
        V::Adt("std::result::Result".into(), 1, vec![v], false)
    }
    pub fn b(b: bool) -> V {
        V::Bool(b, false)
    }
    pub fn named(s: &str) -> V {
        V::Sym(Sym::Named(s.into(), vec![]))
    }
    pub fn is_option(&self) -> bool {
        matches!(self, V::Adt(p, ..) if &**p == "std::option::Option")
    }
    pub fn taint(&self) -> bool {
        match self {
            V::Bool(_, t) | V::Int(_, t) | V::Pos(t) | V::Adt(_, _, _, t) => *t,
            _ => false,
        }
    }
    pub fn tainted(self) -> V {
        match self {
            V::Bool(b, _) => V::Bool(b, true),
            V::Int(i, _) => V::Int(i, true),
            V::Pos(_) => V::Pos(true),
            V::Adt(p, v, f, _) => V::Adt(p, v, f, true),
            V::Sym(Sym::Ptr(i, _)) => V::Sym(Sym::Ptr(i, true)),
            v => v,
        }
    }
    /// Calls f on every value within.
    pub fn walk(&self, f: &mut dyn FnMut(&V)) {
        f(self);
        match self {
            V::Tuple(l) | V::Arr(l) | V::Adt(_, _, l, _) | V::Closure(_, l) => l.iter().for_each(|v| v.walk(f)),
            V::Sym(Sym::Named(_, l)) => l.iter().for_each(|v| v.walk(f)),
            V::RefVal(v) | V::Box(_, v) | V::Dyn(_, v) | V::FmtArg(v, _) => v.walk(f),
            V::Entry(_, v) => v.walk(f),
            V::Coll(c) => c.elems.keys().for_each(|v| v.walk(f)),
            V::Iter(c) => {
                c.items.keys().for_each(|v| v.walk(f));
            }
            V::Map(m) => {
                for s in &m.slots {
                    if let Slot::Val(v) = s { v.walk(f) }
                }
                for o in &m.oth {
                    if let Some((_, v)) = o { v.walk(f) }
                }
            }
            V::Text(p) => {
                for x in p {
                    if let Piece::Hole(v, _, _) = x { v.walk(f) }
                }
            }
            _ => {}
        }
    }
}

pub fn coll(set: bool) -> Coll {
    Coll { set, elems: BTreeMap::new(), taint: false, role: None, ety: u32::MAX }
}

pub fn show(v: &V) -> String {
    match v {
        V::Sym(Sym::Named(n, a)) if a.is_empty() => n.to_string(),
        V::Sym(Sym::Named(n, a)) => format!("{}({})", n, a.iter().map(show).collect::<Vec<_>>().join(", ")),
        V::Sym(s) => format!("{:?}", s),
        V::Adt(p, i, f, _) => format!("{}#{}({})", p.rsplit("::").next().unwrap_or(p), i, f.iter().map(show).collect::<Vec<_>>().join(", ")),
        V::Tuple(f) => format!("({})", f.iter().map(show).collect::<Vec<_>>().join(", ")),
        V::Ref(p) => format!("&{:?}{:?}", p.root, p.path),
        V::RefVal(v) => format!("&{}", show(v)),
        V::Box(k, v) => format!("{:?}({})", k, show(v)),
        V::Dyn(_, v) => format!("dyn {}", show(v)),
        V::Bool(b, _) => b.to_string(),
        V::Int(i, _) => i.to_string(),
        V::Str(s) => format!("{:?}", s),
        V::Lin(s, o) => format!("{}{:+}", s, o),
        V::Coll(c) => format!("{{{}}}", c.elems.iter().map(|(v, c)| format!("{}:{:?}", show(v), c)).collect::<Vec<_>>().join(", ")),
        V::Text(p) => p.iter().map(|x| match x { Piece::Lit(s) => s.to_string(), Piece::Hole(v, t, e) => format!("{{{}:{}{}}}", show(v), t, if e.is_empty() { "" } else { "!esc" }) }).collect(),
        _ => format!("{:?}", v),
    }
}

impl V {
    pub fn has_ref_to(&self, frame: u32) -> bool {
        let mut b = false;
        self.walk(&mut |v| if let V::Ref(Place { root: Root::L(f, _), .. }) | V::Entry(Place { root: Root::L(f, _), .. }, _) = v { if *f >= frame { b = true } });
        b
    }
}

/// Local variables; those that are undefined do not count.
#[derive(Clone, Debug, Default)]
pub struct Locals(Vec<(u32, Rc<V>)>);

impl Locals {
    pub fn from(l: Vec<V>) -> Locals {
        Locals(l.into_iter().enumerate().filter(|x| x.1 != V::Undef).map(|(i, v)| (i as u32, Rc::new(v))).collect())
    }
    pub fn iter(&self) -> impl Iterator<Item = (u32, &V)> {
        self.0.iter().map(|x| (x.0, &*x.1))
    }
    pub fn retain(&mut self, mut f: impl FnMut(u32) -> bool) {
        self.0.retain(|x| f(x.0) && *x.1 != V::Undef)
    }
    pub fn take(&mut self, i: usize) -> V {
        match self.0.binary_search_by_key(&(i as u32), |x| x.0) {
            Ok(k) => {
                let r = self.0.remove(k).1;
                Rc::try_unwrap(r).unwrap_or_else(|r| (*r).clone())
            }
            Err(_) => V::Undef,
        }
    }
    pub fn set(&mut self, i: usize, v: V) {
        match self.0.binary_search_by_key(&(i as u32), |x| x.0) {
            Ok(k) => if v == V::Undef { self.0.remove(k); } else { self.0[k].1 = Rc::new(v) },
            Err(k) => if v != V::Undef { self.0.insert(k, (i as u32, Rc::new(v))) },
        }
    }
}
impl std::ops::Index<usize> for Locals {
    type Output = V;
    fn index(&self, i: usize) -> &V {
        match self.0.binary_search_by_key(&(i as u32), |x| x.0) {
            Ok(k) => &self.0[k].1,
            Err(_) => &V::Undef,
        }
    }
}
impl PartialEq for Locals {
    fn eq(&self, o: &Locals) -> bool {
        self.iter().filter(|x| *x.1 != V::Undef).eq(o.iter().filter(|x| *x.1 != V::Undef))
    }
}
impl Eq for Locals {}
impl std::hash::Hash for Locals {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        for x in self.iter() { if *x.1 != V::Undef { x.hash(h) } }
        255u8.hash(h);
    }
}
