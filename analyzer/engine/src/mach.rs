//! Nondeterministic abstract machine for MIR.
use crate::facts::{self, Clause, NK, T};
use crate::prog::Prog;
use crate::value::*;
use ir::{Agg, Callee, ConstVal, Operand, Proj, Rvalue, StmtKind, Term, Ty};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum FK {
    Mir { inst: u32, block: u32 },
    Nat(Nat),
}

/// What a library function does with the results of the functions it calls.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Nat {
    OrInsertWith { map: Place, key: V },
    /// Locals: iterator, accumulator
    Collect { next: u32, into: Option<Place>, ity: u32 },
    /// Locals: iterator; consumes it by calling the closure local 1 on each item
    ForEach { next: u32 },
    /// Locals: closure, remaining items, current item
    Retain { coll: Place, map: bool },
    /// Local 0 is the result
    Return,
    GetOrInsertWith { opt: Place },
    /// Result is wrapped
    Some,
    Replace { place: Place, key: V },
    World(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Frame {
    pub kind: FK,
    pub locals: Locals,
    /// Control depends on tainted values until this block.
    pub ctl: Option<u32>,
    /// The caller does so.
    pub inh: bool,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct PInfo {
    pub user: bool,
    pub what: Sy,
    pub loc: Sy,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Snap {
    pub terms: Vec<T>,
    /// Witnesses being built (bit mask)
    pub building: u8,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Ghost {
    /// Events, with the builders concerned and what else identifies them; up to 3.
    pub ev: BTreeMap<(Sy, Vec<V>), u8>,
    /// Sequence of events, where the order counts.
    pub log: Vec<(Sy, Vec<V>)>,
    /// Questions about unknown values with the answers assumed.
    pub said: Vec<(Vec<V>, bool)>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct St {
    pub frames: Vec<Rc<Frame>>,
    pub globals: Vec<V>,
    pub known: u128,
    pub vals: u128,
    pub snaps: Rc<Vec<Snap>>,
    pub ghost: Rc<Ghost>,
    pub panic: Option<Rc<PInfo>>,
    pub imprecise: Option<Sy>,
    /// Witnesses and others being built (bits 0, 1, 2)
    pub building: u8,
}

pub enum Stop {
    Dead,
}
pub type R<X> = Result<X, Stop>;

pub enum Res {
    Ret(V),
    /// A frame has been pushed.
    Pushed,
    /// Panic: by user code, what
    Panic(bool, Sy),
    Diverge,
}

pub enum Loc {
    P(Place),
    /// Pointer within a box
    BoxP(Place),
    Val(V),
    BoxVal(V),
}

pub enum Exit {
    Ret(V),
    Panic(Rc<PInfo>),
}

pub trait World {
    /// A call that the program does not define.
    fn call(&self, m: &mut M, c: &Callee, args: &[V]) -> R<Option<Res>>;
    /// A call of a function of the program: may be intercepted.
    fn intercept(&self, _m: &mut M, _c: &Callee, _args: &[V]) -> R<Option<Res>> {
        Ok(None)
    }
    fn exit(&self, m: &mut M, x: &Exit) -> R<()>;
    /// Clauses about the facts of the entry state.
    fn clauses(&self) -> Vec<Clause> {
        vec![]
    }
    fn after_snap(&self, _snaps: &[Snap]) -> Vec<Clause> {
        vec![]
    }
    /// Facts that the obligations refer to.
    fn needed(&self) -> u128 {
        u128::MAX
    }
    /// Value of the map slot w of the given role in the given epoch: the decision is taken already.
    fn slot(&self, _m: &mut M, _r: Role, _id: Id, _epoch: u8) -> R<V> {
        Ok(V::Unk)
    }
    fn nat_return(&self, _m: &mut M, _k: u32, _v: V) -> R<Res> {
        Ok(Res::Ret(V::Unk))
    }
    /// Class of other builders that may be in the entry of another one.
    fn on_map_write(&self, _m: &mut M, _r: Role, _id: Id) {}
    /// Type test of a downcast: Some(true/false)
    fn downcast(&self, m: &mut M, have: u32, want: u32, v: &V) -> Option<bool> {
        let _ = v;
        if have == want { Some(true) } else {
            match (m.p.ty(have), m.p.ty(want)) {
                (Ty::Param(_) | Ty::Proj(..), _) | (_, Ty::Param(_) | Ty::Proj(..)) => None,
                _ => Some(false),
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Finding {
    pub prop: String,
    pub msg: String,
    pub loc: String,
    pub trace: Vec<String>,
    pub entry: String,
    pub cfg: String,
    pub undecided: Option<String>,
}

/// Nested activations of one function that are explored.
const RECURSION: usize = 3;

#[derive(Default, Clone)]
pub struct Stats {
    pub states: u64,
    pub exits: u64,
    pub panics: u64,
    pub suppressed: u64,
    pub calls: HashMap<String, u64>,
    pub fns: HashSet<String>,
    pub blocks: HashSet<(u32, u32)>,
    pub unmodelled: BTreeMap<String, u64>,
    pub obligations: BTreeMap<String, u64>,
}

pub struct M {
    pub p: Rc<Prog>,
    pub w: Rc<dyn World>,
    pub st: St,
    script: Vec<u8>,
    pos: usize,
    fan: Vec<u8>,
    pub findings: Vec<Finding>,
    pub stats: Stats,
    pub entry: String,
    clause_cache: HashMap<Vec<Snap>, Rc<Vec<Clause>>>,
    parents: HashMap<u128, (u128, Sy), Build>,
    cur: u128,
    promoted: HashMap<(u32, u32), V>,
    pub props: Option<HashSet<String>>,
    /// Stop at the first finding.
    pub stop_early: bool,
    pub limit: u64,
    seen_find: HashSet<(String, String, String)>,
    pub trace_on: bool,
}

#[derive(Default, Clone, Copy)]
pub struct IdHash(u64);
impl Hasher for IdHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) {}
    fn write_u128(&mut self, x: u128) { self.0 = x as u64 ^ (x >> 64) as u64 }
}
type Build = std::hash::BuildHasherDefault<IdHash>;
struct H128(u64, u64);
impl Hasher for H128 {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x) ^ ((c.len() as u64) << 56));
        }
    }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
        self.1 = (self.1 ^ x.wrapping_mul(0x9E3779B97F4A7C15)).rotate_left(27).wrapping_mul(0xD6E8FEB86659FD93);
        self.1 ^= self.1 >> 32;
    }
}
pub fn hash128<X: Hash>(x: &X) -> u128 {
    let mut h = H128(0x1234567, 0xabcdef);
    x.hash(&mut h);
    ((h.0 as u128) << 64) | h.1 as u128
}

/// An address or a number computed from one.
pub fn of_address(v: &V) -> bool {
    match v {
        V::Sym(Sym::Ptr(..)) => true,
        V::Sym(Sym::Named(n, l)) => (n.ends_with("of addresses") || n.starts_with("the lower part")) && l.iter().any(of_address),
        _ => false,
    }
}

impl M {
    pub fn new(p: Rc<Prog>, w: Rc<dyn World>, entry: &str) -> M {
        let st = St { frames: vec![], globals: vec![], known: 0, vals: 0, snaps: Rc::new(vec![]), ghost: Default::default(), panic: None, imprecise: None, building: 0 };
        M { p, w, st, script: vec![], pos: 0, fan: vec![], findings: vec![], stats: Default::default(), entry: entry.into(), clause_cache: Default::default(), parents: Default::default(), cur: 0, promoted: Default::default(), props: None, limit: 3_000_000, seen_find: Default::default(), trace_on: false, stop_early: false }
    }

    // ---- choices ----
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 { return 0 }
        if self.pos < self.script.len() {
            self.pos += 1;
            return self.script[self.pos - 1] as usize;
        }
        self.script.push(0);
        self.fan.push(n as u8);
        self.pos += 1;
        0
    }
    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// Assumes either answer to a question about an unknown value, but always the same. If `free`, both answers are possible whatever
    /// else the value is like.
    pub fn said(&mut self, q: &[V], free: bool) -> bool {
        if let Some(x) = self.st.ghost.said.iter().find(|x| x.0 == q) { return x.1 }
        let b = self.flip();
        if !free || self.st.ghost.said.iter().any(|x| x.0.first() == q.first()) { self.imprecise("a question about a text") }
        Rc::make_mut(&mut self.st.ghost).said.push((q.to_vec(), b));
        b
    }
    /// Runs f for every sequence of choices it asks for.
    fn all_choices(&mut self, st: &St, mut f: impl FnMut(&mut M)) {
        self.script.clear();
        self.fan.clear();
        loop {
            self.pos = 0;
            self.st = st.clone();
            f(self);
            loop {
                let Some(l) = self.script.last_mut() else { return };
                if *l + 1 < *self.fan.last().unwrap() {
                    *l += 1;
                    break;
                }
                self.script.pop();
                self.fan.pop();
            }
            if self.script.is_empty() { return }
        }
    }

    // ---- facts ----
    pub fn clauses(&mut self) -> Rc<Vec<Clause>> {
        if let Some(c) = self.clause_cache.get(&*self.st.snaps) {
            return c.clone();
        }
        let mut c = self.w.clauses();
        c.extend(self.w.after_snap(&self.st.snaps));
        let c = Rc::new(c);
        self.clause_cache.insert((*self.st.snaps).clone(), c.clone());
        c
    }
    pub fn fact(&mut self, f: u16) -> R<bool> {
        let b = facts::bit(f);
        if self.st.known & b != 0 {
            return Ok(self.st.vals & b != 0);
        }
        let cl = self.clauses();
        let pos = facts::sat(self.st.known | b, self.st.vals | b, &cl);
        let neg = facts::sat(self.st.known | b, self.st.vals & !b, &cl);
        match (pos, neg) {
            (true, true) => {
                let v = self.flip();
                self.st.known |= b;
                if v { self.st.vals |= b }
                Ok(v)
            }
            (true, false) => Ok(true),
            (false, true) => Ok(false),
            (false, false) => Err(Stop::Dead),
        }
    }
    pub fn possible(&mut self, conds: &[(T, bool)]) -> bool {
        let cl = self.clauses();
        facts::sat_terms(self.st.known, self.st.vals, &cl, conds)
    }
    pub fn epoch(&self) -> u8 {
        self.st.snaps.len() as u8
    }

    // ---- findings ----
    pub fn imprecise(&mut self, what: &str) {
        if self.st.imprecise.is_none() {
            self.st.imprecise = Some(what.into());
        }
        *self.stats.unmodelled.entry(what.to_string()).or_insert(0) += 1;
    }
    pub fn here(&self) -> String {
        for f in self.st.frames.iter().rev() {
            if let FK::Mir { inst, block } = f.kind {
                let i = &self.p.c.insts[inst as usize];
                if i.local {
                    let b = &i.blocks[block as usize];
                    return format!("{}:{} in {}", b.term_span.file, b.term_span.line, i.path);
                }
            }
        }
        self.entry.clone()
    }
    pub fn obl(&mut self, p: &str) {
        for p in p.split('|') { *self.stats.obligations.entry(p.to_string()).or_insert(0) += 1 }
    }
    /// Whether a finding about any of these properties (separated by |) is of interest.
    pub fn wanted(&self, prop: &str) -> bool {
        match &self.props { Some(p) => prop.split('|').any(|x| p.contains(x)), None => true }
    }
    pub fn violate(&mut self, prop: &str, msg: String, loc: String) {
        if prop.contains('|') {
            for x in prop.split('|') { self.violate(x, msg.clone(), loc.clone()) }
            return;
        }
        if !self.wanted(prop) { return }
        let key = format!("{}{}", loc, if self.st.imprecise.is_some() { "?" } else { "" });
        if !self.seen_find.insert((prop.into(), msg.clone(), key)) { return }
        let mut trace = vec![];
        let mut k = self.cur;
        let mut n = 0;
        while let Some((p, l)) = self.parents.get(&k) {
            if trace.last().map(|x: &String| **x != **l).unwrap_or(true) && !l.is_empty() {
                trace.push(l.to_string());
            }
            k = *p;
            n += 1;
            if n > 5000 { break }
        }
        trace.reverse();
        let mut facts = vec![];
        for f in 0..(NK * facts::MAXE) {
            if self.st.known & facts::bit(f) != 0 {
                facts.push(format!("{}{}", if self.st.vals & facts::bit(f) != 0 { "" } else { "not: " }, facts::name(f)));
            }
        }
        trace.insert(0, format!("when: {}", facts.join("; ")));
        let und = self.st.imprecise.as_ref().map(|s| s.to_string());
        self.findings.push(Finding { prop: prop.into(), msg, loc, trace, entry: self.entry.clone(), cfg: self.p.cfg.clone(), undecided: und });
    }

    // ---- places ----
    pub fn top(&self) -> u32 {
        self.st.frames.len() as u32 - 1
    }
    pub fn frame(&mut self) -> &mut Frame {
        let f = self.st.frames.last_mut().unwrap();
        Rc::make_mut(f)
    }
    pub fn tainted(&self) -> bool {
        let f = self.st.frames.last().unwrap();
        f.ctl.is_some() || f.inh
    }
    fn root(&self, r: Root) -> Option<&V> {
        match r {
            Root::L(f, l) => self.st.frames.get(f as usize).map(|f| &f.locals[l as usize]),
            Root::G(g) => self.st.globals.get(g as usize),
        }
    }
    /// Reads without deciding anything.
    fn peek<'a>(&self, v: &'a V, path: &[Step]) -> Option<&'a V> {
        let Some(s) = path.first() else { return Some(v) };
        let n: &V = match (s, v) {
            (Step::F(i), V::Adt(_, _, f, _)) | (Step::F(i), V::Tuple(f)) | (Step::F(i), V::Arr(f)) | (Step::F(i), V::Closure(_, f)) => f.get(*i as usize)?,
            (Step::B, V::Box(_, b)) => b,
            (Step::A, V::Dyn(_, b)) => b,
            (Step::MV(Id::W(w)), V::Map(m)) => match &m.slots[*w as usize] {
                Slot::Val(v) => v,
                _ => return None,
            },
            (Step::MV(Id::O(c)), V::Map(m)) if m.role.is_none() => match &m.oth[*c as usize] {
                Some((_, v)) => v,
                None => return None,
            },
            _ => return None,
        };
        self.peek(n, &path[1..])
    }
    fn read_in(&mut self, v: V, path: &[Step]) -> R<V> {
        let Some(s) = path.first() else { return Ok(v) };
        let n = match (s, v) {
            (_, V::Any) => V::Any,
            (_, V::Unk) => V::Unk,
            (Step::F(i), V::Adt(_, _, mut f, _)) | (Step::F(i), V::Tuple(mut f)) | (Step::F(i), V::Arr(mut f)) | (Step::F(i), V::Closure(_, mut f)) => {
                if (*i as usize) < f.len() { f.swap_remove(*i as usize) } else { V::Undef }
            }
            (Step::F(_), V::Undef) => V::Undef,
            (Step::B, V::Box(_, b)) => *b,
            (Step::A, V::Dyn(_, b)) => *b,
            (Step::B | Step::A, v) => v,
            (Step::MV(id), V::Map(m)) => match id {
                Id::W(w) => match &m.slots[*w as usize] {
                    Slot::Val(v) => (**v).clone(),
                    Slot::Abs => return Err(Stop::Dead),
                    Slot::Lazy(e) => {
                        let w2 = self.w.clone();
                        w2.slot(self, m.role.unwrap(), *id, *e)?
                    }
                },
                Id::O(c) => match m.role {
                    Some(r) => {
                        let e = self.epoch();
                        let w2 = self.w.clone();
                        let mut v = w2.slot(self, r, *id, e)?;
                        if m.dirty || e > 0 {
                            if let V::Coll(c) = &mut v {
                                let c = Rc::make_mut(c);
                                for (k, x) in [(0u8, Id::W(0)), (1, Id::W(1))] {
                                    let _ = k;
                                    let e = self.wrap(c.ety, V::Sym(Sym::Ptr(x, false)));
                                    c.elems.entry(e).or_insert(Cnt::May);
                                }
                            }
                        }
                        v
                    }
                    None => match &m.oth[*c as usize] {
                        Some((_, v)) => (**v).clone(),
                        None => V::Unk,
                    },
                },
            },
            (_, v) => {
                if std::env::var("DBGP").is_ok() {
                    eprintln!("PROJ {:?} {} path {:?} at {}", s, show(&v), path, self.here());
                    for f in self.st.frames.iter().rev().take(6) { match &f.kind { FK::Mir{inst,block}=>eprintln!("   {} bb{}", self.p.c.insts[*inst as usize].path, block), FK::Nat(n)=>eprintln!("   nat {:?}",n) } }
                }
                self.imprecise(&format!("cannot project {:?} from {}", s, show(&v)));
                V::Unk
            }
        };
        self.read_in(n, &path[1..])
    }
    pub fn read_in_pub(&mut self, v: V, s: Step) -> R<V> {
        self.read_in(v, &[s])
    }
    pub fn read(&mut self, p: &Place) -> R<V> {
        if let Some(r) = self.root(p.root) {
            if let Some(v) = self.peek(r, &p.path) {
                return Ok(v.clone());
            }
            let r = r.clone();
            return self.read_in(r, &p.path);
        }
        self.imprecise("dangling place");
        Ok(V::Unk)
    }
    fn write_in(&mut self, v: V, path: &[Step], n: V) -> R<V> {
        let Some(s) = path.first() else { return Ok(n) };
        Ok(match (s, v) {
            (Step::F(i), V::Adt(a, b, mut f, t)) => {
                let i = *i as usize;
                while f.len() <= i { f.push(V::Undef) }
                let o = std::mem::replace(&mut f[i], V::Undef);
                f[i] = self.write_in(o, &path[1..], n)?;
                V::Adt(a, b, f, t)
            }
            (Step::F(i), V::Closure(a, mut f)) => {
                let i = *i as usize;
                if i < f.len() {
                    let o = std::mem::replace(&mut f[i], V::Undef);
                    f[i] = self.write_in(o, &path[1..], n)?;
                }
                V::Closure(a, f)
            }
            (Step::F(i), V::Arr(mut f)) => {
                let i = *i as usize;
                if i < f.len() {
                    let o = std::mem::replace(&mut f[i], V::Undef);
                    f[i] = self.write_in(o, &path[1..], n)?;
                }
                V::Arr(f)
            }
            (Step::F(i), v @ (V::Tuple(_) | V::Undef)) => {
                let mut f = if let V::Tuple(f) = v { f } else { vec![] };
                let i = *i as usize;
                while f.len() <= i { f.push(V::Undef) }
                let o = std::mem::replace(&mut f[i], V::Undef);
                f[i] = self.write_in(o, &path[1..], n)?;
                V::Tuple(f)
            }
            (Step::B, V::Box(k, b)) => V::Box(k, Box::new(self.write_in(*b, &path[1..], n)?)),
            (Step::A, V::Dyn(k, b)) => V::Dyn(k, Box::new(self.write_in(*b, &path[1..], n)?)),
            (Step::B | Step::A, v) => self.write_in(v, &path[1..], n)?,
            (Step::MV(id), V::Map(mut m)) => {
                if let Id::W(w) = id {
                    let old = self.read_in(V::Map(m.clone()), &[*s])?;
                    let nv = self.write_in(old, &path[1..], n)?;
                    let mm = Rc::make_mut(&mut m);
                    mm.slots[*w as usize] = Slot::Val(Box::new(nv));
                } else if let (Id::O(c), None) = (id, m.role) {
                    let old = self.read_in(V::Map(m.clone()), &[*s])?;
                    let nv = self.write_in(old, &path[1..], n)?;
                    let mm = Rc::make_mut(&mut m);
                    mm.oth[*c as usize] = Some((Cnt::Must, Box::new(nv)));
                } else if path.len() == 1 {
                    // entries of others are not remembered, but which witnesses have been added is
                    if let V::Coll(c) = &n {
                        let wit = c.elems.keys().any(|k| { let mut b = false; k.walk(&mut |x| if let V::Sym(Sym::Ptr(Id::W(_), _)) = x { b = true }); b });
                        if wit && !m.dirty && !c.taint { Rc::make_mut(&mut m).dirty = true }
                    }
                }
                V::Map(m)
            }
            (_, V::Any) => V::Any,
            (_, v) => {
                self.imprecise(&format!("cannot write {:?} into {}", s, show(&v)));
                V::Unk
            }
        })
    }
    pub fn write(&mut self, p: &Place, v: V) -> R<()> {
        let r = match p.root {
            Root::L(f, l) => {
                let Some(fr) = self.st.frames.get_mut(f as usize) else { return Ok(()) };
                let fr = Rc::make_mut(fr);
                fr.locals.take(l as usize)
            }
            Root::G(g) => std::mem::replace(&mut self.st.globals[g as usize], V::Undef),
        };
        let n = self.write_in(r, &p.path, v)?;
        match p.root {
            Root::L(f, l) => Rc::make_mut(&mut self.st.frames[f as usize]).locals.set(l as usize, n),
            Root::G(g) => self.st.globals[g as usize] = n,
        }
        Ok(())
    }
    pub fn loc(&mut self, mp: &ir::Place) -> R<Loc> {
        let mut l = Loc::P(Place { root: Root::L(self.top(), mp.local), path: vec![] });
        for pr in &mp.proj {
            l = match pr {
                Proj::Deref => match l {
                    Loc::BoxP(p) => Loc::P(p.step(Step::B)),
                    Loc::BoxVal(v) => Loc::Val(v),
                    l => {
                        let v = match &l { Loc::P(p) => self.read(p)?, Loc::Val(v) => v.clone(), _ => unreachable!() };
                        match v {
                            V::Ref(p) => Loc::P(p),
                            V::RefVal(v) => Loc::Val(*v),
                            V::Box(_, b) => match l { Loc::P(p) => Loc::P(p.step(Step::B)), _ => Loc::Val(*b) },
                            v => Loc::Val(v),
                        }
                    }
                },
                Proj::Field(i, _) => match l {
                    Loc::P(p) => {
                        let k = {
                            let v = self.root(p.root).and_then(|r| self.peek(r, &p.path));
                            match v {
                                Some(V::Box(..)) => 1,
                                Some(V::Ref(q)) => {
                                    let q = q.clone();
                                    if let V::Box(..) = self.read(&q)? {
                                        l = Loc::BoxP(q);
                                        continue;
                                    }
                                    0
                                }
                                Some(V::Sym(_) | V::Any | V::Unk | V::Coll(_) | V::Iter(_) | V::Map(_) | V::Text(_) | V::Str(_)) => 2,
                                _ => 0,
                            }
                        };
                        match k {
                            1 => Loc::BoxP(p),
                            2 => {
                                let v = self.read(&p)?;
                                Loc::Val(self.field_of(v, *i)?)
                            }
                            _ => Loc::P(p.step(Step::F(*i))),
                        }
                    }
                    Loc::BoxP(p) => Loc::BoxP(p),
                    Loc::Val(V::Box(_, b)) => Loc::BoxVal(*b),
                    Loc::BoxVal(b) => Loc::BoxVal(b),
                    Loc::Val(v) => Loc::Val(self.field_of(v, *i)?),
                },
                Proj::Downcast(_) => l,
                Proj::Index(x) => {
                    let i = self.st.frames.last().unwrap().locals[*x as usize].clone();
                    self.index(l, i)?
                }
                Proj::ConstIndex(i, end) => {
                    let v = self.loc_val(&l)?;
                    let n = match &v { V::Arr(a) => a.len(), _ => 0 };
                    let i = if *end { n as i128 - *i as i128 } else { *i as i128 };
                    self.index(l, V::Int(i, false))?
                }
                Proj::Subslice(..) | Proj::Other => {
                    self.imprecise("place projection");
                    Loc::Val(V::Unk)
                }
            };
        }
        Ok(l)
    }
    fn index(&mut self, l: Loc, i: V) -> R<Loc> {
        let v = self.loc_val(&l)?;
        Ok(match (l, v, i) {
            (Loc::P(p), V::Arr(_), V::Int(i, _)) => Loc::P(p.step(Step::F(i as u32))),
            (Loc::Val(_), V::Arr(a), V::Int(i, _)) if (i as usize) < a.len() => Loc::Val(a[i as usize].clone()),
            (_, V::Coll(c), _) => Loc::Val(self.some_elem(&c)?),
            (_, V::Any, _) => Loc::Val(V::Any),
            _ => {
                self.imprecise("indexing");
                Loc::Val(V::Unk)
            }
        })
    }
    fn some_elem(&mut self, c: &Coll) -> R<V> {
        let l: Vec<V> = c.elems.keys().cloned().collect();
        if l.is_empty() { return Err(Stop::Dead) }
        let i = self.choose(l.len());
        Ok(l[i].clone())
    }
    fn field_of(&mut self, v: V, i: u32) -> R<V> {
        Ok(match v {
            V::Adt(_, _, f, _) | V::Tuple(f) | V::Arr(f) | V::Closure(_, f) => match f.get(i as usize) {
                Some(v) => v.clone(),
                None => V::Undef,
            },
            V::Any => V::Any,
            // opaque wrappers are transparent
            V::Sym(_) | V::Str(_) | V::Text(_) | V::RefVal(_) | V::Ref(_) => v,
            V::Unk => V::Unk,
            v => {
                self.imprecise(&format!("field of {}", show(&v)));
                V::Unk
            }
        })
    }
    pub fn loc_val(&mut self, l: &Loc) -> R<V> {
        Ok(match l {
            Loc::P(p) => self.read(p)?,
            Loc::Val(v) => v.clone(),
            Loc::BoxP(p) => V::Ref(p.step(Step::B)),
            Loc::BoxVal(v) => V::RefVal(Box::new(v.clone())),
        })
    }
    pub fn set(&mut self, mp: &ir::Place, v: V) -> R<()> {
        let v = if self.tainted() { v.tainted() } else { v };
        if mp.proj.is_empty() {
            let l = mp.local as usize;
            self.frame().locals.set(l, v);
            return Ok(());
        }
        match self.loc(mp)? {
            Loc::P(p) => self.write(&p, v),
            _ => {
                self.imprecise(&format!("write through an unknown reference in {}", self.here()));
                Ok(())
            }
        }
    }
    /// Follows references.
    pub fn deref(&mut self, v: &V) -> R<V> {
        let mut v = v.clone();
        loop {
            v = match v {
                V::Ref(p) => self.read(&p)?,
                V::RefVal(b) => *b,
                v => return Ok(v),
            }
        }
    }
    /// The place a reference denotes finally.
    pub fn place_of(&mut self, v: &V) -> R<Option<Place>> {
        let mut p = match v { V::Ref(p) => p.clone(), _ => return Ok(None) };
        loop {
            match self.read(&p)? {
                V::Ref(q) => p = q,
                _ => return Ok(Some(p)),
            }
        }
    }
    /// Replaces references by what they refer to.
    pub fn deep(&mut self, v: &V, n: u32) -> R<V> {
        if n == 0 { return Ok(V::Unk) }
        Ok(match v {
            V::Ref(_) | V::RefVal(_) => {
                let x = self.deref(v)?;
                self.deep(&x, n - 1)?
            }
            V::Box(_, b) | V::Dyn(_, b) => self.deep(b, n - 1)?,
            V::Adt(p, i, f, t) => {
                let mut g = vec![];
                for x in f { g.push(self.deep(x, n - 1)?) }
                V::Adt(p.clone(), *i, g, *t)
            }
            V::Tuple(f) => {
                let mut g = vec![];
                for x in f { g.push(self.deep(x, n - 1)?) }
                V::Tuple(g)
            }
            v => v.clone(),
        })
    }
    /// Wraps an identity as a value of the given type, e.g. into a newtype.
    pub fn wrap(&self, ty: u32, v: V) -> V {
        if let Ty::Adt(p, args) = self.p.ty(ty) {
            if let Some(fs) = self.p.fields(&p, &args, 0) {
                let fl = fs.iter().map(|(_, t)| match self.p.ty(*t) {
                    Ty::Adt(p, _) if p == "std::marker::PhantomData" => V::Adt(p.into(), 0, vec![], false),
                    _ => self.wrap(*t, v.clone()),
                }).collect();
                return V::Adt(p.into(), 0, fl, false);
            }
        }
        v
    }
    /// The identity within a value.
    pub fn id_of(&mut self, v: &V) -> R<Option<(Id, bool)>> {
        Ok(match v {
            V::Ref(_) | V::RefVal(_) => {
                let x = self.deref(v)?;
                return self.id_of(&x);
            }
            V::Sym(Sym::Ptr(i, t)) => Some((*i, *t)),
            V::Sym(Sym::Prom(i) | Sym::Builder(i) | Sym::Can(i) | Sym::Weak(i)) => Some((*i, false)),
            V::Adt(_, _, f, _) | V::Tuple(f) => {
                let f = f.clone();
                let mut r = None;
                for x in &f {
                    let i = self.id_of(x)?;
                    if i.is_some() { r = i; break }
                }
                r
            }
            V::Box(_, b) => {
                let b = b.clone();
                return self.id_of(&b);
            }
            _ => None,
        })
    }

    // ---- statements ----
    pub fn operand(&mut self, o: &Operand) -> R<V> {
        match o {
            Operand::Copy(p) => {
                let l = self.loc(p)?;
                self.loc_val(&l)
            }
            Operand::Move(p) => {
                if p.proj.is_empty() {
                    let l = p.local as usize;
                    return Ok(self.frame().locals.take(l));
                }
                let l = self.loc(p)?;
                self.loc_val(&l)
            }
            Operand::Const(c) => self.constant(c),
        }
    }
    pub fn constant(&mut self, c: &ir::Const) -> R<V> {
        Ok(match &c.val {
            ConstVal::Int(i) => V::Int(*i, false),
            ConstVal::Bool(b) => V::Bool(*b, false),
            ConstVal::Str(s) => V::Str(s.as_str().into()),
            ConstVal::Bytes(b) => V::Bytes(Rc::new(b.clone())),
            ConstVal::Fn(c) => V::FnItem(self.p.mk_callee_of(c)),
            ConstVal::Zst => match self.p.ty(c.ty) {
                Ty::Tuple(_) => V::unit(),
                Ty::Adt(p, _) => V::Adt(p.into(), 0, vec![], false),
                Ty::FnDef(c) => V::FnItem(self.p.mk_callee(&c)),
                _ => V::Tuple(vec![]),
            },
            ConstVal::Ctor(v, fs) => {
                let fs = fs.iter().map(|f| self.constant(f)).collect::<R<Vec<_>>>()?;
                match self.p.ty(c.ty) {
                    Ty::Adt(p, _) => V::Adt(p.into(), *v, fs, false),
                    _ => V::Tuple(fs),
                }
            }
            ConstVal::Promoted(n) => {
                let FK::Mir { inst, .. } = self.st.frames.last().unwrap().kind else { return Ok(V::Unk) };
                self.promoted(inst, *n)?
            }
            ConstVal::Named(s) => V::named(&format!("const {}", s)),
            ConstVal::Other(s) => V::named(&format!("const? {}", s)),
        })
    }
    fn promoted(&mut self, inst: u32, n: u32) -> R<V> {
        if let Some(v) = self.promoted.get(&(inst, n)) {
            return Ok(v.clone());
        }
        let p = self.p.clone();
        let b = &p.c.insts[inst as usize].promoted[n as usize];
        // straight-line evaluation in a frame of its own
        self.st.frames.push(Rc::new(Frame { kind: FK::Mir { inst, block: 0 }, locals: Locals::default(), ctl: None, inh: false }));
        let mut blk = 0u32;
        let mut ok = true;
        for _ in 0..20 {
            for s in &b.blocks[blk as usize].stmts {
                self.stmt(s, b)?;
            }
            match &b.blocks[blk as usize].term {
                Term::Goto(t) => blk = *t,
                Term::Return => break,
                _ => { ok = false; break }
            }
        }
        let r = self.frame().locals[0].clone();
        let r = if ok { self.freeze(&r, 8)? } else { V::Unk };
        self.st.frames.pop();
        self.promoted.insert((inst, n), r.clone());
        Ok(r)
    }
    /// Turns references to locals of the current frame into references to values.
    pub fn freeze(&mut self, v: &V, n: u32) -> R<V> {
        if n == 0 { return Ok(V::Unk) }
        let t = self.top();
        Ok(match v {
            V::Ref(p) if matches!(p.root, Root::L(f, _) if f == t) => {
                let x = self.read(p)?;
                V::RefVal(Box::new(self.freeze(&x, n - 1)?))
            }
            V::RefVal(b) => V::RefVal(Box::new(self.freeze(b, n - 1)?)),
            V::Adt(p, i, f, tt) => {
                let mut g = vec![];
                for x in f { g.push(self.freeze(x, n - 1)?) }
                V::Adt(p.clone(), *i, g, *tt)
            }
            V::Tuple(f) => {
                let mut g = vec![];
                for x in f { g.push(self.freeze(x, n - 1)?) }
                V::Tuple(g)
            }
            V::Arr(f) => {
                let mut g = vec![];
                for x in f { g.push(self.freeze(x, n - 1)?) }
                V::Arr(g)
            }
            V::FmtArg(b, s) => V::FmtArg(Box::new(self.freeze(b, n - 1)?), s.clone()),
            V::Dyn(b, s) => V::Dyn(*b, Box::new(self.freeze(s, n - 1)?)),
            V::Box(b, s) => V::Box(*b, Box::new(self.freeze(s, n - 1)?)),
            v => v.clone(),
        })
    }
    pub fn place_ty(&self, p: &ir::Place, b: &ir::Inst) -> Option<u32> {
        let mut t = b.locals.get(p.local as usize)?.ty;
        for pr in &p.proj {
            t = match pr {
                Proj::Field(_, t) => *t,
                Proj::Deref => match self.p.ty(t) {
                    Ty::Ref(_, t) | Ty::Ptr(_, t) => t,
                    Ty::Adt(p, a) if p == "std::boxed::Box" => *a.first()?,
                    _ => return None,
                },
                Proj::Downcast(_) => t,
                Proj::Index(_) | Proj::ConstIndex(..) => match self.p.ty(t) {
                    Ty::Array(t, _) | Ty::Slice(t) => t,
                    _ => return None,
                },
                _ => return None,
            }
        }
        Some(t)
    }
    fn op_ty(&self, o: &Operand, b: &ir::Inst) -> Option<u32> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => self.place_ty(p, b),
            Operand::Const(c) => Some(c.ty),
        }
    }
    fn stmt(&mut self, s: &ir::Stmt, b: &ir::Inst) -> R<()> {
        match &s.kind {
            StmtKind::Assign(p, r) => {
                let v = self.rvalue(r, b)?;
                self.set(p, v)
            }
            StmtKind::SetDiscr(p, i) => {
                if let Loc::P(pl) = self.loc(p)? {
                    if let V::Adt(a, _, f, t) = self.read(&pl)? {
                        self.write(&pl, V::Adt(a, *i, f, t))?;
                    }
                }
                Ok(())
            }
            StmtKind::StorageLive(l) | StmtKind::StorageDead(l) => {
                self.frame().locals.set(*l as usize, V::Undef);
                Ok(())
            }
            StmtKind::Nop => Ok(()),
        }
    }
    fn rvalue(&mut self, r: &Rvalue, b: &ir::Inst) -> R<V> {
        Ok(match r {
            Rvalue::Use(Operand::Copy(p)) => {
                let l = self.loc(p)?;
                let v = self.loc_val(&l)?;
                // a box is never copied but to get at its contents
                match (&v, l) { (V::Box(BoxK::Box, _), Loc::P(p)) => V::Ref(p), _ => v }
            }
            Rvalue::Use(o) => self.operand(o)?,
            Rvalue::Ref(_, p) | Rvalue::RawPtr(_, p) => match self.loc(p)? {
                Loc::P(p) => V::Ref(p),
                Loc::Val(v) => V::RefVal(Box::new(v)),
                Loc::BoxP(p) => V::Ref(p),
                Loc::BoxVal(v) => V::RefVal(Box::new(v)),
            },
            Rvalue::Cast(k, o, ty) => {
                let from = self.op_ty(o, b);
                let v = self.operand(o)?;
                self.cast(k, v, from, *ty)?
            }
            Rvalue::Bin(op, x, y) => {
                let range = self.op_ty(x, b).and_then(|t| match self.p.ty(t) { Ty::Prim(p) => int_range(&p), _ => None });
                let w = matches!(op.as_str(), "Eq" | "Ne") && self.op_ty(x, b).map(|t| crate::models::wide(self, t)).unwrap_or(false);
                let x = self.operand(x)?;
                let y = self.operand(y)?;
                match w.then(|| self.wide_eq(&x, &y)).flatten() {
                    Some(v) => V::Bool(v == (op == "Eq"), false),
                    None => self.bin(op, x, y, range)?,
                }
            }
            Rvalue::Un(op, x) => {
                let x = self.operand(x)?;
                match (&**op, x) {
                    ("Not", V::Bool(x, t)) => V::Bool(!x, t),
                    ("Not", V::Any) => V::Any,
                    ("Neg", V::Int(i, t)) => V::Int(-i, t),
                    ("PtrMetadata", v) => {
                        let v = self.deref(&v)?;
                        match v {
                            V::Arr(a) => V::Int(a.len() as i128, false),
                            V::Unk => V::Unk,
                            _ => V::Any,
                        }
                    }
                    (_, V::Any | V::Pos(_) | V::Lin(..)) => V::Any,
                    _ => V::Unk,
                }
            }
            Rvalue::Discr(p) => {
                let l = self.loc(p)?;
                let v = self.loc_val(&l)?;
                let ty = self.place_ty(p, b);
                match v {
                    V::Adt(path, i, _, t) => V::Int(self.p.discr(&path, i), t),
                    V::Bool(x, t) => V::Int(x as i128, t),
                    V::Int(..) => v,
                    V::Any | V::Unk | V::Sym(_) => {
                        let unk = v == V::Unk;
                        let path = match ty.map(|t| self.p.ty(t)) { Some(Ty::Adt(p, _)) => p, _ => { self.imprecise("discriminant"); return Ok(V::Unk) } };
                        let Some(n) = self.p.nvariants(&path) else { self.imprecise(&format!("variants of {}", path)); return Ok(V::Unk) };
                        if n == 0 { return Err(Stop::Dead) }
                        if unk { self.imprecise(&format!("matching on a lost value of type {} in {}", path, self.here())) }
                        let i = self.choose(n as usize) as u32;
                        let fv = match &v { V::Sym(s) => V::Sym(Sym::Named(format!("{}#{}", show(&V::Sym(s.clone())), i).into(), vec![])), v => v.clone() };
                        if let Loc::P(pl) = &l {
                            self.write(pl, V::Adt(path.as_str().into(), i, vec![fv; 6], false))?;
                        }
                        V::Int(self.p.discr(&path, i), false)
                    }
                    // (a remainder of an optimization, not used)
                    V::Undef => V::Unk,
                    v => {
                        self.imprecise(&format!("discriminant of {}", show(&v)));
                        V::Unk
                    }
                }
            }
            Rvalue::Agg(a, l) => {
                let mut f = vec![];
                for o in l { f.push(self.operand(o)?) }
                match a {
                    Agg::Tuple => V::Tuple(f),
                    Agg::Array => V::Arr(f),
                    Agg::Adt(p, i, _, _) => V::Adt(p.as_str().into(), *i, f, false),
                    Agg::Closure(Some(i), _) => V::Closure(*i, f),
                    Agg::Closure(None, _) => V::Unk,
                    Agg::Other(_) => f.into_iter().next().unwrap_or(V::Unk),
                }
            }
            Rvalue::Repeat(o) => {
                let v = self.operand(o)?;
                V::Arr(vec![v])
            }
            Rvalue::Static(s) => {
                self.imprecise(&format!("static {}", s));
                V::Unk
            }
            Rvalue::Other(s) => {
                self.imprecise(&format!("rvalue {}", s));
                V::Unk
            }
        })
    }
    fn dyn_target(&self, ty: u32) -> Option<String> {
        match self.p.ty(ty) {
            Ty::Adt(p, a) if matches!(p.as_str(), "std::boxed::Box" | "std::rc::Rc" | "std::sync::Arc" | "std::rc::Weak" | "std::sync::Weak") => match self.p.ty(*a.first()?) {
                Ty::Dyn(t, _) => Some(t),
                _ => None,
            },
            _ => None,
        }
    }
    fn cast(&mut self, kind: &str, v: V, from: Option<u32>, to: u32) -> R<V> {
        if kind.contains("Unsize") {
            if let (Some(t), V::Box(k, b)) = (self.dyn_target(to), &v) {
                if t.contains("Any") && !matches!(**b, V::Dyn(..)) {
                    let inner = match from.map(|f| self.p.ty(f)) {
                        Some(Ty::Adt(_, a)) if !a.is_empty() => a[0],
                        _ => u32::MAX,
                    };
                    return Ok(V::Box(*k, Box::new(V::Dyn(inner, b.clone()))));
                }
            }
            return Ok(v);
        }
        if kind.contains("IntToInt") && (matches!(v, V::Lin(..)) || of_address(&v)) && narrow(&self.p.show_ty(to)) {
            // (loses the higher part)
            return Ok(V::Sym(Sym::Named(format!("the lower part ({}) of", self.p.show_ty(to)).as_str().into(), vec![v])));
        }
        if kind.contains("IntToInt") || kind.contains("PtrToPtr") || kind.contains("Transmute") || kind.contains("Pointer") || kind.contains("Ptr") || kind.contains("Subtype") {
            return Ok(v);
        }
        Ok(match v { V::Any => V::Any, v => v })
    }
    /// Equality of wide pointers, whose metadata may differ for one value.
    pub fn wide_eq(&mut self, x: &V, y: &V) -> Option<bool> {
        match (x, y) {
            (V::Sym(Sym::Ptr(Id::W(i), _)), V::Sym(Sym::Ptr(Id::W(j), _))) => Some(if i == j { self.flip() } else { false }),
            _ => None,
        }
    }
    pub fn same(&mut self, x: &V, y: &V) -> Option<(bool, bool)> {
        // (the same function of the same address)
        Some(match (x, y) {
            (V::Int(a, t), V::Int(b, u)) => (a == b, *t || *u),
            (V::Bool(a, t), V::Bool(b, u)) => (a == b, *t || *u),
            (V::Str(a), V::Str(b)) => (a == b, false),
            (V::Sym(a), V::Sym(b)) => {
                let ia = match a { Sym::Ptr(i, t) => Some((*i, *t)), _ => None };
                let ib = match b { Sym::Ptr(i, t) => Some((*i, *t)), _ => None };
                match (ia, ib) {
                    (Some((Id::O(c), _)), Some((Id::O(d), _))) if c == d => (self.flip(), true),
                    (Some((i, t)), Some((j, u))) => (i == j, t || u || !matches!((i, j), (Id::W(_), Id::W(_)))),
                    // (a length may have changed meanwhile)
                    _ if matches!(a, Sym::Len(_)) => return None,
                    _ => {
                        if a == b { (true, false) } else { return None }
                    }
                }
            }
            (V::Lin(a, i), V::Lin(b, j)) if a == b => (i == j, false),
            (V::Pos(t), V::Int(0, u)) | (V::Int(0, u), V::Pos(t)) => (false, *t || *u),
            _ => return None,
        })
    }
    /// 0 for less, 1 for equal, 2 for greater.
    pub fn compare(&mut self, x: &V, y: &V) -> Option<(u32, bool)> {
        match (x, y) {
            (V::Int(i, t), V::Int(j, u)) => Some((1 + (i > j) as u32 - (i < j) as u32, *t || *u)),
            (V::Sym(Sym::Ptr(..)), V::Sym(Sym::Ptr(..))) => match self.same(x, y)? {
                (true, t) => Some((1, t)),
                // any order of two addresses, but always the same
                (false, t) => {
                    let (a, b, rev) = if matches!((x, y), (V::Sym(Sym::Ptr(i, _)), V::Sym(Sym::Ptr(j, _))) if i > j) { (y, x, true) } else { (x, y, false) };
                    let less = match (a, b) {
                        (V::Sym(Sym::Ptr(Id::W(i), _)), V::Sym(Sym::Ptr(Id::W(j), _))) => {
                            let q = [V::named("address order"), V::Int(*i as i128, false), V::Int(*j as i128, false)];
                            match self.st.ghost.said.iter().find(|x| x.0 == q) {
                                Some(x) => x.1,
                                None => {
                                    let v = self.flip();
                                    Rc::make_mut(&mut self.st.ghost).said.push((q.to_vec(), v));
                                    v
                                }
                            }
                        }
                        _ => self.flip(),
                    };
                    Some((if less != rev { 0 } else { 2 }, t))
                }
            },
            _ => None,
        }
    }
    fn bin(&mut self, op: &str, x: V, y: V, range: Option<(i128, i128)>) -> R<V> {
        let checked = op.ends_with("WithOverflow");
        let o = op.trim_end_matches("WithOverflow").trim_end_matches("Unchecked");
        let len = |v: &V| matches!(v, V::Sym(Sym::Len(_)));
        let r = match o {
            // sizes of the maps are related to each other and to what they contain
            "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge" | "Cmp" | "Sub" if len(&x) && (len(&y) || matches!(y, V::Int(0..=2, _))) || len(&y) && matches!(x, V::Int(0..=2, _)) => V::Unk,
            "Eq" | "Ne" => match self.same(&x, &y) {
                Some((b, t)) => V::Bool(b == (o == "Eq"), t),
                None if x == V::Unk || y == V::Unk => V::Unk,
                None => V::Any,
            },
            "Cmp" => match self.compare(&x, &y) {
                Some((v, t)) => V::Adt("std::cmp::Ordering".into(), v, vec![], t),
                None => V::Any,
            },
            "Lt" | "Le" | "Gt" | "Ge" if matches!((&x, &y), (V::Sym(Sym::Ptr(..)), V::Sym(Sym::Ptr(..)))) => match self.compare(&x, &y) {
                Some((v, t)) => V::Bool(match o { "Lt" => v == 0, "Le" => v < 2, "Gt" => v == 2, _ => v > 0 }, t),
                None => V::Any,
            },
            "Lt" | "Le" | "Gt" | "Ge" => match (&x, &y) {
                (V::Int(a, t), V::Int(b, u)) => V::Bool(match o { "Lt" => a < b, "Le" => a <= b, "Gt" => a > b, _ => a >= b }, *t || *u),
                (V::Pos(t), V::Int(i, u)) if *i <= 0 || (*i == 1 && matches!(o, "Ge" | "Lt")) => V::Bool(matches!(o, "Gt" | "Ge"), *t || *u),
                (V::Int(i, u), V::Pos(t)) if *i <= 0 || (*i == 1 && matches!(o, "Le" | "Gt")) => V::Bool(matches!(o, "Lt" | "Le"), *t || *u),
                (V::Unk, _) | (_, V::Unk) => V::Unk,
                _ => V::Any,
            },
            "Add" | "Sub" | "Mul" | "BitAnd" | "BitOr" | "BitXor" | "Div" | "Rem" | "Shl" | "Shr" => match (&x, &y) {
                (V::Int(a, t), V::Int(b, u)) => {
                    let r = match o {
                        "Add" => a.checked_add(*b),
                        "Sub" => a.checked_sub(*b),
                        "Mul" => a.checked_mul(*b),
                        "BitAnd" => Some(a & b),
                        "BitOr" => Some(a | b),
                        "BitXor" => Some(a ^ b),
                        "Div" => a.checked_div(*b),
                        "Rem" => a.checked_rem(*b),
                        _ => None,
                    };
                    // beyond the type?
                    if let (Some(r), Some((lo, hi)), "Add" | "Sub" | "Mul") = (r, range, o) {
                        if r < lo || r > hi {
                            let span = hi - lo + 1;
                            let w = V::Int((r - lo).rem_euclid(span) + lo, *t || *u);
                            return Ok(if checked { V::Tuple(vec![w, V::Bool(true, *t || *u)]) } else { w });
                        }
                    }
                    match r { Some(r) if r.abs() < 64 => V::Int(r, *t || *u), _ => V::Any }
                }
                // addresses are distinct multiples of 8
                (V::Sym(Sym::Ptr(..)), V::Sym(Sym::Ptr(..))) if o == "BitXor" => match self.same(&x, &y) {
                    Some((true, t)) => V::Int(0, t),
                    Some((false, t)) => V::Pos(t),
                    None => V::Any,
                },
                (V::Sym(Sym::Ptr(..)), V::Int(n, _)) if matches!(o, "Shr" | "Shl") && (0..4).contains(n) || o == "Div" && [1, 2, 4, 8].contains(n) || o == "BitAnd" && [!0, !1, !3, !7].iter().any(|m: &u64| *m as i128 == *n || *m as i64 as i128 == *n) => x.clone(),
                (a, b) if (of_address(a) || of_address(b)) && [a, b].iter().all(|v| of_address(v) || matches!(v, V::Int(..))) && !checked => V::Sym(Sym::Named(format!("{} of addresses", o).as_str().into(), vec![x.clone(), y.clone()])),
                (V::Bool(a, t), V::Bool(b, u)) => V::Bool(match o { "BitAnd" => a & b, "BitOr" => a | b, _ => a ^ b }, *t || *u),
                (V::Bool(a, t), V::Any) | (V::Any, V::Bool(a, t)) if (o == "BitAnd" && !*a) || (o == "BitOr" && *a) => V::Bool(*a, *t),
                (V::Lin(a, i), V::Int(j, _)) if o == "Add" => V::Lin(a.clone(), i + j),
                (V::Lin(a, i), V::Int(j, _)) if o == "Sub" => V::Lin(a.clone(), i - j),
                (V::Int(j, _), V::Lin(a, i)) if o == "Add" => V::Lin(a.clone(), i + j),
                (V::Unk, _) | (_, V::Unk) => V::Unk,
                _ => V::Any,
            },
            "Offset" => V::Any,
            _ => V::Unk,
        };
        Ok(if checked { V::Tuple(vec![r, V::Bool(false, false)]) } else { r })
    }

    // ---- terminators ----
    pub fn push_inst(&mut self, inst: u32, args: Vec<V>) {
        let p = self.p.clone();
        let b = &p.c.insts[inst as usize];
        let mut locals = vec![V::Undef; b.locals.len()];
        for (i, a) in args.into_iter().enumerate() {
            if i + 1 < locals.len() { locals[i + 1] = a }
        }
        if b.local { self.stats.fns.insert(b.path.clone()); }
        let inh = match self.st.frames.last() { Some(f) => f.ctl.is_some() || f.inh, None => false };
        self.st.frames.push(Rc::new(Frame { kind: FK::Mir { inst, block: 0 }, locals: Locals::from(locals), ctl: None, inh }));
    }
    pub fn push_nat(&mut self, n: Nat, locals: Vec<V>) -> u32 {
        let inh = self.tainted();
        self.st.frames.push(Rc::new(Frame { kind: FK::Nat(n), locals: Locals::from(locals), ctl: None, inh }));
        self.top()
    }
    /// Calls a function value.
    pub fn call_value(&mut self, f: &V, args: Vec<V>) -> R<Res> {
        let mut fv = f.clone();
        let mut place = None;
        loop {
            fv = match fv {
                V::Ref(p) => {
                    place = Some(p.clone());
                    self.read(&p)?
                }
                V::RefVal(v) => *v,
                V::Box(_, v) => {
                    place = None;
                    *v
                }
                v => break fv = v,
            }
        }
        match &fv {
            V::Closure(i, _) => {
                let b = &self.p.c.insts[*i as usize];
                let byref = b.locals.get(1).map(|l| matches!(self.p.ty(l.ty), Ty::Ref(..))).unwrap_or(false);
                let me = if byref {
                    match place { Some(p) => V::Ref(p), None => V::RefVal(Box::new(fv.clone())) }
                } else { fv.clone() };
                let mut a = vec![me];
                a.extend(args);
                self.push_inst(*i, a);
                Ok(Res::Pushed)
            }
            V::FnItem(c) => {
                let c = self.p.callee(*c);
                self.call(&c, args)
            }
            V::Sym(_) => {
                let w = self.w.clone();
                let c = Callee { path: "std::ops::Fn::call".into(), args: vec![], trait_: Some("std::ops::Fn".into()), name: "call".into(), rpath: "std::ops::Fn::call".into(), local: false, resolved: false, inst: None, aux: vec![] };
                match w.call(self, &c, &[fv.clone(), V::Tuple(args)])? {
                    Some(r) => Ok(r),
                    None => {
                        self.imprecise("call of an unknown function value");
                        Ok(Res::Ret(V::Unk))
                    }
                }
            }
            v => {
                self.imprecise(&format!("call of {}", show(v)));
                Ok(Res::Ret(V::Unk))
            }
        }
    }
    pub fn call(&mut self, c: &Callee, args: Vec<V>) -> R<Res> {
        let w = self.w.clone();
        if let Some(r) = w.intercept(self, c, &args)? { return Ok(r) }
        if matches!(args.first(), Some(V::Sym(Sym::Named(n, _))) if n.ends_with("parts of")) {
            if let Some(r) = crate::models::model(self, c, &args)? { return Ok(r) }
        }
        if c.name == "count" && matches!(args.first(), Some(V::Iter(i)) if i.whole.is_some()) {
            if let Some(r) = crate::models::model(self, c, &args)? { return Ok(r) }
        }
        if let Some(i) = c.inst {
            let b = &self.p.c.insts[i as usize];
            let args = if b.spread.is_some() { args } else if b.closure && args.len() == 2 && matches!(c.name.as_str(), "call" | "call_mut" | "call_once") {
                let mut it = args.into_iter();
                let f = it.next().unwrap();
                let t = it.next().unwrap();
                let l = match t { V::Tuple(l) => l, v => vec![v] };
                if self.deref(&f)? == V::unit() {
                    // (a closure without captures, as a constant)
                    let mut a = vec![f];
                    a.extend(l);
                    self.push_inst(i, a);
                    return Ok(Res::Pushed);
                }
                return self.call_value(&f, l);
            } else { args };
            if b.local && self.st.frames.iter().filter(|f| matches!(f.kind, FK::Mir { inst, .. } if inst == i)).count() >= RECURSION {
                // deeper recursion is not explored
                *self.stats.unmodelled.entry(format!("recursion of {} deeper than {}", b.path, RECURSION)).or_insert(0) += 1;
                return Err(Stop::Dead);
            }
            self.push_inst(i, args);
            return Ok(Res::Pushed);
        }
        if matches!(c.name.as_str(), "call" | "call_mut" | "call_once") && c.path.contains("ops::") && args.len() == 2 {
            let l = match &args[1] { V::Tuple(l) => l.clone(), v => vec![v.clone()] };
            return self.call_value(&args[0], l);
        }
        *self.stats.calls.entry(c.rpath.clone()).or_insert(0) += 1;
        if let Some(r) = w.call(self, c, &args)? { return Ok(r) }
        if let Some(r) = crate::models::model(self, c, &args)? { return Ok(r) }
        self.imprecise(&format!("no model for {}", c.rpath));
        // may change what it is given
        for a in &args {
            if let Some(p) = self.place_of(a)? {
                let _ = p;
            }
        }
        Ok(Res::Ret(V::Unk))
    }

    fn enter(&mut self, b: u32) {
        let f = self.frame();
        if f.ctl == Some(b) { f.ctl = None }
        let mut at = 0;
        if let FK::Mir { block, inst } = &mut f.kind { *block = b; at = *inst }
        let dead = self.p.dead(at);
        let f = self.frame();
        f.locals.retain(|l| !dead[b as usize][l as usize]);
    }
    /// Gives the result to the calling frame; true: the machine has finished.
    fn ret(&mut self, v: V) -> R<Option<Exit>> {
        let mut v = v;
        loop {
            let Some(f) = self.st.frames.last().cloned() else { return Ok(Some(Exit::Ret(v))) };
            match &f.kind {
                FK::Mir { inst, block } => {
                    let p = self.p.clone();
                    let b = &p.c.insts[*inst as usize];
                    match &b.blocks[*block as usize].term {
                        Term::Call { dest, target, .. } => {
                            let Some(t) = target else { return Err(Stop::Dead) };
                            self.set(dest, v)?;
                            self.enter(*t);
                        }
                        Term::Drop(_, t, _) => self.enter(*t),
                        _ => {}
                    }
                    return Ok(None);
                }
                FK::Nat(_) => {
                    match crate::models::nat_drive(self, v)? {
                        Res::Ret(x) => v = x,
                        Res::Pushed => return Ok(None),
                        Res::Panic(u, s) => return self.panic(u, s),
                        Res::Diverge => return Err(Stop::Dead),
                    }
                }
            }
        }
    }
    pub fn panic(&mut self, user: bool, what: Sy) -> R<Option<Exit>> {
        if !user && self.tainted() {
            self.stats.suppressed += 1;
            return Err(Stop::Dead);
        }
        let loc: Sy = self.here().into();
        if self.st.panic.is_some() {
            // a second panic while unwinding
            if !user { return Err(Stop::Dead) }
            return Err(Stop::Dead);
        }
        self.st.panic = Some(Rc::new(PInfo { user, what, loc }));
        self.unwind()
    }
    fn unwind(&mut self) -> R<Option<Exit>> {
        loop {
            let Some(f) = self.st.frames.last() else {
                return Ok(Some(Exit::Panic(self.st.panic.clone().unwrap())));
            };
            if let FK::Mir { inst, block } = &f.kind {
                let b = &self.p.c.insts[*inst as usize].blocks[*block as usize];
                let u = match &b.term {
                    Term::Call { unwind, .. } => *unwind,
                    Term::Drop(_, _, u) => *u,
                    _ => None,
                };
                if let (Some(u), false) = (u, b.cleanup) {
                    self.enter(u);
                    return Ok(None);
                }
            }
            self.st.frames.pop();
        }
    }

    /// Executes the current block.
    fn step(&mut self) -> R<Option<Exit>> {
        let FK::Mir { inst, block } = self.st.frames.last().unwrap().kind else { unreachable!() };
        let p = self.p.clone();
        let b = &p.c.insts[inst as usize];
        let blk = &b.blocks[block as usize];
        if b.local { self.stats.blocks.insert((inst, block)); }
        for s in &blk.stmts {
            self.stmt(s, b)?;
        }
        match &blk.term {
            Term::Goto(t) => self.enter(*t),
            Term::Assert(o, want, msg, t) => {
                if let V::Bool(x, taint) = self.operand(o)? {
                    if x != *want && !taint {
                        let msg: Sy = msg.split('(').next().unwrap_or("").into();
                        return self.panic(false, format!("arithmetic fails: {}", msg).as_str().into());
                    }
                }
                self.enter(*t)
            }
            Term::Switch(o, l, other) => {
                let v = match o {
                    Operand::Move(p) => self.operand(&Operand::Copy(p.clone()))?,
                    o => self.operand(o)?,
                };
                let (t, taint) = match &v {
                    V::Int(i, t) => (l.iter().find(|x| x.0 == *i).map(|x| x.1).unwrap_or(*other), *t),
                    V::Bool(x, t) => (l.iter().find(|y| y.0 == *x as i128).map(|y| y.1).unwrap_or(*other), *t),
                    v => {
                        if matches!(v, V::Unk | V::Undef) || !matches!(v, V::Any | V::Pos(_) | V::Lin(..) | V::Sym(_)) {
                            self.imprecise(&format!("branch on {} in {}", show(v), self.here()));
                        }
                        let mut opts: Vec<(Option<i128>, u32)> = l.iter().map(|x| (Some(x.0), x.1)).collect();
                        if !matches!(b.blocks[*other as usize].term, Term::Unreachable) { opts.push((None, *other)) }
                        let mut taint = false;
                        if let V::Pos(t) = v {
                            taint = *t;
                            opts.retain(|x| x.0 != Some(0));
                        }
                        let i = self.choose(opts.len());
                        let (val, t) = opts[i];
                        // remember the choice
                        if let (Operand::Copy(pl) | Operand::Move(pl), V::Any | V::Unk) = (o, v) {
                            let isbool = self.place_ty(pl, b).map(|t| self.p.ty(t) == Ty::Prim("bool".into())).unwrap_or(false);
                            let nv = match val {
                                Some(x) if isbool => Some(V::Bool(x != 0, false)),
                                None if isbool && l.len() == 1 => Some(V::Bool(l[0].0 == 0, false)),
                                Some(x) => Some(V::Int(x, false)),
                                None => None,
                            };
                            if let (Some(nv), Loc::P(pl)) = (nv, self.loc(pl)?) { self.write(&pl, nv)? }
                        }
                        (t, taint)
                    }
                };
                if taint {
                    let ip = self.p.ipdom(inst)[block as usize].unwrap_or(u32::MAX);
                    let f = self.frame();
                    if f.ctl.is_none() { f.ctl = Some(ip) }
                }
                self.enter(t);
            }
            Term::Return => {
                let f = self.st.frames.last().unwrap().clone();
                let mut v = f.locals[0].clone();
                if f.ctl.is_some() { v = v.tainted() }
                if self.st.frames.len() == 1 {
                    return Ok(Some(Exit::Ret(v)));
                }
                self.st.frames.pop();
                if v.has_ref_to(self.st.frames.len() as u32) {
                    // e.g. a reference to a promoted temporary
                    self.imprecise("result refers to a local");
                }
                return self.ret(v);
            }
            Term::Unreachable => return Err(Stop::Dead),
            Term::Resume => {
                self.st.frames.pop();
                return self.unwind();
            }
            Term::Drop(pl, t, _) => {
                let dty = self.place_ty(pl, b);
                if let Some(i) = dty.and_then(|t| self.p.drop_impl(t)) {
                    if let Loc::P(pp) = self.loc(pl)? {
                        if self.read(&pp)? != V::Undef {
                            self.push_inst(i, vec![V::Ref(pp)]);
                            return Ok(None);
                        }
                    }
                }
                if pl.proj.is_empty() {
                    let l = pl.local as usize;
                    self.frame().locals.set(l, V::Undef);
                }
                self.enter(*t);
            }
            Term::Call { func, args, .. } => {
                let f = self.operand(func)?;
                let mut a = vec![];
                for x in args { a.push(self.operand(x)?) }
                let r = match &f {
                    V::FnItem(c) => {
                        let c = self.p.callee(*c);
                        self.call(&c, a)?
                    }
                    f => self.call_value(f, a)?,
                };
                match r {
                    Res::Ret(v) => return self.ret(v),
                    Res::Pushed => {}
                    Res::Panic(u, s) => return self.panic(u, s),
                    Res::Diverge => return Err(Stop::Dead),
                }
            }
            Term::Other(s) => {
                self.imprecise(&format!("terminator {}", s));
                return Err(Stop::Dead);
            }
        }
        Ok(None)
    }

    /// Forgets facts that do not matter any more.
    fn forget(&mut self) {
        let mut live = self.w.needed();
        if live == u128::MAX || !self.st.snaps.is_empty() { return }
        let mut g = |v: &V| match v {
            V::Map(m) => {
                if let Some(r) = m.role {
                    for w in 0..2u8 {
                        if let Slot::Lazy(e) = m.slots[w as usize] {
                            let sh = e as u16 * NK;
                            let mut add = |f: u16| live |= facts::bit(f + sh);
                            add(crate::cachep::role_fact(r, w));
                            match r {
                                Role::Dept => {
                                    add(facts::e(w));
                                    for c in 0..3 { add(facts::dto(w, c)) }
                                }
                                Role::Depy => {
                                    add(facts::e(1 - w));
                                    for c in 0..3 { add(facts::dco(w, c)) }
                                }
                                _ => {}
                            }
                        }
                    }
                }
            }
            V::Coll(c) => for n in c.elems.values() { if let Cnt::Fact(f) = n { live |= facts::bit(*f) } },
            V::Iter(c) => for n in c.items.values() { if let Cnt::Fact(f) = n { live |= facts::bit(*f) } },
            _ => {}
        };
        for v in &self.st.globals { v.walk(&mut g) }
        for f in &self.st.frames { for (_, v) in f.locals.iter() { v.walk(&mut g) } }
        if self.st.known & !live == 0 { return }
        let cl = self.clauses();
        let (mut k, mut v) = (self.st.known, self.st.vals);
        facts::propagate(&mut k, &mut v, &cl);
        self.st.known = k & live;
        self.st.vals = v & live;
    }
    /// Explores everything from the current state.
    pub fn run(&mut self) {
        let mut seen: HashSet<u128, Build> = Default::default();
        let mut todo = vec![(self.st.clone(), hash128(&self.st))];
        let dbg = std::env::var("DBG").is_ok();
        let mut dd: BTreeMap<String, HashSet<u128>> = BTreeMap::new();
        let root = hash128(&self.st);
        seen.insert(root);
        self.parents.clear();
        let mut rnd = 0x9E3779B97F4A7C15u64;
        loop {
            if self.stats.states % 61 == 60 && !todo.is_empty() {
                // depth first, but going on elsewhere from time to time
                rnd = rnd.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                let (i, l) = ((rnd >> 33) as usize % todo.len(), todo.len() - 1);
                todo.swap(i, l);
            }
            let Some((st, cur)) = todo.pop() else { break };
            self.stats.states += 1;
            if dbg {
                let mut ad = |n: &str, h: u128| { dd.entry(n.to_string()).or_default().insert(h); };
                ad("facts", hash128(&(st.known, st.vals)));
                ad("globals", hash128(&st.globals));
                ad("frames", hash128(&st.frames));
                ad("ghost", hash128(&st.ghost));
                ad("pos", hash128(&st.frames.iter().map(|f| f.kind.clone()).collect::<Vec<_>>()));
                ad("ctl", hash128(&st.frames.iter().map(|f| (f.ctl, f.inh)).collect::<Vec<_>>()));
                for (i, f) in st.frames.iter().enumerate() {
                    if i > 2 { break }
                    for (j, l) in f.locals.iter() { ad(&format!("f{} l{}", i, j), hash128(l)) }
                }
                if let V::Adt(_, _, f, _) = &st.globals[0] { for (i, x) in f.iter().enumerate() { ad(&format!("g{}", i), hash128(x)); if let V::Adt(_, _, f, _) = x { for (j, x) in f.iter().enumerate() { ad(&format!("g{}.{}", i, j), hash128(x)) } } } }
                if self.stats.states == self.limit {
                    for (k, v) in &dd { if v.len() > 2 { println!("      {} {}", k, v.len()) } }
                }
            }
            if self.stats.states > self.limit {
                self.st = st;
                self.st.imprecise = Some("state limit reached".into());
                self.violate("*", "state limit reached".into(), String::new());
                return;
            }
            let mut next: Vec<(St, u128)> = vec![];
            let mut me = std::mem::take(&mut self.findings);
            self.all_choices(&st, |m| {
                m.cur = cur;
                // straight on until something had to be chosen
                let mut r = m.step();
                let mut n = 0;
                while m.pos == 0 && n < 100 && matches!(r, Ok(None)) {
                    r = m.step();
                    n += 1;
                }
                match r {
                    Ok(None) => {
                        m.forget();
                        let h = hash128(&m.st);
                        if seen.insert(h) {
                            if m.trace_on {
                                let l = m.label();
                                m.parents.insert(h, (cur, l));
                            }
                            next.push((m.st.clone(), h));
                        }
                    }
                    Ok(Some(x)) => {
                        if matches!(x, Exit::Panic(_)) { m.stats.panics += 1 } else { m.stats.exits += 1 }
                        let w = m.w.clone();
                        let _ = w.exit(m, &x);
                    }
                    Err(_) => {}
                }
            });
            me.extend(std::mem::take(&mut self.findings));
            if me.len() > self.findings.len() || !me.is_empty() {
                if self.stop_early && me.iter().any(|f| f.undecided.is_none()) {
                    self.findings = me;
                    return;
                }
            }
            self.findings = me;
            todo.extend(next);
        }
    }
    fn label(&self) -> Sy {
        for f in self.st.frames.iter().rev() {
            if let FK::Mir { inst, block } = f.kind {
                let i = &self.p.c.insts[inst as usize];
                if i.local && !i.blocks[block as usize].cleanup {
                    let b = &i.blocks[block as usize];
                    let short = i.path.rsplit("::").take(2).collect::<Vec<_>>();
                    return format!("{}:{} {}", b.term_span.file, b.stmts.first().map(|s| s.line).unwrap_or(b.term_span.line), short.into_iter().rev().collect::<Vec<_>>().join("::")).into();
                }
            }
        }
        "".into()
    }
}

thread_local! { pub static DUMMY: RefCell<u32> = RefCell::new(0); }

/// Integers smaller than a counter.
pub fn narrow(ty: &str) -> bool {
    matches!(ty, "u8" | "i8" | "u16" | "i16" | "u32" | "i32")
}

/// Values of an integer type of up to 64 bits.
pub fn int_range(t: &str) -> Option<(i128, i128)> {
    let bits: u32 = match &t[1..] { "8" => 8, "16" => 16, "32" => 32, "64" | "size" => 64, _ => return None };
    match &t[..1] {
        "u" => Some((0, (1i128 << bits) - 1)),
        "i" => Some((-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1)),
        _ => None,
    }
}
