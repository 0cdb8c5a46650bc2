//! Histories: all sequences of operations on a new cache, with two builders that may resolve each other, fail and panic.
//!
//! The other analysis starts from any state that satisfies the bookkeeping invariant of the known parts of the cache. If the
//! cache has further parts, nothing is known about those; then the states that can be reached are enumerated instead.
use crate::cachep::*;
use crate::facts::{self, T};
use crate::mach::{Finding, M};
use crate::prog::Prog;
use crate::value::*;
use ir::Ty;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash)]
struct State {
    cache: V,
    alive: [bool; 2],
    panicked: bool,
    uses: [bool; 2],
}

struct Node {
    s: State,
    parent: usize,
    step: String,
    /// Operation last performed.
    op: Option<Op>,
}

#[derive(Default)]
pub struct Out {
    pub states: usize,
    pub steps: u64,
    pub machine: u64,
    pub complete: bool,
    pub findings: Vec<Finding>,
    pub extra: Vec<String>,
    pub obligations: BTreeMap<String, u64>,
    pub notes: BTreeSet<String>,
}

fn map_syms(v: &V, f: &dyn Fn(&Sym) -> Sym) -> V {
    let l = |l: &Vec<V>| l.iter().map(|x| map_syms(x, f)).collect::<Vec<_>>();
    let b = |x: &V| Box::new(map_syms(x, f));
    match v {
        V::Sym(Sym::Named(n, a)) => V::Sym(f(&Sym::Named(n.clone(), l(a)))),
        V::Sym(s) => V::Sym(f(s)),
        V::Tuple(x) => V::Tuple(l(x)),
        V::Arr(x) => V::Arr(l(x)),
        V::Adt(p, i, x, t) => V::Adt(p.clone(), *i, l(x), *t),
        V::Closure(i, x) => V::Closure(*i, l(x)),
        V::RefVal(x) => V::RefVal(b(x)),
        V::Box(k, x) => V::Box(*k, b(x)),
        V::Dyn(t, x) => V::Dyn(*t, b(x)),
        V::Coll(c) => {
            let mut d = (**c).clone();
            d.elems = c.elems.iter().map(|(k, n)| (map_syms(k, f), *n)).collect();
            V::Coll(Rc::new(d))
        }
        V::Map(m) => {
            let mut d = (**m).clone();
            for s in &mut d.slots { if let Slot::Val(v) = s { *s = Slot::Val(b(v)) } }
            V::Map(Rc::new(d))
        }
        V::Int(i, _) => V::Int(*i, false),
        V::Bool(i, _) => V::Bool(*i, false),
        v => v.clone(),
    }
}

/// The stored artifact and state of a builder are the initial ones of the next operation, any other are old.
fn normal(w: &CacheWorld, m: &mut M, v: &V) -> V {
    m.st.globals[0] = v.clone();
    let mut gens: HashMap<(bool, Id), Gen> = HashMap::new();
    for (r, art) in [(Role::Art, true), (Role::Dyn, false)] {
        let Some(p) = w.roles.borrow().get(&r).cloned() else { continue };
        if let Ok(V::Map(mm)) = m.read(&p) {
            for s in &mm.slots {
                if let Slot::Val(v) = s {
                    v.walk(&mut |x| match x {
                        V::Sym(Sym::Art(i, g)) if art => { gens.insert((true, *i), *g); }
                        V::Sym(Sym::Dyn(i, g)) if !art => { gens.insert((false, *i), *g); }
                        _ => {}
                    });
                }
            }
        }
    }
    map_syms(v, &|s| match s {
        Sym::Art(i, g) => Sym::Art(*i, if gens.get(&(true, *i)) == Some(g) { Gen::Init } else { Gen::Old }),
        Sym::Dyn(i, g) => Sym::Dyn(*i, if gens.get(&(false, *i)) == Some(g) { Gen::Init } else { Gen::Old }),
        Sym::Named(n, a) if &**n == "given doctor" && a.is_empty() => Sym::Doctor,
        s => s.clone(),
    })
}

/// What a bug that shows after the operation is about, besides what is wrong then.
fn about(op: Op) -> &'static [&'static str] {
    match op {
        Op::ClearAll | Op::ClearArtifacts => &["C09"],
        Op::Gc => &["C10", "C11"],
        Op::Invalidate => &["C02", "C03"],
        Op::Purge => &["C08"],
        Op::GetMut | Op::LookupMut => &["C02"],
        Op::DynStateMut | Op::DynState => &["C06"],
        Op::Get => &["C01", "C05"],
        Op::Lookup | Op::GetDyn | Op::IsKnown | Op::Count => &["C07"],
        _ => &[],
    }
}

pub fn explore(p: &Rc<Prog>, prop: Option<&str>, seconds: u64, max: usize) -> Out {
    let mut out = Out::default();
    let t0 = std::time::Instant::now();
    let Some(id_ty) = id_type(p) else { return out };
    let all = ops(p);
    let is_resolver = |f: &ir::Fn| matches!(f.impl_self.map(|s| p.ty(s)), Some(Ty::Adt(ref q, _)) if q.ends_with("Resolver"));
    let resolve: Vec<u32> = all.iter().filter(|(f, op)| is_resolver(f) && *op == Op::Resolve).filter_map(|x| x.0.inst).collect();
    let world = |op: Op, scen: &Scen, f: &ir::Fn, hist: Option<Hist>| Rc::new(CacheWorld::new(p.clone(), op, scen.clone(), format!("{} ({}:{})", f.path, f.file, f.line), id_ty, hist));
    let none = Scen::plain("a history", None, None);
    // new caches
    let mut nodes: Vec<Node> = vec![];
    let mut index: HashMap<State, usize> = HashMap::new();
    let mut queue: VecDeque<usize> = VecDeque::new();
    let mut steps: Vec<(ir::Fn, Op)> = vec![];
    let mut inner = None;
    for (f, op) in &all {
        if is_resolver(f) || *op == Op::New || *op == Op::Count { continue }
        if inner.is_none() { inner = f.impl_self }
        steps.push((f.clone(), *op));
    }
    let Some(inner) = inner else { return out };
    let hist = |facts: Vec<bool>, alive: [bool; 2], uses: [bool; 2]| Hist { facts, alive, uses, resolve: resolve.clone(), outs: Default::default() };
    let add = |nodes: &mut Vec<Node>, index: &mut HashMap<State, usize>, queue: &mut VecDeque<usize>, n: Node| {
        if index.contains_key(&n.s) { return }
        index.insert(n.s.clone(), nodes.len());
        queue.push_back(nodes.len());
        nodes.push(n);
    };
    for (f, op) in &all {
        if *op != Op::New || is_resolver(f) { continue }
        let w = world(*op, &none, f, Some(hist(vec![], [true; 2], [false; 2])));
        let mut m = M::new(p.clone(), w.clone(), &f.path);
        m.st.globals = vec![V::Undef, V::Undef];
        let c = w.mk_cache(&mut m, inner, Place { root: Root::G(0), path: vec![] });
        let _ = c;
        m.st.imprecise = None;
        let args = f.sig_inputs.iter().map(|_| V::named("given doctor")).collect();
        m.push_inst(f.inst.unwrap(), args);
        m.run();
        out.extra = w.extra.borrow().iter().cloned().collect();
        let outs = w.hist.as_ref().unwrap().outs.borrow().clone();
        if outs.is_empty() { out.notes.insert(format!("{} does not yield a cache", f.path)); }
        for (v, ..) in outs {
            let v = normal(&w, &mut m, &v);
            add(&mut nodes, &mut index, &mut queue, Node { s: State { cache: v, alive: [true; 2], panicked: false, uses: [false; 2] }, parent: usize::MAX, step: f.path.clone(), op: None });
        }
    }
    let mut seen: HashSet<(String, String)> = HashSet::new();
    out.complete = !nodes.is_empty();
    while let Some(i) = queue.pop_front() {
        if nodes.len() > max || t0.elapsed().as_secs() >= seconds {
            out.complete = false;
            out.notes.insert(format!("stopped after {} states ({} not expanded)", nodes.len(), queue.len() + 1));
            break;
        }
        let s = nodes[i].s.clone();
        // counters go on for ever
        let mut big = false;
        s.cache.walk(&mut |v| if let V::Int(i, _) = v { if *i > 4 || *i < -4 { big = true } });
        if big {
            // what happens again and again goes on up to the end of the type
            let nodes_op = nodes[i].op;
            for (path, hi) in narrow(p, &s.cache, &mut vec![]) {
                if at(&s.cache, &path) != Some(5) { continue }
                let mut k = nodes[i].parent;
                while k != usize::MAX {
                    let c = &nodes[k].s;
                    if at(&c.cache, &path) == Some(4) && (c.alive, c.uses, c.panicked) == (s.alive, s.uses, s.panicked) {
                        let mut z = s.cache.clone();
                        set(&mut z, &path, 4);
                        if z == c.cache {
                            set(&mut z, &path, hi);
                            add(&mut nodes, &mut index, &mut queue, Node { s: State { cache: z, ..s.clone() }, parent: i, step: "and so on, up to the greatest value of the counter".into(), op: nodes_op });
                            break;
                        }
                    }
                    k = nodes[k].parent;
                }
            }
            let mut top = true;
            s.cache.walk(&mut |v| if let V::Int(i, _) = v { if *i > 4 && !matches!(*i, 127 | 255 | 32767 | 65535 | 2147483647 | 4294967295) || *i < -4 { top = false } });
            if !top { out.notes.insert("counters are followed up to 4 only".into());
            continue }
        }
        let last = nodes[i].op;
        for w in 0..2 {
            if s.alive[w] {
                let mut t = s.clone();
                t.alive[w] = false;
                add(&mut nodes, &mut index, &mut queue, Node { s: t, parent: i, step: format!("the last reference to w{} is dropped", w + 1), op: last });
            }
        }
        for (f, op) in &steps {
            let has_target = scenarios(*op).iter().any(|x| x.target.is_some());
            for t in 0..2u8 {
                if has_target && !s.alive[t as usize] || !has_target && t > 0 { continue }
                // the facts
                let scen0 = Scen { gc: *op == Op::Gc, ..none.clone() };
                let w0 = world(*op, &scen0, f, Some(hist(vec![], s.alive, s.uses)));
                let mut m = M::new(p.clone(), w0.clone(), &f.path);
                m.st.globals = vec![V::Undef, V::Undef];
                w0.mk_cache(&mut m, inner, Place { root: Root::G(0), path: vec![] });
                m.st.imprecise = None;
                m.st.globals[0] = s.cache.clone();
                let mut fs = vec![];
                for k in 0..26u16 { fs.push(w0.term(&mut m, k) == T::True) }
                fs.extend(s.alive);
                if m.st.imprecise.is_some() {
                    out.notes.insert(format!("lost track: {}", m.st.imprecise.clone().unwrap()));
                    out.complete = false;
                    continue;
                }
                let mut scen = Scen { name: "in a history".into(), target: if has_target { Some(Id::W(t)) } else { None }, classes: [false; 3], ..scen0 };
                if scenarios(*op).iter().any(|x| x.wcl[0].is_some()) {
                    let o = 1 - t;
                    let (dep, back) = (fs[facts::e(t) as usize], fs[facts::e(o) as usize]);
                    scen.wcl[o as usize] = Some(if dep { 0 } else { 1 });
                    scen.wcl[t as usize] = Some(0);
                    if matches!(op, Op::GetMut | Op::LookupMut) && !(dep && back) {
                        scen.acyclic = true;
                        scen.wcl[t as usize] = Some(2);
                    }
                }
                let w = world(*op, &scen, f, Some(hist(fs, s.alive, s.uses)));
                let step = format!("{}{}", f.path, if has_target { format!("(w{})", t + 1) } else { String::new() });
                let mut m = M::new(p.clone(), w.clone(), &step);
                m.limit = 300_000;
                m.st.globals = vec![V::Undef, V::Undef];
                w.mk_cache(&mut m, inner, Place { root: Root::G(0), path: vec![] });
                m.st.imprecise = None;
                m.st.globals[0] = s.cache.clone();
                let mut args = vec![];
                for (k, ty) in f.sig_inputs.iter().enumerate() {
                    args.push(match p.ty(*ty) {
                        _ if k == 0 => V::Ref(Place { root: Root::G(0), path: vec![] }),
                        Ty::Ref(_, _) => V::RefVal(Box::new(V::Sym(Sym::Prom(Id::W(t))))),
                        _ => V::Any,
                    });
                }
                m.push_inst(f.inst.unwrap(), args);
                m.run();
                out.steps += 1;
                out.machine += m.stats.states;
                for (k, n) in &m.stats.obligations { *out.obligations.entry(k.clone()).or_insert(0) += n }
                let fnd = std::mem::take(&mut m.findings);
                for mut x in fnd {
                    if let Some(u) = &x.undecided {
                        out.notes.insert(format!("{}: {}", f.path, u));
                        out.complete = false;
                        continue;
                    }
                    if x.prop == "*" { out.complete = false; out.notes.insert(x.msg.clone()); continue }
                    let mut props = vec![x.prop.clone()];
                    if s.panicked { props.push("C25".into()) }
                    if let Some(o) = nodes[i].op { props.extend(about(o).iter().map(|s| s.to_string())) }
                    let mut trace = vec![];
                    let mut k = i;
                    while k != usize::MAX {
                        trace.push(format!("{}: state {}", nodes[k].step, show(&nodes[k].s.cache)));
                        k = nodes[k].parent;
                    }
                    trace.reverse();
                    trace.push(step.clone());
                    let hist = trace.iter().map(|x| x.split(": state").next().unwrap().rsplit("::").next().unwrap().to_string()).collect::<Vec<_>>().join("; ");
                    for q in props {
                        if !seen.insert((q.clone(), x.msg.clone())) { continue }
                        x.prop = q.clone();
                        x.entry = format!("history: {}", hist);
                        x.trace = trace.clone();
                        out.findings.push(x.clone());
                        if prop == Some(q.as_str()) {
                            out.states = nodes.len();
                            out.complete = false;
                            return out;
                        }
                    }
                }
                let outs = w.hist.as_ref().unwrap().outs.borrow().clone();
                for (v, pan, uses) in outs {
                    let v = normal(&w, &mut m, &v);
                    let mut lost = false;
                    v.walk(&mut |x| if matches!(x, V::Unk | V::Ref(_)) { lost = true });
                    if lost {
                        out.notes.insert(format!("lost track in {}", f.path));
                        out.complete = false;
                        continue;
                    }
                    add(&mut nodes, &mut index, &mut queue, Node { s: State { cache: v, alive: s.alive, panicked: s.panicked || pan, uses }, parent: i, step: format!("{}{}", step, if pan { " (user code panics)" } else { "" }), op: Some(*op) });
                }
            }
        }
    }
    out.states = nodes.len();
    out
}

/// Integer fields of up to 32 bits whose value is never compared with anything, with their greatest value.
fn narrow(p: &Rc<Prog>, v: &V, path: &mut Vec<u32>) -> Vec<(Vec<u32>, i128)> {
    let mut r = vec![];
    if let V::Adt(q, i, f, _) = v {
        let Some(a) = p.adt(q) else { return r };
        let Some(var) = a.variants.get(*i as usize) else { return r };
        for (k, x) in f.iter().enumerate() {
            path.push(k as u32);
            if let (V::Int(..), Some(fd)) = (x, var.fields.get(k)) {
                if let Ty::Prim(t) = p.ty(fd.ty) {
                    if matches!(&*t, "u8" | "i8" | "u16" | "i16" | "u32" | "i32") && !compared(p, fd.ty) {
                        r.push((path.clone(), crate::mach::int_range(&t).unwrap().1));
                    }
                }
            } else {
                r.extend(narrow(p, x, path));
            }
            path.pop();
        }
    }
    r
}

fn at(v: &V, path: &[u32]) -> Option<i128> {
    match (v, path) {
        (V::Int(i, _), []) => Some(*i),
        (V::Adt(_, _, f, _), [k, r @ ..]) => at(f.get(*k as usize)?, r),
        _ => None,
    }
}

fn set(v: &mut V, path: &[u32], to: i128) {
    match (v, path) {
        (V::Int(i, _), []) => *i = to,
        (V::Adt(_, _, f, _), [k, r @ ..]) => if let Some(x) = f.get_mut(*k as usize) { set(x, r, to) },
        _ => {}
    }
}

/// Whether values of the type are ever looked at.
fn compared(p: &Rc<Prog>, t: u32) -> bool {
    p.c.insts.iter().any(|b| {
        let ty = |o: &ir::Operand| match o {
            ir::Operand::Copy(l) | ir::Operand::Move(l) => b.locals.get(l.local as usize).map(|x| if l.proj.is_empty() { x.ty == t } else { true }).unwrap_or(false),
            ir::Operand::Const(c) => c.ty == t,
        };
        b.blocks.iter().any(|bb| {
            matches!(&bb.term, ir::Term::Switch(o, ..) if matches!(o, ir::Operand::Copy(l) | ir::Operand::Move(l) if l.proj.is_empty() && b.locals.get(l.local as usize).map(|x| x.ty == t).unwrap_or(false)))
                || bb.stmts.iter().any(|s| matches!(&s.kind, ir::StmtKind::Assign(_, ir::Rvalue::Bin(op, x, y)) if !op.starts_with("Add") && (ty(x) && ty(y))))
        })
    })
}
