//! Checks of single functions: every outcome of a function on symbolic arguments, as seen by its caller,
//! compared with what the property demands.
use crate::mach::*;
use crate::prog::Prog;
use crate::value::*;
use ir::{Callee, Ty};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

/// How a call can end.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Outc {
    /// None: panic
    pub ret: Option<V>,
    /// By user code, what
    pub panic: Option<(bool, Sy)>,
    pub globals: Vec<V>,
    pub log: Vec<(Sy, Vec<V>)>,
    pub imprecise: Option<Sy>,
}

impl Outc {
    pub fn log_of(&self, name: &str) -> Vec<&Vec<V>> {
        self.log.iter().filter(|e| &*e.0 == name).map(|e| &e.1).collect()
    }
    pub fn show(&self) -> String {
        let r = match (&self.ret, &self.panic) {
            (Some(v), _) => show(v),
            (_, Some((u, w))) => format!("panic{} {}", if *u { " of user code" } else { "" }, w),
            _ => "?".into(),
        };
        format!("{} after [{}]", r, self.log.iter().map(|(n, a)| format!("{}({})", n, a.iter().map(show).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join("; "))
    }
}

type Hook = Box<dyn Fn(&mut M, &Callee, &[V]) -> R<Option<Res>>>;

pub struct SpecWorld {
    pub p: Rc<Prog>,
    pub outs: RefCell<BTreeSet<Outc>>,
    pub hook: Hook,
}

pub fn log(m: &mut M, name: &str, args: Vec<V>) {
    let g = Rc::make_mut(&mut m.st.ghost);
    if g.log.len() < 60 { g.log.push((name.into(), args)) }
}

fn last(s: &str) -> &str {
    s.rsplit("::").next().unwrap_or(s)
}

impl World for SpecWorld {
    fn intercept(&self, m: &mut M, c: &Callee, a: &[V]) -> R<Option<Res>> {
        (self.hook)(m, c, a)
    }
    fn call(&self, m: &mut M, c: &Callee, a: &[V]) -> R<Option<Res>> {
        generic(&self.p, m, c, a)
    }
    fn exit(&self, m: &mut M, x: &Exit) -> R<()> {
        let globals = m.st.globals.clone();
        let mut gl = vec![];
        for g in &globals { gl.push(m.deep(g, 12)?) }
        let (ret, panic) = match x {
            Exit::Ret(v) => (Some(v.clone()), None),
            Exit::Panic(i) => (None, Some((i.user, i.what.clone()))),
        };
        let o = Outc { ret, panic, globals: gl, log: m.st.ghost.log.clone(), imprecise: m.st.imprecise.clone() };
        self.outs.borrow_mut().insert(o);
        Ok(())
    }
    fn downcast(&self, m: &mut M, have: u32, want: u32, v: &V) -> Option<bool> {
        let _ = v;
        // distinct parameters stand for distinct types here
        Some(m.p.show_ty(have) == m.p.show_ty(want))
    }
}

/// Tokens by identity.
pub fn raw(i: u8) -> V { V::Sym(Sym::Prom(Id::W(i))) }
pub fn bin(i: u8) -> V { V::Sym(Sym::Builder(Id::W(i))) }
pub fn can(i: u8) -> V { V::Sym(Sym::Can(Id::W(i))) }
pub fn ptr(i: u8) -> V { V::Sym(Sym::Ptr(Id::W(i), false)) }

fn fn_result(m: &mut M, name: &str, args: Vec<V>) -> R<Option<Res>> {
    Ok(Some(match m.choose(3) {
        0 => Res::Ret(V::ok(V::Sym(Sym::Named(format!("result of {}", name).into(), args)))),
        1 => Res::Ret(V::err(V::Sym(Sym::Named(format!("error of {}", name).into(), args)))),
        _ => Res::Panic(true, name.into()),
    }))
}

/// Functions of type parameters.
fn generic(p: &Rc<Prog>, m: &mut M, c: &Callee, a: &[V]) -> R<Option<Res>> {
    let ret = |v: V| Ok(Some(Res::Ret(v)));
    let tr = last(c.trait_.as_deref().unwrap_or("")).to_string();
    match (tr.as_str(), c.name.as_str()) {
        ("Fn" | "FnMut" | "FnOnce", "call" | "call_mut" | "call_once") => {
            let f = m.deep(&a[0], 6)?;
            let l = match &a[1] { V::Tuple(l) => l.clone(), v => vec![v.clone()] };
            let mut d = vec![];
            for x in &l { d.push(m.deep(x, 6)?) }
            log(m, &format!("call {}", show(&f)), d);
            for x in &l {
                if let Some(pl) = m.place_of(x)? {
                    let old = m.read(&pl)?;
                    m.write(&pl, V::Sym(Sym::Named("changed".into(), vec![old])))?;
                }
            }
            fn_result(m, &show(&f), vec![])
        }
        ("Doctor", n) if !c.resolved => {
            let mut d = vec![];
            for x in a.iter().skip(1) { d.push(m.deep(x, 8)?) }
            log(m, &format!("Doctor::{}", n), d);
            ret(V::unit())
        }
        ("Hash", "hash") => {
            let d = m.deep(&a[0], 12)?;
            let w = c.args.first().map(|t| crate::models::wide(m, *t)).unwrap_or(false);
            log(m, "hash", if w && matches!(d, V::Sym(Sym::Ptr(..))) { vec![d, V::named(crate::models::WIDE)] } else { vec![d] });
            ret(V::unit())
        }
        ("Hasher", n) if n.starts_with("write") => {
            let d = m.deep(&a[1], 12)?;
            log(m, "hash", vec![d]);
            ret(V::unit())
        }
        ("Promise", n) if !c.resolved => {
            let v = m.deref(&a[0])?;
            let V::Sym(Sym::Prom(Id::W(i))) = v else { return Ok(None) };
            let Some(out) = p.find_fns(|f| f.name == n && matches!(&f.impl_trait, Some((t, _)) if t.ends_with("Promise"))).first().and_then(|f| f.sig_output) else { return Ok(None) };
            ret(mk(p, out, i, "promise"))
        }
        ("CanBase" | "Can", n @ ("can_as_ptr" | "bin_as_ptr")) => {
            let v = m.deref(&a[0])?;
            match (n, &v) {
                ("can_as_ptr", V::Sym(Sym::Can(i))) => ret(V::Sym(Sym::Ptr(*i, false))),
                ("bin_as_ptr", V::Sym(Sym::Builder(i))) => ret(V::Sym(Sym::Ptr(*i, false))),
                _ => Ok(None),
            }
        }
        ("CanSized", "into_bin") => match m.deref(&a[0])? {
            V::Sym(Sym::Prom(i)) => ret(V::Sym(Sym::Builder(i))),
            x => {
                let mut i = None;
                x.walk(&mut |y| if let V::Sym(Sym::Prom(j) | Sym::Builder(j)) = y { i = Some(*j) });
                match i {
                    Some(i) => ret(V::Sym(Sym::Builder(i))),
                    None => ret(V::Sym(Sym::Named("bin".into(), vec![x]))),
                }
            }
        },
        ("CanSized", "from_bin") => match m.deref(&a[0])? {
            V::Sym(Sym::Builder(i)) => ret(V::Sym(Sym::Can(i))),
            x => ret(V::Sym(Sym::Named("can".into(), vec![x]))),
        },
        ("CanSized", "from_inner") => match m.deref(&a[0])? {
            V::Sym(Sym::Prom(i)) => ret(V::Sym(Sym::Can(i))),
            x => ret(V::Sym(Sym::Named("can".into(), vec![V::Sym(Sym::Named("bin".into(), vec![x]))]))),
        },
        (_, "can_unsized") => match m.deref(&a[0])? {
            b @ V::Sym(Sym::Builder(_)) => {
                let V::Sym(Sym::Builder(i)) = b.clone() else { return Ok(None) };
                ret(V::Tuple(vec![b, V::Sym(Sym::Can(i))]))
            }
            _ => Ok(None),
        },
        ("CanUnsized", "into_unsized") => ret(a[0].clone()),
        (_, "downcast_can" | "downcast_can_ref" | "downcast_can_mut") => {
            let v = m.deref(&a[0])?;
            let x = match (&v, c.name.as_str()) {
                (V::Sym(Sym::Can(i)), "downcast_can") => V::Sym(Sym::Builder(*i)),
                (V::Sym(Sym::Can(i)), _) => V::RefVal(Box::new(V::Sym(Sym::Prom(*i)))),
                _ => return Ok(None),
            };
            let r = if m.flip() { V::some(x, false) } else { V::none(false) };
            ret(r)
        }
        ("CanStrong", "downgrade") => match m.deref(&a[0])? {
            V::Sym(Sym::Can(i)) => ret(V::Sym(Sym::Weak(i))),
            _ => Ok(None),
        },
        ("CanStrong", "upgrade_from_weak") => match m.deref(&a[0])? {
            V::Sym(Sym::Weak(i)) => { let r = if m.flip() { V::some(V::Sym(Sym::Can(i)), false) } else { V::none(false) }; ret(r) }
            _ => Ok(None),
        },
        ("Clone", "clone") | ("ToOwned", "to_owned") if !c.resolved => {
            let v = m.deref(&a[0])?;
            ret(v)
        }
        ("Deref", "deref") if c.rpath.starts_with("<&") => match m.place_of(&a[0])? {
            Some(p) => ret(V::Ref(p)),
            None => ret(a[0].clone()),
        },
        ("AsRef" | "Deref" | "Borrow", _) if !c.resolved => {
            let v = m.deref(&a[0])?;
            ret(V::RefVal(Box::new(v)))
        }
        ("Default", "default") if !c.resolved => ret(V::named("default")),
        ("Drop", _) => ret(V::unit()),
        ("Debug" | "Display" | "Pointer", "fmt") => {
            let d = m.deep(&a[0], 12)?;
            log(m, &format!("fmt {}", tr), vec![d]);
            ret(V::ok(V::unit()))
        }
        _ => Ok(None),
    }
}

/// A value of the given type, every part of which belongs to the builder i; texts are named after `tag`.
pub fn mk(p: &Rc<Prog>, ty: u32, i: u8, tag: &str) -> V {
    match p.ty(ty) {
        Ty::Proj(t, n, args) if assoc(p, &t, &n, &args).is_some() => mk(p, assoc(p, &t, &n, &args).unwrap(), i, tag),
        Ty::Ref(_, t) => match p.ty(t) {
            Ty::Prim(s) if s == "str" => text(tag, i),
            _ => V::RefVal(Box::new(mk(p, t, i, tag))),
        },
        Ty::Adt(path, args) => {
            if path == "std::marker::PhantomData" { return V::Adt(path.as_str().into(), 0, vec![], false) }
            if path == "std::string::String" { return text(tag, i) }
            if let Some(a) = p.adt(&path) {
                if a.variants.len() == 1 {
                    if let Some(fs) = p.fields(&path, &args, 0) {
                        return V::Adt(path.as_str().into(), 0, fs.iter().map(|(n, t)| mk(p, *t, i, &format!("{} {}", tag, n))).collect(), false);
                    }
                }
            }
            V::Sym(Sym::Named(format!("{} of type {}", tag, last(&path)).into(), vec![V::Int(i as i128, false)]))
        }
        Ty::Ptr(..) => ptr(i),
        Ty::Prim(s) if s == "usize" => ptr(i),
        Ty::Prim(s) if s == "bool" => V::Any,
        Ty::Prim(_) => V::Any,
        Ty::Proj(_, n, _) if n == "Bin" => bin(i),
        Ty::Proj(_, n, _) if n == "BCan" => can(i),
        Ty::Proj(_, n, _) if n == "CanWeak" => V::Sym(Sym::Weak(Id::W(i))),
        Ty::Proj(..) | Ty::Dyn(..) => bin(i),
        Ty::Param(_) => can(i),
        Ty::Tuple(l) => V::Tuple(l.iter().map(|t| mk(p, *t, i, tag)).collect()),
        _ => V::Any,
    }
}
/// An associated type, as an implementation in the crate defines it.
fn assoc(p: &Rc<Prog>, tr: &str, name: &str, args: &[u32]) -> Option<u32> {
    // (only of the crate's own types)
    if !matches!(p.ty(*args.first()?), Ty::Adt(q, _) if p.adt(&q).is_some()) { return None }
    p.c.impls.iter().find(|i| matches!(&i.trait_, Some((t, a)) if t == tr && a == args)).and_then(|i| i.assoc_tys.iter().find(|x| x.0 == name).map(|x| x.1))
}
fn text(tag: &str, i: u8) -> V {
    V::Sym(Sym::Named(tag.into(), vec![V::Int(i as i128, false)]))
}

#[derive(serde::Serialize, Default)]
pub struct Report {
    pub obligations: BTreeMap<String, u64>,
    pub findings: Vec<Find>,
    pub functions: BTreeSet<String>,
    pub unmodelled: BTreeMap<String, u64>,
    pub outcomes: u64,
    pub states: u64,
}

#[derive(serde::Serialize, Clone)]
pub struct Find {
    pub msg: String,
    pub loc: String,
    pub undecided: Option<String>,
}

pub struct Ck {
    pub p: Rc<Prog>,
    pub r: Report,
    pub debug: bool,
}

/// What a check says about an outcome.
pub type Verdict = Result<(), String>;

impl Ck {
    pub fn missing(&mut self, what: &str) {
        self.r.findings.push(Find { msg: format!("{} is not there", what), loc: String::new(), undecided: Some("not recognised".into()) });
    }
    pub fn outcomes(&mut self, f: &ir::Fn, args: Vec<V>, globals: Vec<V>, hook: Hook) -> Vec<Outc> {
        let Some(inst) = f.inst else { return vec![] };
        let w = Rc::new(SpecWorld { p: self.p.clone(), outs: Default::default(), hook });
        let mut m = M::new(self.p.clone(), w.clone(), &f.path);
        m.limit = 60_000;
        m.st.globals = globals;
        m.push_inst(inst, args);
        m.run();
        self.r.states += m.stats.states;
        self.r.functions.extend(m.stats.fns.iter().cloned());
        for (k, v) in &m.stats.unmodelled { *self.r.unmodelled.entry(k.clone()).or_insert(0) += v }
        for x in &m.findings {
            self.r.findings.push(Find { msg: x.msg.clone(), loc: f.path.clone(), undecided: Some(x.undecided.clone().unwrap_or("?".into())) });
        }
        let r: Vec<Outc> = w.outs.borrow().iter().cloned().collect();
        self.r.outcomes += r.len() as u64;
        if self.debug {
            println!("-- {}", f.path);
            for o in &r { println!("     {} {:?} | {}", o.show(), o.imprecise, o.globals.iter().map(show).collect::<Vec<_>>().join(" | ")) }
        }
        r
    }
    pub fn verdict(&mut self, f: &ir::Fn, what: &str, v: Verdict, imprecise: Option<&Sy>) {
        *self.r.obligations.entry(what.to_string()).or_insert(0) += 1;
        // (a call that is not understood may do anything)
        let v = match (v, imprecise) { (Ok(_), Some(i)) if i.starts_with("no model") => Err("a call is not understood".into()), (v, _) => v };
        if let Err(msg) = v {
            let x = Find { msg: format!("{}: {}", what, msg), loc: format!("{} ({}:{})", f.path, f.file, f.line), undecided: imprecise.map(|s| s.to_string()) };
            if !self.r.findings.iter().any(|y| y.msg == x.msg && y.loc == x.loc) { self.r.findings.push(x) }
        }
    }
    /// Judges every outcome.
    pub fn judge(&mut self, f: &ir::Fn, what: &str, outs: &[Outc], j: impl Fn(&Outc) -> Verdict) {
        if outs.is_empty() {
            self.verdict(f, what, Err("it never returns".into()), Some(&"no outcome".into()));
        }
        for o in outs {
            let v = j(o);
            // a lost value is no wrong one
            let mut lost = o.imprecise.clone();
            if let Some(r) = &o.ret { r.walk(&mut |x| if *x == V::Unk { lost = Some("lost value".into()) }) }
            self.verdict(f, what, v, lost.as_ref());
        }
    }
}

pub fn none() -> Hook {
    Box::new(|_, _, _| Ok(None))
}

/// The user's code of a builder.
fn user_builder(kind: &'static str) -> Hook {
    Box::new(move |m, c, a| {
        let tr = c.trait_.as_deref().unwrap_or("");
        if c.resolved || !matches!(last(tr), "Builder" | "SimpleBuilder") { return Ok(None) }
        let mut d = vec![];
        for x in a { d.push(m.deep(x, 6)?) }
        log(m, &format!("{} {}", last(tr), c.name), d);
        if m.choose(4) == 3 { return Ok(Some(Res::Panic(true, c.name.as_str().into()))) }
        if kind == "value" || c.name == "init_dyn_state" { return Ok(Some(Res::Ret(V::named(&format!("result of {}", c.name))))) }
        Ok(Some(Res::Ret(if m.flip() { V::ok(V::named("artifact")) } else { V::err(V::named("error")) })))
    })
}

/// The alias modules: the blanket implementations.
pub fn c20(ck: &mut Ck) {
    let p = ck.p.clone();
    let fns: Vec<ir::Fn> = p.find_fns(|f| f.inst.is_some() && matches!(&f.impl_trait, Some((t, _)) if last(t) == "Builder")
        && matches!(f.impl_self.map(|s| p.ty(s)), Some(Ty::Param(_)))).into_iter().cloned().collect();
    if fns.len() < 12 { ck.missing("one of the blanket implementations of Builder") }
    for f in &fns {
        let (tr, _) = f.impl_trait.clone().unwrap();
        // module's trait implemented for its simple builders, crate's one for the module's
        let simple = tr.contains("::") ;
        let kind = if simple { "value" } else { "result" };
        let boxk = match &*f.module { "rc" => BoxK::Rc, "arc" => BoxK::Arc, _ => BoxK::Box };
        let args = vec![V::RefVal(Box::new(V::named("builder"))), V::Ref(Place { root: Root::G(0), path: vec![] })];
        let what = format!("blanket impl of {} in {}: {}", tr, f.module, f.name);
        if f.name == "build" {
            let outs = ck.outcomes(f, args, vec![V::named("resolver")], user_builder(kind));
            let callee: Sy = format!("{} build", if simple { "SimpleBuilder" } else { "Builder" }).into();
            ck.judge(f, &what, &outs, |o| {
                if o.log != vec![(callee.clone(), vec![V::named("builder"), V::named("resolver")])] {
                    return Err(format!("the user's build method is not called exactly once with the given resolver: {}", o.show()));
                }
                match (&o.ret, &o.panic) {
                    (None, Some((true, _))) => Ok(()),
                    (Some(r), _) => {
                        let want = if simple { vec![V::ok(V::Box(boxk, Box::new(V::named("result of build"))))] } else { vec![V::ok(V::named("artifact")), V::err(V::named("error"))] };
                        if want.contains(r) { Ok(()) } else { Err(format!("the result is not that of the user's build method: {}", o.show())) }
                    }
                    _ => Err(format!("it panics: {}", o.show())),
                }
            });
            // the result follows from that of the user's method
            if !simple {
                let n = |i: u32| outs.iter().filter(|o| matches!(&o.ret, Some(V::Adt(_, j, _, _)) if *j == i)).count();
                ck.verdict(f, &what, if n(0) == 1 && n(1) == 1 { Ok(()) } else { Err("success and failure do not correspond to those of the user's method".into()) }, None);
            }
        } else if f.name == "init_dyn_state" {
            let outs = ck.outcomes(f, args, vec![V::named("resolver")], user_builder("result"));
            ck.judge(f, &what, &outs, |o| {
                if simple {
                    if o.ret == Some(V::unit()) && o.log.is_empty() { return Ok(()) }
                    return Err(o.show());
                }
                if o.log != vec![("Builder init_dyn_state".into(), vec![V::named("builder")])] { return Err(format!("the user's initializer is not called exactly once: {}", o.show())) }
                match (&o.ret, &o.panic) {
                    (None, Some((true, _))) => Ok(()),
                    (Some(r), _) if *r == V::named("result of init_dyn_state") => Ok(()),
                    _ => Err(format!("the state is not that of the user's initializer: {}", o.show())),
                }
            });
        }
    }
}

/// The resolver as given to a utility builder: global 1; its state: global 2.
fn resolver(never: bool) -> Hook {
    Box::new(move |m, c, a| {
        if !c.rpath.contains("Resolver") && !c.path.contains("Resolver") { return Ok(None) }
        let me = m.place_of(&a[0])?;
        if me != Some(Place { root: Root::G(1), path: vec![] }) { return Ok(None) }
        match c.name.as_str() {
            "my_state" => Ok(Some(Res::Ret(V::Ref(Place { root: Root::G(2), path: vec![] })))),
            n @ ("resolve" | "resolve_ref" | "resolve_cloned") => {
                let d = m.deep(&a[1], 6)?;
                log(m, n, vec![d.clone()]);
                let art = match n {
                    "resolve" => V::Sym(Sym::Named("bin".into(), vec![V::named("artifact")])),
                    "resolve_ref" => V::RefVal(Box::new(V::named("artifact"))),
                    _ => V::named("copy of the artifact"),
                };
                let bad = if never { 2 } else { 1 };
                Ok(Some(match m.choose(3) {
                    2 => Res::Panic(true, "resolve".into()),
                    1 if bad == 1 => Res::Ret(V::err(V::named("error"))),
                    _ => Res::Ret(V::ok(art)),
                }))
            }
            _ => Ok(None),
        }
    })
}

fn unphantom(v: &V) -> V {
    match v {
        V::Adt(p, i, f, t) => V::Adt(p.clone(), *i, f.iter().filter(|x| !matches!(x, V::Adt(p, ..) if &**p == "std::marker::PhantomData")).map(unphantom).collect(), *t),
        v => v.clone(),
    }
}

fn find_adt(v: &V, name: &str) -> Option<V> {
    let mut r = None;
    v.walk(&mut |x| if let V::Adt(p, ..) = x { if last(p) == name && r.is_none() { r = Some(x.clone()) } });
    r
}

/// The utility builders.
pub fn c19(ck: &mut Ck) {
    let p = ck.p.clone();
    let names = ["RedeemingBuilder", "FunctionalBuilder", "ConstBuilder", "ConfigurableBuilder", "ClonedBuilder", "ForwardingBuilder", "FeigningBuilder"];
    let arg = |i: usize| V::named(&format!("argument {}", i));
    for name in names {
        let of = |n: &str, tr: Option<&str>| -> Vec<ir::Fn> {
            p.find_fns(|f| f.name == n && f.inst.is_some() && f.impl_trait.as_ref().map(|t| last(&t.0).to_string()) == tr.map(|s| s.to_string())
                && f.impl_self.map(|s| find_ty(&p, s, name)).unwrap_or(false)).into_iter().cloned().collect()
        };
        let build = of("build", Some("Builder"));
        let init = of("init_dyn_state", Some("Builder"));
        let (Some(build), Some(init)) = (build.first().cloned(), init.first().cloned()) else { ck.missing(name); continue };
        // (constructor, arguments, initial state)
        let mut made: Vec<(ir::Fn, V)> = vec![];
        let mut ctors = vec![];
        ctors.extend(of("new", None));
        ctors.extend(of("with_state", None));
        ctors.extend(of("from", Some("From")));
        if ctors.is_empty() { ck.missing(&format!("constructor of {}", name)) }
        let bin_of = |v: V| V::Sym(Sym::Named("bin".into(), vec![v]));
        for c in &ctors {
            let variants: Vec<Vec<V>> = if name == "RedeemingBuilder" { vec![vec![arg(0), V::none(false)], vec![arg(0), V::some(arg(1), false)]] } else { vec![(0..c.sig_inputs.len()).map(arg).collect()] };
            for args in variants {
                let what = format!("{}::{}", name, c.name);
                let outs = ck.outcomes(c, args.clone(), vec![V::Undef; 3], none());
                let mut structs = vec![];
                ck.judge(c, &what, &outs, |o| match &o.ret {
                    Some(v) if find_adt(v, name).is_some() => Ok(()),
                    _ => Err(format!("no builder is made: {}", o.show())),
                });
                for o in &outs { if let Some(s) = o.ret.as_ref().and_then(|v| find_adt(v, name)) { structs.push(s) } }
                for s in structs {
                    made.push((c.clone(), s.clone()));
                    // initial state
                    let me = V::RefVal(Box::new(s.clone()));
                    let souts = ck.outcomes(&init, vec![me.clone()], vec![V::Undef; 3], none());
                    let want = match (name, c.name.as_str()) {
                        ("RedeemingBuilder", _) => args[1].clone(),
                        ("FunctionalBuilder", "with_state") | ("ConfigurableBuilder", _) => arg(0),
                        _ => V::unit(),
                    };
                    ck.judge(&init, &format!("initial state of {} from {}", name, c.name), &souts, |o| match &o.ret {
                        Some(v) if *v == want && o.log.is_empty() => Ok(()),
                        _ => Err(format!("{} instead of {}", o.show(), show(&want))),
                    });
                    // builds
                    let states: Vec<V> = match name {
                        "RedeemingBuilder" => vec![V::none(false), V::some(V::named("remembered"), false)],
                        "FunctionalBuilder" | "ConfigurableBuilder" => vec![V::named("state")],
                        _ => vec![V::unit()],
                    };
                    for st in states {
                        let g = |n: u32| V::Ref(Place { root: Root::G(n), path: vec![] });
                        let outs = ck.outcomes(&build, vec![g(0), g(1)], vec![s.clone(), V::named("resolver"), st.clone()], resolver(name == "FeigningBuilder"));
                        let cargs = args.clone();
                        let cname = c.name.clone();
                        let s0 = s.clone();
                        let closure = if cname == "with_state" { show(&arg(1)) } else { show(&arg(0)) };
                        ck.judge(&build, &format!("{} made by {}, built in state {}", name, cname, show(&st)), &outs, |o| {
                            if unphantom(&o.globals[0]) != unphantom(&s0) { return Err("the builder is changed".into()) }
                            let user_panic = matches!(o.panic, Some((true, _)));
                            let events: Vec<&str> = o.log.iter().map(|e| &*e.0).collect();
                            let state = &o.globals[2];
                            let res = o.ret.as_ref();
                            let bad = |s: &str| Err(format!("{}: {}", s, o.show()));
                            let once = |n: &str| o.log == vec![(n.into(), vec![arg(0)])];
                            match name {
                                "ConstBuilder" => {
                                    let want = if cname == "from" { bin_of(cargs[0].clone()) } else { cargs[0].clone() };
                                    if !events.is_empty() { return bad("something is run") }
                                    if res == Some(&V::ok(want)) { Ok(()) } else { bad("it does not yield its value") }
                                }
                                "ConfigurableBuilder" => {
                                    if !events.is_empty() { return bad("something is run") }
                                    if *state != st { return Err("the state is changed".into()) }
                                    if res == Some(&V::ok(bin_of(st.clone()))) { Ok(()) } else { bad("it does not yield its state") }
                                }
                                "FunctionalBuilder" => {
                                    let ev: Sy = format!("call {}", closure).into();
                                    if o.log != vec![(ev, vec![st.clone()])] { return bad("the closure is not called exactly once with the state") }
                                    if user_panic { return Ok(()) }
                                    if *state != V::Sym(Sym::Named("changed".into(), vec![st.clone()])) { return Err(format!("the state is {} afterwards", show(state))) }
                                    let (a, b) = (V::ok(V::named(&format!("result of {}", closure))), V::err(V::named(&format!("error of {}", closure))));
                                    if res == Some(&a) || res == Some(&b) { Ok(()) } else { bad("it does not yield what the closure returned") }
                                }
                                "ForwardingBuilder" | "FeigningBuilder" | "ClonedBuilder" => {
                                    let n = if name == "ClonedBuilder" { "resolve_cloned" } else { "resolve" };
                                    if !once(n) && !(name == "ClonedBuilder" && once("resolve_ref")) { return bad("the inner artifact is not resolved exactly once") }
                                    if user_panic { return Ok(()) }
                                    let a = if name == "ClonedBuilder" { if once(n) { bin_of(V::named("copy of the artifact")) } else { bin_of(V::named("artifact")) } } else { bin_of(V::named("artifact")) };
                                    if res == Some(&V::ok(a)) || res == Some(&V::err(V::named("error"))) { Ok(()) } else { bad("it does not yield the inner artifact or error") }
                                }
                                "RedeemingBuilder" => {
                                    if !once("resolve") { return bad("the inner artifact is not resolved exactly once") }
                                    if user_panic { return if *state == st { Ok(()) } else { Err("the remembered value is changed".into()) } }
                                    let inner = bin_of(V::named("artifact"));
                                    match res {
                                        Some(r) if *r == V::ok(inner.clone()) => if *state == V::some(inner, false) { Ok(()) } else { Err(format!("after a success {} is remembered", show(state))) },
                                        Some(r) if *r == V::ok(V::named("remembered")) && st.is_option() && st != V::none(false) => if *state == st { Ok(()) } else { Err(format!("after a failure {} is remembered", show(state))) },
                                        None if st == V::none(false) => if *state == st { Ok(()) } else { Err("the remembered value is changed".into()) },
                                        _ => bad("it yields something else"),
                                    }
                                }
                                _ => Ok(()),
                            }
                        });
                        // every outcome of the inner build leads to its own result
                        let n_ok = outs.iter().filter(|o| matches!(&o.ret, Some(V::Adt(_, 0, _, _)))).count();
                        let n_err = outs.iter().filter(|o| matches!(&o.ret, Some(V::Adt(_, 1, _, _)))).count();
                        let want = match name {
                            "FunctionalBuilder" | "ClonedBuilder" | "ForwardingBuilder" => (1, 1),
                            "RedeemingBuilder" if st != V::none(false) => (2, 0),
                            _ => (1, 0),
                        };
                        ck.verdict(&build, &format!("results of {}", name), if (n_ok, n_err) == want { Ok(()) } else { Err(format!("{} kinds of success and {} of failure instead of {:?}", n_ok, n_err, want)) },
                            outs.iter().find_map(|o| o.imprecise.as_ref()));
                    }
                }
            }
        }
        // copies
        for cl in of("clone", Some("Clone")) {
            for (_, s) in &made {
                let outs = ck.outcomes(&cl, vec![V::RefVal(Box::new(s.clone()))], vec![V::Undef; 3], none());
                ck.judge(&cl, &format!("{}::clone", name), &outs, |o| if o.ret.as_ref().map(unphantom) == Some(unphantom(s)) { Ok(()) } else { Err(format!("{} instead of {}", o.show(), show(s))) });
            }
        }
    }
    // infallible results
    let un: Vec<ir::Fn> = p.find_fns(|f| f.name == "unpack" && f.inst.is_some() && f.impl_trait.is_some()).into_iter().cloned().collect();
    if un.is_empty() { ck.missing("Unpacking::unpack") }
    for f in &un {
        let outs = ck.outcomes(f, vec![V::ok(arg(0))], vec![], none());
        ck.judge(f, "unpack", &outs, |o| if o.ret == Some(arg(0)) { Ok(()) } else { Err(o.show()) });
    }
}

/// Whether a type mentions the given struct.
fn find_ty(p: &Rc<Prog>, ty: u32, name: &str) -> bool {
    match p.ty(ty) {
        Ty::Adt(q, a) => last(&q) == name || a.iter().any(|t| find_ty(p, *t, name)),
        _ => false,
    }
}

// ---- identity ----

/// Compares a value with the expected one as far as identities are concerned.
fn same_ids(want: &V, got: &V) -> Verdict {
    let id = |v: &V| match v { V::Sym(Sym::Prom(i) | Sym::Builder(i) | Sym::Can(i) | Sym::Weak(i)) => Some(*i), _ => None };
    if let V::Sym(Sym::Ptr(..)) = want {
        return if want == got { Ok(()) } else { Err(format!("{} instead of the builder's address", show(got))) };
    }
    if let Some(i) = id(want) {
        // (a blueprint as the bin of itself)
        if matches!(got, V::Adt(..)) && has_id(got) {
            let mut ok = true;
            got.walk(&mut |x| if let Some(j) = id(x) { ok &= i == j });
            if ok { return Ok(()) }
        }
        return if id(got) == Some(i) { Ok(()) } else { Err(format!("{} instead of that builder", show(got))) };
    }
    match (want, got) {
        (V::Adt(p, i, f, _), V::Adt(q, j, g, _)) => {
            if p != q || i != j || f.len() != g.len() { return Err(format!("{} instead of {}", show(got), show(want))) }
            for (x, y) in f.iter().zip(g) { same_ids(x, y)? }
            Ok(())
        }
        (V::Tuple(f), V::Tuple(g)) => {
            if f.len() != g.len() { return Err(format!("{} instead of {}", show(got), show(want))) }
            for (x, y) in f.iter().zip(g) { same_ids(x, y)? }
            Ok(())
        }
        (V::RefVal(x), V::RefVal(y)) => same_ids(x, y),
        (V::RefVal(x), y) => same_ids(x, y),
        (x, V::RefVal(y)) => same_ids(x, y),
        (V::Adt(..), _) if has_id(want) => Err(format!("{} instead of {}", show(got), show(want))),
        _ => Ok(()),
    }
}
fn has_id(v: &V) -> bool {
    let mut b = false;
    v.walk(&mut |x| if let V::Sym(Sym::Prom(_) | Sym::Builder(_) | Sym::Can(_) | Sym::Weak(_) | Sym::Ptr(..)) = x { b = true });
    b
}
fn g(n: u32) -> V {
    V::Ref(Place { root: Root::G(n), path: vec![] })
}
/// As `deep`, but pointers to places that are no builder stay what they are.
fn shallow(v: &V, globals: &[V]) -> V {
    match v {
        V::RefVal(x) => shallow(x, globals),
        V::Ref(Place { root: Root::G(n), path }) => {
            let mut x = globals.get(*n as usize).cloned().unwrap_or(V::Unk);
            for s in path {
                x = match (s, x) {
                    (Step::F(i), V::Adt(_, _, f, _) | V::Tuple(f)) => f.get(*i as usize).cloned().unwrap_or(V::Unk),
                    (Step::B | Step::A, V::Box(_, b) | V::Dyn(_, b)) => *b,
                    (_, x) => x,
                };
            }
            shallow(&x, globals)
        }
        V::Adt(p, i, f, t) => V::Adt(p.clone(), *i, f.iter().map(|x| shallow(x, globals)).collect(), *t),
        V::Tuple(f) => V::Tuple(f.iter().map(|x| shallow(x, globals)).collect()),
        v => v.clone(),
    }
}

pub fn c13(ck: &mut Ck) {
    identities(ck, false);
    containers(ck, "C13");
}

fn identities(ck: &mut Ck, handles: bool) {
    let p = ck.p.clone();
    // the types that have a builder's (or artifact's) identity
    let adt_of = |f: &ir::Fn| -> Option<String> { match p.ty(f.impl_self?) { Ty::Adt(q, _) if p.adt(&q).is_some() => Some(q), _ => None } };
    let mut types: BTreeSet<String> = BTreeSet::new();
    for f in &p.c.fns {
        let Some((tr, _)) = &f.impl_trait else { continue };
        if !matches!(last(tr), "PartialEq" | "Promise" | "Hash" | "CanBase") { continue }
        let Some(q) = adt_of(f) else { continue };
        if p.adt(&q).map(|a| a.variants.len() != 1).unwrap_or(true) { continue }
        if has_id(&mk(&p, f.impl_self.unwrap(), 0, "")) { types.insert(q); }
    }
    if handles { types.retain(|q| matches!(last(q), "BuilderHandle" | "ArtifactHandle" | "BuilderArtifact")) }
    for t in if handles { ["BuilderHandle", "ArtifactHandle"].iter() } else { ["Blueprint", "BlueprintDyn", "BuilderId", "BuilderEntry"].iter() } {
        if !types.iter().any(|q| last(q) == *t) { ck.missing(t) }
    }
    let fns: Vec<ir::Fn> = p.c.fns.iter().filter(|f| f.inst.is_some()).cloned().collect();
    for f in &fns {
        let selfs = adt_of(f);
        let in_types = selfs.as_ref().map(|q| types.contains(q)).unwrap_or(false);
        if !in_types {
            // conversions of such types into others
            let mentions = f.impl_self.is_some() && f.impl_trait.as_ref().map(|t| matches!(last(&t.0), "From" | "Into")).unwrap_or(false) && types.iter().any(|t| f.sig_output.map(|o| find_ty(&p, o, last(t))).unwrap_or(false));
            if mentions { convert(ck, f) }
            continue;
        }
        let tr = f.impl_trait.as_ref().map(|t| last(&t.0).to_string()).unwrap_or_default();
        let me = f.impl_self.unwrap();
        let what = format!("identity: {}", f.path);
        match (tr.as_str(), f.name.as_str()) {
            ("PartialEq", n @ ("eq" | "ne")) => {
                for (i, j) in [(0, 0), (0, 1), (1, 0)] {
                    let gl = vec![mk(&p, me, i, "left"), mk(&p, me, j, "right")];
                    let outs = ck.outcomes(f, vec![g(0), g(1)], gl, none());
                    let want = V::b((i == j) == (n == "eq"));
                    ck.judge(f, &what, &outs, |o| if o.ret.as_ref() == Some(&want) { Ok(()) } else {
                        Err(format!("{} for {} builders", o.show(), if i == j { "equal" } else { "different" }))
                    });
                }
            }
            ("Hash", "hash") => {
                let outs = ck.outcomes(f, vec![g(0), g(1)], vec![mk(&p, me, 0, "left"), V::named("hasher")], none());
                ck.judge(f, &what, &outs, |o| {
                    let mut found = false;
                    let mut bad = None;
                    for e in o.log_of("hash") {
                        for v in e {
                            v.walk(&mut |x| match x {
                                V::Sym(Sym::Ptr(Id::W(0), _)) => found = true,
                                V::Adt(..) | V::Tuple(_) | V::Int(..) | V::Str(_) => {}
                                x if of_address(x) => {}
                                x => bad = Some(show(x)),
                            })
                        }
                    }
                    if let Some(b) = bad { return Err(format!("{} is hashed", b)) }
                    if found { Ok(()) } else { Err("the identity is not hashed".into()) }
                });
            }
            ("PartialOrd" | "Ord", n @ ("cmp" | "partial_cmp")) => {
                // equal exactly for the same builder
                for (i, j) in [(0, 0), (0, 1), (1, 0)] {
                    let gl = vec![mk(&p, me, i, "left"), mk(&p, me, j, "right")];
                    let outs = ck.outcomes(f, vec![g(0), g(1)], gl, none());
                    ck.judge(f, &what, &outs, |o| {
                        let ord = match (&o.ret, n) { (Some(V::Adt(q, 1, l, _)), "partial_cmp") if q.ends_with("Option") => l.first().cloned(), (r, "cmp") => r.clone(), _ => None };
                        let equal = match ord { Some(V::Adt(q, v, ..)) if q.ends_with("Ordering") => v == 1, _ => return Err(o.show()) };
                        if equal == (i == j) { Ok(()) } else { Err(format!("{} for {} builders", o.show(), if i == j { "equal" } else { "different" })) }
                    });
                }
            }
            ("Debug" | "Display" | "Drop" | "PartialOrd" | "Ord" | "Eq" | "Doctor" | "Default", _) => {}
            ("Pointer", _) => {
                // shows the address
                let outs = ck.outcomes(f, vec![g(0), g(1)], vec![mk(&p, me, 0, "left"), V::named("formatter")], none());
                ck.judge(f, &what, &outs, |o| {
                    let mut other = None;
                    for (_, e) in &o.log { for v in e { v.walk(&mut |x| match x {
                        V::Sym(Sym::Ptr(i, _)) if *i != Id::W(0) => other = Some(show(x)),
                        V::Sym(Sym::Named(n, _)) if &**n == crate::models::WIDE => other = Some(n.to_string()),
                        _ => {}
                    }) } }
                    match other { Some(x) => Err(format!("{} is shown", x)), None => Ok(()) }
                });
            }
            _ if handles && tr != "CanBase" => {}
            _ => convert(ck, f),
        }
    }
}

/// All that a function returns belongs to the builder that its arguments belong to.
fn convert(ck: &mut Ck, f: &ir::Fn) {
    let p = ck.p.clone();
    let Some(out) = f.sig_output else { return };
    let want = mk(&p, out, 0, "");
    if !has_id(&want) && !matches!(p.ty(out), Ty::Adt(ref q, _) if q.ends_with("Option")) { return }
    let mut globals = vec![];
    let mut args = vec![];
    for t in &f.sig_inputs {
        let (inner, by_ref) = match p.ty(*t) { Ty::Ref(_, x) => (x, true), _ => (*t, false) };
        let v = match p.ty(inner) {
            Ty::Param(_) => raw(0),
            _ => mk(&p, inner, 0, "argument"),
        };
        if by_ref {
            globals.push(v);
            args.push(g(globals.len() as u32 - 1));
        } else { args.push(v) }
    }
    let outs = ck.outcomes(f, args, globals.clone(), none());
    let what = format!("identity: {}", f.path);
    ck.judge(f, &what, &outs, |o| {
        let Some(r) = &o.ret else { return Err(o.show()) };
        let r = shallow(r, &globals);
        match &r {
            V::Adt(q, 1, l, _) if q.ends_with("Option") => {
                let mut bad = None;
                l[0].walk(&mut |x| if let V::Sym(Sym::Prom(i) | Sym::Builder(i) | Sym::Can(i) | Sym::Weak(i) | Sym::Ptr(i, _)) = x { if *i != Id::W(0) { bad = Some(show(x)) } });
                match bad { Some(b) => Err(b), None => Ok(()) }
            }
            V::Adt(q, 0, ..) if q.ends_with("Option") => Ok(()),
            r => same_ids(&want, r).map_err(|e| format!("{} in {}", e, show(r))),
        }
    });
}

/// The provided containers.
fn containers(ck: &mut Ck, prop: &str) {
    let p = ck.p.clone();
    let fns: Vec<ir::Fn> = p.find_fns(|f| f.inst.is_some() && f.module.ends_with("canning") && matches!(&f.impl_trait, Some((t, _)) if last(t).starts_with("Can"))).into_iter().cloned().collect();
    let content = V::named("content");
    let mut n = 0;
    for f in &fns {
        let Some(Ty::Adt(path, _)) = f.impl_self.map(|s| p.ty(s)) else { continue };
        if p.adt(&path).is_some() { continue }
        let k = match last(&path) { "Rc" => BoxK::Rc, "Arc" => BoxK::Arc, "Box" => BoxK::Box, _ => continue };
        n += 1;
        let (tr, targs) = f.impl_trait.clone().unwrap();
        // the type of the contents: parameter of the trait
        let cty = match last(&tr) {
            "CanBuilder" => *targs.last().unwrap(),
            "CanUnsized" => targs[targs.len() - 2],
            _ => targs.last().copied().unwrap_or(0),
        };
        let other = p.mk_ty(Ty::Param("SomeOtherType".into()));
        let dynb = |t: u32| V::Box(k, Box::new(V::Dyn(t, Box::new(content.clone()))));
        let sized = V::Box(k, Box::new(content.clone()));
        let is = |v: &V| match v { V::Box(j, b) => *j == k && match &**b { V::Dyn(_, c) => **c == content, c => *c == content }, _ => false };
        let inside = |v: &V| match v { V::Ref(Place { root: Root::G(0), path }) => path.contains(&Step::B), V::RefVal(v) => **v == content, _ => false };
        let what = format!("container {}: {}", last(&path), f.name);
        let id = prop == "C13";
        match f.name.as_str() {
            "can_as_ptr" if id => {
                let outs = ck.outcomes(f, vec![g(0)], vec![dynb(cty)], none());
                ck.judge(f, &what, &outs, |o| if o.ret.as_ref().map(inside).unwrap_or(false) { Ok(()) } else { Err(format!("{} is no address of the contents", o.show())) });
            }
            "bin_as_ptr" if id => {
                let outs = ck.outcomes(f, vec![g(0)], vec![sized.clone()], none());
                ck.judge(f, &what, &outs, |o| if o.ret.as_ref().map(inside).unwrap_or(false) { Ok(()) } else { Err(format!("{} is no address of the contents", o.show())) });
            }
            "into_unsized" | "from_bin" => {
                let outs = ck.outcomes(f, vec![sized.clone()], vec![], none());
                ck.judge(f, &what, &outs, |o| if o.ret.as_ref().map(is).unwrap_or(false) { Ok(()) } else { Err(format!("{} is not the same container", o.show())) });
            }
            "into_bin" => {
                let outs = ck.outcomes(f, vec![content.clone()], vec![], none());
                ck.judge(f, &what, &outs, |o| if o.ret.as_ref().map(is).unwrap_or(false) { Ok(()) } else { Err(format!("{} does not contain the given value", o.show())) });
            }
            "can_unsized" if id => {
                let outs = ck.outcomes(f, vec![sized.clone()], vec![], none());
                ck.judge(f, &what, &outs, |o| match &o.ret { Some(V::Tuple(l)) if l.iter().all(is) => Ok(()), _ => Err(format!("{} are not the same container", o.show())) });
            }
            "downgrade" if id => {
                let outs = ck.outcomes(f, vec![g(0)], vec![dynb(cty)], none());
                ck.judge(f, &what, &outs, |o| match &o.ret { Some(V::Box(BoxK::Weak, b)) if matches!(&**b, V::Dyn(_, c) if **c == content) => Ok(()), _ => Err(format!("{} is no weak reference to the contents", o.show())) });
            }
            "upgrade_from_weak" if id => {
                let weak = V::Box(BoxK::Weak, Box::new(V::Dyn(cty, Box::new(content.clone()))));
                let outs = ck.outcomes(f, vec![g(0)], vec![weak], none());
                ck.judge(f, &what, &outs, |o| match &o.ret {
                    Some(V::Adt(_, 0, _, _)) => Ok(()),
                    Some(V::Adt(_, 1, l, _)) if is(&l[0]) => Ok(()),
                    _ => Err(format!("{} is no reference to the contents", o.show())),
                });
                ck.verdict(f, &what, if outs.len() == 2 { Ok(()) } else { Err("it does not depend on whether the contents are alive".into()) }, None);
            }
            "downcast_can" | "downcast_can_ref" | "downcast_can_mut" => {
                for (t, want) in [(cty, true), (other, false)] {
                    let byref = f.name != "downcast_can";
                    let outs = ck.outcomes(f, vec![if byref { g(0) } else { dynb(t) }], vec![dynb(t)], none());
                    ck.judge(f, &what, &outs, |o| match &o.ret {
                        Some(V::Adt(_, 0, _, _)) if !want => Ok(()),
                        Some(V::Adt(_, 1, l, _)) if want && (if byref { inside(&l[0]) } else { is(&l[0]) }) => Ok(()),
                        _ => Err(format!("{} for contents of {} type", o.show(), if want { "that" } else { "another" })),
                    });
                }
            }
            _ => {}
        }
    }
    if n < 18 { ck.missing("one of the implementations of the Can traits") }
}

/// The containers read back what was stored.
pub fn c15(ck: &mut Ck) {
    containers(ck, "C15");
}

// ---- reports ----

/// State of a report writer: options given by the bits, counters and output by name.
fn mk_doc(p: &Rc<Prog>, ty: u32, bits: u32, n: &mut u32, ints: &mut u32, extra: &mut bool, opts: &mut Vec<(String, bool)>, name: &str) -> V {
    match p.ty(ty) {
        Ty::Adt(path, args) => {
            if path.ends_with("option::Option") {
                return match p.ty(args[0]) {
                    Ty::Param(_) => V::some(V::named("output"), false),
                    Ty::Tuple(_) => {
                        let b = bits >> *n & 1 == 1;
                        *n += 1;
                        if b { V::some(V::Tuple(vec![V::named("m"), V::named("n")]), false) } else { V::none(false) }
                    }
                    _ => { *extra = true; V::Any }
                };
            }
            if path == "std::marker::PhantomData" { return V::Adt(path.as_str().into(), 0, vec![], false) }
            match p.adt(&path).filter(|a| a.variants.len() == 1).and_then(|_| p.fields(&path, &args, 0)) {
                Some(fs) => V::Adt(path.as_str().into(), 0, fs.iter().map(|(m, t)| mk_doc(p, *t, bits, n, ints, extra, opts, m)).collect(), false),
                None => { *extra = true; V::Any }
            }
        }
        Ty::Tuple(l) => V::Tuple(l.iter().map(|t| mk_doc(p, *t, bits, n, ints, extra, opts, name)).collect()),
        Ty::Array(t, _) => V::Arr((0..2).map(|_| mk_doc(p, t, bits, n, ints, extra, opts, name)).collect()),
        Ty::Param(_) => V::named("output"),
        Ty::Prim(s) if s == "bool" && name.starts_with("show_") => {
            let b = bits >> *n & 1 == 1;
            *n += 1;
            opts.push((name.to_string(), b));
            V::b(b)
        }
        Ty::Prim(s) if s.starts_with('u') || s.starts_with('i') => {
            *ints += 1;
            V::Lin(format!("counter {}", *ints - 1).as_str().into(), 0)
        }
        _ => { *extra = true; V::Any }
    }
}

/// Calls on the output.
fn output() -> Hook {
    Box::new(|m, c, a| {
        let tr = last(c.trait_.as_deref().unwrap_or("")).to_string();
        if tr != "Write" || a.is_empty() { return Ok(None) }
        if m.deep(&a[0], 6)? != V::named("output") { return Ok(None) }
        match c.name.as_str() {
            "write_fmt" | "write_all" | "write_str" => {
                let t = crate::models::text_of(m, &a[1])?;
                if !matches!(t, V::Text(_)) { m.imprecise("text") }
                log(m, "write", vec![t]);
                Ok(Some(Res::Ret(V::ok(V::unit()))))
            }
            "flush" => Ok(Some(Res::Ret(V::ok(V::unit())))),
            "by_ref" => Ok(Some(Res::Ret(a[0].clone()))),
            "write" => {
                log(m, "write some of", vec![]);
                Ok(Some(Res::Ret(V::ok(V::Any))))
            }
            _ => Ok(None),
        }
    })
}

fn written(o: &Outc) -> Result<Vec<Piece>, String> {
    let mut r = vec![];
    for (n, a) in &o.log {
        match (&**n, a.first()) {
            ("write", Some(V::Text(l))) => r.extend(l.iter().cloned()),
            ("write", _) => return Err("unknown text".into()),
            ("write some of", _) => return Err("a write that may be incomplete is not completed".into()),
            _ => {}
        }
    }
    Ok(r)
}

#[derive(Clone, Debug, PartialEq)]
enum It {
    Num(V),
    Addr(Id),
    /// Which text of which handle
    Txt(String, u8),
    Other(String),
}

fn items(l: &[Piece]) -> Vec<It> {
    let mut r = vec![];
    fn val(v: &V, r: &mut Vec<It>) {
        match v {
            V::Lin(..) | V::Int(..) => r.push(It::Num(v.clone())),
            V::Sym(Sym::Ptr(i, _)) => r.push(It::Addr(*i)),
            V::Sym(Sym::Named(n, a)) => {
                if let Some(V::Int(i, _)) = a.first() {
                    if let Some(x) = n.strip_prefix("handle ") { r.push(It::Txt(x.to_string(), *i as u8)); return }
                }
                if a.is_empty() || &**n == crate::models::WIDE { r.push(It::Other(n.to_string())) }
                for x in a { val(x, r) }
            }
            V::Text(l) => for p in l { if let Piece::Hole(v, _, _) = p { val(v, r) } },
            V::Adt(_, _, f, _) | V::Tuple(f) => for x in f { val(x, r) },
            V::RefVal(x) | V::Box(_, x) => val(x, r),
            V::Str(_) => {}
            v => r.push(It::Other(show(v))),
        }
    }
    for p in l { if let Piece::Hole(v, _, _) = p { val(v, &mut r) } }
    r
}

struct Doc {
    fns: BTreeMap<String, ir::Fn>,
    me: u32,
    name: String,
}

fn doc_fns(ck: &mut Ck, name: &str) -> Option<Doc> {
    let p = ck.p.clone();
    let mut fns = BTreeMap::new();
    let mut me = None;
    for f in &p.c.fns {
        let Some(s) = f.impl_self else { continue };
        if f.inst.is_none() || !matches!(p.ty(s), Ty::Adt(ref q, _) if last(q) == name) { continue }
        let tr = f.impl_trait.as_ref().map(|t| last(&t.0).to_string()).unwrap_or_default();
        let key = match (tr.as_str(), f.name.as_str()) {
            ("Doctor", n) => n.to_string(),
            ("Drop", _) => "drop".into(),
            ("", "new") if f.exported => "new".into(),
            ("", "into_inner") if f.exported => "into_inner".into(),
            _ => continue,
        };
        if key == "resolve" { me = Some(s) }
        fns.insert(key, f.clone());
    }
    for n in ["resolve", "build", "clear", "invalidate", "new", "into_inner"] {
        if !fns.contains_key(n) {
            // (the default does nothing)
            if matches!(n, "clear" | "invalidate") {
                let x = Find { msg: format!("{} ignores {}", name, n), loc: name.to_string(), undecided: None };
                ck.r.findings.push(x);
            } else { ck.missing(&format!("{}::{}", name, n)) }
        }
    }
    if !fns.contains_key("resolve") || !fns.contains_key("build") { return None }
    Some(Doc { fns, me: me?, name: name.into() })
}

fn counters(v: &V) -> Vec<V> {
    let mut r = vec![];
    fn go(v: &V, r: &mut Vec<V>) {
        match v {
            V::Lin(..) | V::Int(..) | V::Any | V::Unk | V::Pos(_) => r.push(v.clone()),
            V::Adt(p, _, f, _) if !p.ends_with("Options") && !p.ends_with("Option") => f.iter().for_each(|x| go(x, r)),
            V::Tuple(f) | V::Arr(f) => f.iter().for_each(|x| go(x, r)),
            _ => {}
        }
    }
    go(v, &mut r);
    r
}

/// Runs the events of a report writer in every configuration; the common rules of numbering.
/// `ev` judges what is written in an event: options, (generation, position) and the outcome.
fn reports(ck: &mut Ck, d: &Doc, ev: &dyn Fn(&str, &dyn Fn(&str) -> bool, &V, &V, &Outc) -> Verdict) {
    let p = ck.p.clone();
    let lin = |i: usize, o: i128| V::Lin(format!("counter {}", i).as_str().into(), o);
    // a new one starts at zero
    if let Some(f) = d.fns.get("new") {
        let args: Vec<V> = f.sig_inputs.iter().map(|t| match p.ty(*t) { Ty::Param(_) => V::named("output"), _ => mk_doc(&p, *t, 0, &mut 0, &mut 0, &mut false, &mut vec![], "") }).collect();
        let outs = ck.outcomes(f, args, vec![V::Undef; 4], output());
        ck.judge(f, &format!("{}: numbers start at zero", d.name), &outs, |o| match &o.ret {
            Some(v) if counters(v).len() >= 2 && counters(v).iter().all(|x| *x == V::Int(0, false)) => Ok(()),
            _ => Err(o.show()),
        });
    }
    let mut nopts = 0;
    let mut extra = false;
    mk_doc(&p, d.me, 0, &mut nopts, &mut 0, &mut extra, &mut vec![], "");
    // which of the counters is the generation?
    let mut roles: Option<(usize, usize)> = None;
    for n in ["invalidate", "clear", "build", "resolve"] {
        let Some(f) = d.fns.get(n).cloned() else { continue };
        for bits in 0..1u32 << nopts.min(6) {
            let mut opts = vec![];
            let mut ints = 0;
            let me = mk_doc(&p, d.me, bits, &mut 0, &mut ints, &mut false, &mut opts, "");
            if ints != 2 {
                ck.r.findings.push(Find { msg: format!("{} has {} counters", d.name, ints), loc: f.path.clone(), undecided: Some("state not recognised".into()) });
                return;
            }
            let mut globals = vec![me.clone()];
            let mut args = vec![g(0)];
            for (i, t) in f.sig_inputs.iter().skip(1).enumerate() {
                let (inner, _) = match p.ty(*t) { Ty::Ref(_, x) => (x, true), _ => (*t, false) };
                let art = matches!(p.ty(inner), Ty::Adt(ref q, _) if last(q) == "ArtifactHandle");
                let idx = if art { 2 } else { i as u8 };
                globals.push(mk(&p, inner, idx, "handle"));
                args.push(g(i as u32 + 1));
            }
            let outs = ck.outcomes(&f, args, globals, output());
            let what = format!("{}: {} with {}", d.name, n, opts.iter().filter(|o| o.1).map(|o| o.0.clone()).collect::<Vec<_>>().join(", "));
            if roles.is_none() {
                for o in &outs {
                    let c = counters(&o.globals[0]);
                    for i in 0..2 { if c.len() == 2 && c[i] == lin(i, 1) { roles = Some((i, 1 - i)) } }
                }
                if roles.is_none() {
                    ck.verdict(&f, &what, Err("no counter is incremented".into()), outs.iter().find_map(|o| o.imprecise.as_ref()));
                    return;
                }
            }
            let (gi, pi) = roles.unwrap();
            let unknown: Sy = "additional state".into();
            let optv: BTreeMap<String, bool> = opts.into_iter().collect();
            for o in &outs {
                let v = (|| {
                    if o.ret.is_none() { return Err(format!("it panics: {}", o.show())) }
                    let c = counters(&o.globals[0]);
                    if c.len() != 2 { return Err("the counters are lost".into()) }
                    let (wg, wp) = match n { "resolve" => (lin(gi, 0), lin(pi, 0)), "build" => (lin(gi, 0), lin(pi, 1)), _ => (lin(gi, 1), V::Int(0, false)) };
                    if c[gi] != wg { return Err(format!("the generation is {} afterwards instead of {}", show(&c[gi]), show(&wg))) }
                    if c[pi] != wp { return Err(format!("the position is {} afterwards instead of {}", show(&c[pi]), show(&wp))) }
                    ev(n, &|x| optv.get(x).copied().unwrap_or(false), &lin(gi, 0), &lin(pi, 0), o)
                })();
                let imp = if extra { Some(o.imprecise.clone().unwrap_or(unknown.clone())) } else { o.imprecise.clone() };
                ck.verdict(&f, &what, v, imp.as_ref());
            }
            if outs.is_empty() { ck.verdict(&f, &what, Err("it never returns".into()), Some(&unknown)) }
        }
    }
}

/// Text of a builder or artifact as the options demand.
fn want_txt(dbg: bool, i: u8) -> It {
    It::Txt(if dbg { "dbg_text".into() } else { "type_name".into() }, i)
}

pub fn c17(ck: &mut Ck) {
    let Some(d) = doc_fns(ck, "TextualDoc") else { ck.missing("TextualDoc"); return };
    reports(ck, &d, &|n, opt, gen, pos, o| {
        let w = written(o)?;
        let mut nl = 0;
        for (i, p) in w.iter().enumerate() {
            if let Piece::Lit(s) = p {
                nl += s.matches('\n').count();
                if s.contains('\n') && !(i + 1 == w.len() && s.find('\n') == Some(s.len() - 1)) { return Err(format!("the record is not one line: {}", show(&V::Text(w.clone())))) }
            }
        }
        if nl != 1 { return Err(format!("the record is not terminated by a line break: {}", show(&V::Text(w.clone())))) }
        let it = items(&w);
        let txt: Vec<It> = it.iter().filter(|x| matches!(x, It::Txt(..))).cloned().collect();
        let num: Vec<It> = it.iter().filter(|x| matches!(x, It::Num(_))).cloned().collect();
        let adr: Vec<It> = it.iter().filter(|x| matches!(x, It::Addr(_))).cloned().collect();
        let (b, a, ad) = (opt("show_builder_values"), opt("show_artifact_values"), opt("show_addresses"));
        let (wt, wn, wa): (Vec<It>, Vec<It>, Vec<u8>) = match n {
            "resolve" => (vec![want_txt(b, 0), want_txt(b, 1)], vec![], vec![0, 1]),
            "build" => (vec![want_txt(b, 0), want_txt(a, 2)], vec![It::Num(gen.clone()), It::Num(pos.clone())], vec![0, 2]),
            "invalidate" => (vec![want_txt(b, 0)], vec![It::Num(gen.clone())], vec![0]),
            _ => (vec![], vec![It::Num(gen.clone())], vec![]),
        };
        let wa: Vec<It> = if ad { wa.into_iter().map(|i| It::Addr(Id::W(i))).collect() } else { vec![] };
        let text = show(&V::Text(w.clone()));
        if txt != wt { return Err(format!("the record names {:?} instead of {:?}: {}", txt, wt, text)) }
        if num != wn { return Err(format!("the record has numbers {:?} instead of {:?}: {}", num, wn, text)) }
        if adr != wa { return Err(format!("the record has addresses {:?} instead of {:?}: {}", adr, wa, text)) }
        Ok(())
    });
    hand_back(ck, &d, false);
}

fn hand_back(ck: &mut Ck, d: &Doc, closes: bool) {
    let p = ck.p.clone();
    let me = mk_doc(&p, d.me, 0, &mut 0, &mut 0, &mut false, &mut vec![], "");
    let closing = |o: &Outc, n: usize| -> Verdict {
        let w = written(o)?;
        let t = show(&V::Text(w));
        if t.trim() == "}".repeat(n) && (n == 0 || !t.is_empty()) { Ok(()) } else { Err(format!("{:?} is written when it ends", t)) }
    };
    if let Some(f) = d.fns.get("into_inner").cloned() {
        let outs = ck.outcomes(&f, vec![me.clone()], vec![], output());
        ck.judge(&f, &format!("{}: output handed back", d.name), &outs, |o| {
            if o.ret != Some(V::named("output")) { return Err(o.show()) }
            closing(o, closes as usize)
        });
    }
    match d.fns.get("drop").cloned() {
        Some(f) => {
            let outs = ck.outcomes(&f, vec![g(0)], vec![me.clone()], output());
            ck.judge(&f, &format!("{}: dropped", d.name), &outs, |o| if o.ret.is_none() { Err(o.show()) } else { closing(o, closes as usize) });
        }
        None if closes => {
            let f = d.fns["resolve"].clone();
            ck.verdict(&f, &format!("{}: dropped", d.name), Err("nothing is written when it is dropped".into()), None);
        }
        None => {}
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    /// Quoted text
    Q(Vec<Piece>),
    Word(String),
    Sym(char),
    End,
}

/// Splits Dot text into tokens; Err if some text is not quoted and escaped.
fn dot(l: &[Piece]) -> Result<Vec<Tok>, String> {
    let mut r: Vec<Tok> = vec![];
    let mut q: Option<Vec<Piece>> = None;
    let mut lit = String::new();
    let mut word = String::new();
    let mut esc = false;
    for p in l {
        match p {
            Piece::Lit(s) => for c in s.chars() {
                if q.is_some() {
                    if esc { lit.push(c); esc = false; continue }
                    match c {
                        '\\' => { lit.push(c); esc = true }
                        '"' => {
                            let mut x = q.take().unwrap();
                            if !lit.is_empty() { x.push(Piece::Lit(std::mem::take(&mut lit).as_str().into())) }
                            r.push(Tok::Q(x));
                        }
                        c => lit.push(c),
                    }
                    continue;
                }
                if c.is_alphanumeric() || c == '_' || c == '.' { word.push(c); continue }
                if !word.is_empty() { r.push(Tok::Word(std::mem::take(&mut word))) }
                match c {
                    '"' => q = Some(vec![]),
                    '\n' | ';' => r.push(Tok::End),
                    c if c.is_whitespace() => {}
                    c => r.push(Tok::Sym(c)),
                }
            },
            Piece::Hole(v, k, rep) => {
                if esc { return Err(format!("{} follows a backslash", show(v))) }
                let num = matches!(**v, V::Lin(..) | V::Int(..));
                match &mut q {
                    Some(x) => {
                        let escaped = {
                            let b = rep.iter().position(|e| &*e.0 == "\\" && &*e.1 == "\\\\");
                            let d = rep.iter().position(|e| &*e.0 == "\"" && &*e.1 == "\\\"");
                            matches!((b, d), (Some(b), Some(d)) if b < d) && rep.iter().filter(|e| &*e.0 == "\\").count() == 1
                        };
                        let wide = matches!(&**v, V::Sym(Sym::Named(n, _)) if &**n == crate::models::WIDE);
                        let ok = num || k.starts_with("Pointer") && !wide || (&**k == "Display" && escaped);
                        if !ok { return Err(format!("{} is not escaped within quotes", show(v))) }
                        if !lit.is_empty() { x.push(Piece::Lit(std::mem::take(&mut lit).as_str().into())) }
                        x.push(p.clone());
                    }
                    None => {
                        if !word.is_empty() { r.push(Tok::Word(std::mem::take(&mut word))) }
                        if num { r.push(Tok::Word("0".into())); continue }
                        let stringy = matches!(&**v, V::Sym(Sym::Named(..)) | V::Text(_) | V::Str(_));
                        if k.starts_with("Debug") && stringy && rep.is_empty() { r.push(Tok::Q(vec![p.clone()])) }
                        else { return Err(format!("{} is not quoted", show(v))) }
                    }
                }
            }
        }
    }
    if q.is_some() { return Err("a quote is not closed".into()) }
    if !word.is_empty() { r.push(Tok::Word(word)) }
    Ok(r)
}

struct Stmt {
    name: Vec<Piece>,
    to: Option<Vec<Piece>>,
    label: Vec<Piece>,
}

fn stmts(l: &[Piece]) -> Result<Vec<Stmt>, String> {
    let toks = dot(l)?;
    let mut r = vec![];
    let mut cur: Vec<Tok> = vec![];
    let mut depth = 0;
    let name = |t: &Tok| match t { Tok::Q(x) => Some(x.clone()), Tok::Word(w) => Some(vec![Piece::Lit(w.as_str().into())]), _ => None };
    let mut flush = |cur: &mut Vec<Tok>| -> Verdict {
        let c = std::mem::take(cur);
        if c.is_empty() { return Ok(()) }
        let Some(n) = name(&c[0]) else { return Err(format!("a statement begins with {:?}", c[0])) };
        let mut i = 1;
        let mut to = None;
        if c.get(1) == Some(&Tok::Sym('-')) {
            if c.get(2) != Some(&Tok::Sym('>')) { return Err("an edge is not directed".into()) }
            to = c.get(3).and_then(name);
            if to.is_none() { return Err("an edge has no end".into()) }
            i = 4;
        }
        let mut label = vec![];
        if i < c.len() && c[i] != Tok::Sym('[') { return Err(format!("{:?} follows a name", c[i])) }
        let mut j = i;
        while j + 2 < c.len() {
            if c[j] == Tok::Word("label".into()) && c[j + 1] == Tok::Sym('=') { if let Tok::Q(x) = &c[j + 2] { label = x.clone() } }
            j += 1;
        }
        r.push(Stmt { name: n, to, label });
        Ok(())
    };
    for t in toks {
        match t {
            Tok::Sym('{') | Tok::Sym('}') => return Err("a brace is written in between".into()),
            Tok::Sym('[') => { depth += 1; cur.push(t) }
            Tok::Sym(']') => {
                depth -= 1;
                if depth < 0 { return Err("brackets are not balanced".into()) }
                cur.push(t);
                flush(&mut cur)?;
            }
            Tok::End => if depth == 0 { flush(&mut cur)? },
            t => cur.push(t),
        }
    }
    if depth != 0 { return Err("brackets are not balanced".into()) }
    if !cur.is_empty() { return Err("the last statement is not terminated".into()) }
    Ok(r)
}

pub fn c18(ck: &mut Ck) {
    let Some(d) = doc_fns(ck, "VisgraphDoc") else { ck.missing("VisgraphDoc"); return };
    let p = ck.p.clone();
    if let Some(f) = d.fns.get("new").cloned() {
        let args: Vec<V> = f.sig_inputs.iter().map(|t| match p.ty(*t) { Ty::Param(_) => V::named("output"), _ => mk_doc(&p, *t, 0, &mut 0, &mut 0, &mut false, &mut vec![], "") }).collect();
        let outs = ck.outcomes(&f, args, vec![], output());
        ck.judge(&f, "VisgraphDoc: header", &outs, |o| {
            let w = written(o)?;
            let t = dot(&w)?;
            let at = t.iter().position(|x| *x == Tok::Sym('{'));
            let n = t.iter().filter(|x| matches!(x, Tok::Sym('{' | '}'))).count();
            let head: Vec<&str> = t[..at.unwrap_or(0)].iter().filter_map(|x| if let Tok::Word(w) = x { Some(w.as_str()) } else { None }).collect();
            let open = t.iter().filter(|x| **x == Tok::Sym('[')).count();
            let close = t.iter().filter(|x| **x == Tok::Sym(']')).count();
            if n == 1 && head.contains(&"digraph") && open == close && t.last() == Some(&Tok::End) { Ok(()) } else { Err(format!("the header is {:?}", show(&V::Text(w)))) }
        });
    }
    reports(ck, &d, &|n, opt, gen, pos, o| {
        let w = written(o)?;
        let text = show(&V::Text(w.clone()));
        let st = stmts(&w).map_err(|e| format!("{}: {}", e, text))?;
        if !w.is_empty() && !matches!(w.last(), Some(Piece::Lit(s)) if s.ends_with(['\n', ';'])) { return Err(format!("the last statement is not terminated: {}", text)) }
        let edges: Vec<&Stmt> = st.iter().filter(|s| s.to.is_some()).collect();
        let nodes: Vec<&Stmt> = st.iter().filter(|s| s.to.is_none()).collect();
        // a builder is named by its address only
        let builder = |l: &Vec<Piece>, i: u8| items(l) == vec![It::Addr(Id::W(i))] && l.iter().all(|p| match p { Piece::Lit(s) => !s.chars().any(|c| c.is_ascii_hexdigit()), _ => true });
        let labelled = |i: u8| nodes.iter().any(|s| builder(&s.name, i) && items(&s.label) == vec![want_txt(opt("show_builder_values"), i)]);
        match n {
            "clear" | "invalidate" => if st.is_empty() { Ok(()) } else { Err(format!("statements are written: {}", text)) },
            "resolve" => {
                if edges.len() != 1 || !builder(&edges[0].name, 0) || !builder(edges[0].to.as_ref().unwrap(), 1) { return Err(format!("there is not exactly one edge from the builder to the used one: {}", text)) }
                if !labelled(0) || !labelled(1) { return Err(format!("the nodes of both builders are not described: {}", text)) }
                Ok(())
            }
            _ => {
                let art = |l: &Vec<Piece>| {
                    let it = items(l);
                    let mut lits = vec![false];
                    for p in l { match p { Piece::Lit(s) => { let k = lits.len() - 1; lits[k] = !s.is_empty() && !s.chars().all(|c| c.is_ascii_hexdigit()) } Piece::Hole(..) => lits.push(false) } }
                    it == vec![It::Num(gen.clone()), It::Num(pos.clone()), It::Addr(Id::W(2))] && lits[1] && lits[2]
                };
                if edges.len() != 1 || !builder(&edges[0].name, 0) { return Err(format!("there is not exactly one edge from the builder to its artifact: {}", text)) }
                let to = edges[0].to.as_ref().unwrap();
                if !art(to) { return Err(format!("the edge leads to {} instead of generation, position and address of the artifact", show(&V::Text(to.clone())))) }
                let Some(node) = nodes.iter().find(|s| s.name == *to) else { return Err(format!("there is no node of the name that the edge leads to: {}", text)) };
                if nodes.len() != 2 || !labelled(0) { return Err(format!("the node of the builder is not described: {}", text)) }
                let it: Vec<It> = items(&node.label).into_iter().filter(|x| !matches!(x, It::Num(_))).collect();
                let mut want = vec![want_txt(false, 2)];
                if opt("show_artifact_values") { want.push(want_txt(true, 2)) }
                if it != want { return Err(format!("the label of the artifact is {}", show(&V::Text(node.label.clone())))) }
                Ok(())
            }
        }
    });
    hand_back(ck, &d, true);
    // nothing more once the output has been handed back
    if let Some(f) = d.fns.get("drop").cloned() {
        let mut me = mk_doc(&p, d.me, 0, &mut 0, &mut 0, &mut false, &mut vec![], "");
        if let V::Adt(_, _, l, _) = &mut me { for x in l { if *x == V::some(V::named("output"), false) { *x = V::none(false) } } }
        let outs = ck.outcomes(&f, vec![g(0)], vec![me], output());
        ck.judge(&f, "VisgraphDoc: dropped after the output was taken", &outs, |o| if o.ret.is_some() && o.log.is_empty() { Ok(()) } else { Err(o.show()) });
    }
}

// ---- handles and idle doctors ----

/// Handles describe the builder or artifact they are made of, and Doctors that are told to do nothing do nothing.
pub fn c31(ck: &mut Ck) {
    identities(ck, true);
    let p = ck.p.clone();
    let makers: Vec<ir::Fn> = p.c.fns.iter().filter(|f| f.inst.is_some() && f.impl_trait.is_none() && f.exported).cloned().collect();
    for h in ["BuilderHandle", "ArtifactHandle"] {
        let is = |t: u32| matches!(p.ty(t), Ty::Adt(q, _) if last(&q) == h && p.adt(&q).is_some());
        let mut any = false;
        for f in makers.iter().filter(|f| f.sig_output.map(is).unwrap_or(false) && f.sig_inputs.len() == 1 && !f.sig_inputs.iter().any(|t| find_ty(&p, *t, h) || matches!(p.ty(*t), Ty::Ref(_, x) if find_ty(&p, x, h)))) {
            any = true;
            let t = f.sig_inputs[0];
            let (inner, by_ref) = match p.ty(t) { Ty::Ref(_, x) => (x, true), _ => (t, false) };
            // the type whose name is to be told
            let named: Option<String> = match p.ty(inner) {
                Ty::Param(_) => p.c.tys.iter().enumerate().find(|(_, t)| matches!(t, Ty::Proj(_, n, a) if n == "Builder" && a.first() == Some(&inner))).map(|(i, _)| p.show_ty(i as u32)),
                Ty::Proj(_, n, a) if n == "Bin" && a.len() >= 2 => Some(p.show_ty(a[1])),
                _ => None,
            };
            let Some(named) = named else { ck.missing(&format!("the type described by {}", h)); continue };
            let v = match p.ty(inner) { Ty::Param(_) => raw(0), _ => bin(0) };
            let (globals, args) = if by_ref { (vec![v], vec![g(0)]) } else { (vec![], vec![v]) };
            let outs = ck.outcomes(f, args, globals, none());
            let Some(Ty::Adt(q, targs)) = f.sig_output.map(|t| p.ty(t)) else { continue };
            let Some(fs) = p.fields(&q, &targs, 0) else { continue };
            let at = |n: &str| fs.iter().position(|x| x.0 == n);
            ck.judge(f, &format!("{}: describes what it is made of", h), &outs, |o| {
                let Some(V::Adt(_, _, l, _)) = &o.ret else { return Err(o.show()) };
                if let Some(i) = at("type_name") {
                    let want = format!("type name of {}", named);
                    match &l[i] {
                        V::Sym(Sym::Named(n, _)) if **n == *want => {}
                        x => return Err(format!("the type name is {} instead of the {}", show(x), want)),
                    }
                }
                if let Some(i) = at("dbg_text") {
                    let mut own = false;
                    let mut bad = None;
                    match &l[i] {
                        V::Text(ps) => for pc in ps {
                            match pc {
                                Piece::Lit(s) if s.is_empty() => {}
                                Piece::Hole(x, k, r) if matches!(&**k, "Debug" | "Debug#") && r.is_empty() && !own => {
                                    let mut who = None;
                                    x.walk(&mut |y| if let V::Sym(Sym::Prom(i) | Sym::Builder(i) | Sym::Can(i)) = y { who = Some(*i) });
                                    if who == Some(Id::W(0)) { own = true } else { bad = Some(show(x)) }
                                }
                                x => bad = Some(format!("{:?}", x)),
                            }
                        },
                        x => bad = Some(show(x)),
                    }
                    if let Some(b) = bad { return Err(format!("{} in the debug text", b)) }
                    if !own { return Err("the debug text does not show it".into()) }
                }
                for (n, v) in fs.iter().zip(l) {
                    let mut other = None;
                    v.walk(&mut |x| if let V::Sym(Sym::Ptr(i, _) | Sym::Can(i) | Sym::Builder(i)) = x { if *i != Id::W(0) { other = Some(show(x)) } });
                    if let Some(x) = other { return Err(format!("{} is {}", n.0, x)) }
                    if n.0 == "id" && v.clone() != mk(&p, n.1, 0, "") { return Err(format!("the id is {}", show(v))) }
                }
                for (n, _) in &o.log { if !n.starts_with("fmt") { return Err(format!("making a handle has an effect: {}", n)) } }
                Ok(())
            });
        }
        if !any { ck.missing(&format!("a way to make a {}", h)) }
    }
    // default methods of Doctor, and those of Doctors without any state
    let mut n = 0;
    for f in p.c.fns.iter().filter(|f| f.inst.is_some()).cloned().collect::<Vec<_>>() {
        let default = f.trait_default.as_deref().map(|t| last(t) == "Doctor").unwrap_or(false);
        let noop = f.impl_trait.as_ref().map(|t| last(&t.0) == "Doctor").unwrap_or(false)
            && matches!(f.impl_self.map(|t| p.ty(t)), Some(Ty::Adt(q, _)) if last(&q) == "NoopDoctor");
        if !default && !noop { continue }
        n += 1;
        let mut globals = vec![V::named("doctor")];
        let mut args = vec![g(0)];
        for (i, t) in f.sig_inputs.iter().enumerate().skip(1) {
            let inner = match p.ty(*t) { Ty::Ref(_, x) => x, _ => *t };
            globals.push(mk(&p, inner, i as u8 - 1, "handle"));
            args.push(g(i as u32));
        }
        let before = globals.clone();
        let outs = ck.outcomes(&f, args, globals, none());
        ck.judge(&f, "an idle Doctor does nothing", &outs, |o| {
            if o.panic.is_some() || o.ret.is_none() { return Err(o.show()) }
            if !o.log.is_empty() { return Err(format!("has an effect: {}", o.log[0].0)) }
            if o.globals.len() >= before.len() && o.globals[..before.len()] != before[..] { return Err("changes something".into()) }
            Ok(())
        });
    }
    if n == 0 { ck.missing("the default methods of Doctor") }
}
