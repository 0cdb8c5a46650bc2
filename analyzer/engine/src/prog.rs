//! The program under analysis: lookups, types, control flow.
use ir::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub struct Prog {
    pub c: Crate,
    pub cfg: String,
    tys: RefCell<Vec<Ty>>,
    tyidx: RefCell<HashMap<Ty, u32>>,
    callees: RefCell<Vec<Rc<Callee>>>,
    callidx: RefCell<HashMap<Callee, u32>>,
    adts: HashMap<String, usize>,
    discrs: HashMap<String, Vec<i128>>,
    ipdom: RefCell<HashMap<u32, Rc<Vec<Option<u32>>>>>,
    drops: HashMap<String, u32>,
    calladdr: RefCell<HashMap<usize, u32>>,
    live: RefCell<HashMap<u32, Rc<Vec<Vec<bool>>>>>,
}

impl Prog {
    pub fn new(c: Crate, cfg: &str) -> Prog {
        let tys = c.tys.clone();
        let tyidx = tys.iter().enumerate().map(|(i, t)| (t.clone(), i as u32)).collect();
        let adts = c.adts.iter().enumerate().map(|(i, a)| (a.path.clone(), i)).collect();
        let discrs = c.discrs.iter().cloned().collect();
        let mut drops = HashMap::new();
        for f in &c.fns {
            if f.name == "drop" && matches!(&f.impl_trait, Some((t, _)) if t == "std::ops::Drop") {
                if let (Some(s), Some(i)) = (f.impl_self, f.inst) {
                    if let Ty::Adt(p, _) = &tys[s as usize] {
                        drops.insert(p.clone(), i);
                    }
                }
            }
        }
        Prog { c, cfg: cfg.into(), tys: RefCell::new(tys), tyidx: RefCell::new(tyidx), callees: Default::default(), callidx: Default::default(), adts, discrs, ipdom: Default::default(), drops, calladdr: Default::default(), live: Default::default() }
    }
    pub fn ty(&self, id: u32) -> Ty {
        self.tys.borrow().get(id as usize).cloned().unwrap_or(Ty::Other("?".into()))
    }
    pub fn mk_ty(&self, t: Ty) -> u32 {
        if let Some(i) = self.tyidx.borrow().get(&t) {
            return *i;
        }
        let mut tys = self.tys.borrow_mut();
        tys.push(t.clone());
        let i = tys.len() as u32 - 1;
        self.tyidx.borrow_mut().insert(t, i);
        i
    }
    pub fn callee(&self, i: u32) -> Rc<Callee> {
        self.callees.borrow()[i as usize].clone()
    }
    /// For callees that are part of the (immutable) program.
    pub fn mk_callee_of(&self, c: &Callee) -> u32 {
        let key = c as *const Callee as usize;
        if let Some(i) = self.calladdr.borrow().get(&key) { return *i }
        let i = self.mk_callee(c);
        self.calladdr.borrow_mut().insert(key, i);
        i
    }
    pub fn mk_callee(&self, c: &Callee) -> u32 {
        if let Some(i) = self.callidx.borrow().get(c) {
            return *i;
        }
        let mut v = self.callees.borrow_mut();
        v.push(Rc::new(c.clone()));
        let i = v.len() as u32 - 1;
        self.callidx.borrow_mut().insert(c.clone(), i);
        i
    }
    pub fn adt(&self, path: &str) -> Option<&Adt> {
        self.adts.get(path).map(|i| &self.c.adts[*i])
    }
    pub fn drop_impl(&self, ty: u32) -> Option<u32> {
        match self.ty(ty) {
            Ty::Adt(p, _) => self.drops.get(&p).copied(),
            _ => None,
        }
    }
    pub fn discr(&self, path: &str, variant: u32) -> i128 {
        match self.discrs.get(path) {
            Some(l) => l.get(variant as usize).copied().unwrap_or(variant as i128),
            None if path == "std::cmp::Ordering" => variant as i128 - 1,
            None => variant as i128,
        }
    }
    pub fn nvariants(&self, path: &str) -> Option<u32> {
        if let Some(l) = self.discrs.get(path) {
            return Some(l.len() as u32);
        }
        match path {
            "std::option::Option" | "std::result::Result" | "std::ops::ControlFlow" => Some(2),
            "std::cmp::Ordering" => Some(3),
            _ => self.adt(path).map(|a| a.variants.len() as u32),
        }
    }
    pub fn subst(&self, t: u32, m: &BTreeMap<String, u32>) -> u32 {
        let l = |l: &Vec<u32>| l.iter().map(|x| self.subst(*x, m)).collect::<Vec<_>>();
        let n = match self.ty(t) {
            Ty::Param(n) => return m.get(&n).copied().unwrap_or(t),
            Ty::Adt(p, a) => Ty::Adt(p, l(&a)),
            Ty::Ref(b, a) => Ty::Ref(b, self.subst(a, m)),
            Ty::Ptr(b, a) => Ty::Ptr(b, self.subst(a, m)),
            Ty::Tuple(a) => Ty::Tuple(l(&a)),
            Ty::Proj(a, b, c) => Ty::Proj(a, b, l(&c)),
            Ty::Dyn(a, b) => Ty::Dyn(a, l(&b)),
            Ty::Array(a, b) => Ty::Array(self.subst(a, m), b),
            Ty::Slice(a) => Ty::Slice(self.subst(a, m)),
            x => x,
        };
        self.mk_ty(n)
    }
    /// Fields (name, type) of a variant of a local type.
    pub fn fields(&self, path: &str, args: &[u32], variant: usize) -> Option<Vec<(String, u32)>> {
        let a = self.adt(path)?;
        let m: BTreeMap<String, u32> = a.generics.iter().cloned().zip(args.iter().copied()).collect();
        Some(a.variants.get(variant)?.fields.iter().map(|f| (f.name.clone(), self.subst(f.ty, &m))).collect())
    }
    pub fn show_ty(&self, t: u32) -> String {
        let l = |l: &Vec<u32>| l.iter().map(|x| self.show_ty(*x)).collect::<Vec<_>>().join(", ");
        match self.ty(t) {
            Ty::Adt(p, a) if a.is_empty() => p,
            Ty::Adt(p, a) => format!("{}<{}>", p, l(&a)),
            Ty::Ref(m, a) => format!("&{}{}", if m { "mut " } else { "" }, self.show_ty(a)),
            Ty::Ptr(m, a) => format!("*{} {}", if m { "mut" } else { "const" }, self.show_ty(a)),
            Ty::Tuple(a) => format!("({})", l(&a)),
            Ty::Param(n) => n,
            Ty::Proj(t, n, a) => format!("<{} as {}>::{}", l(&a), t, n),
            Ty::Closure(p, _) => format!("closure {}", p),
            Ty::FnDef(c) => format!("fn {}", c.path),
            Ty::FnPtr(s) | Ty::Prim(s) | Ty::Other(s) => s,
            Ty::Dyn(p, a) if a.is_empty() => format!("dyn {}", p),
            Ty::Dyn(p, a) => format!("dyn {}<{}>", p, l(&a)),
            Ty::Array(a, n) => format!("[{}; {}]", self.show_ty(a), n),
            Ty::Slice(a) => format!("[{}]", self.show_ty(a)),
            Ty::Never => "!".into(),
        }
    }
    pub fn succs(t: &Term) -> Vec<u32> {
        match t {
            Term::Goto(a) | Term::Drop(_, a, _) | Term::Assert(_, _, _, a) => vec![*a],
            Term::Switch(_, l, o) => l.iter().map(|x| x.1).chain([*o]).collect(),
            Term::Call { target: Some(t), .. } => vec![*t],
            _ => vec![],
        }
    }
    /// Immediate post-dominators on the paths to a return.
    pub fn ipdom(&self, inst: u32) -> Rc<Vec<Option<u32>>> {
        if let Some(x) = self.ipdom.borrow().get(&inst) {
            return x.clone();
        }
        let b = &self.c.insts[inst as usize].blocks;
        let n = b.len();
        let succ: Vec<Vec<usize>> = b.iter().map(|x| Self::succs(&x.term).into_iter().map(|y| y as usize).collect()).collect();
        let mut live: Vec<bool> = b.iter().map(|x| matches!(x.term, Term::Return)).collect();
        loop {
            let mut ch = false;
            for i in 0..n {
                if !live[i] && succ[i].iter().any(|s| live[*s]) {
                    live[i] = true;
                    ch = true;
                }
            }
            if !ch { break }
        }
        // pd[i]: blocks that post-dominate i
        let mut pd: Vec<Vec<bool>> = (0..n).map(|i| if live[i] { vec![true; n] } else { vec![false; n] }).collect();
        for i in 0..n {
            if matches!(b[i].term, Term::Return) {
                pd[i] = vec![false; n];
                pd[i][i] = true;
            }
        }
        loop {
            let mut ch = false;
            for i in (0..n).rev() {
                if !live[i] || matches!(b[i].term, Term::Return) { continue }
                let mut x = vec![true; n];
                for s in succ[i].iter().filter(|s| live[**s]) {
                    for k in 0..n { x[k] &= pd[*s][k] }
                }
                x[i] = true;
                if x != pd[i] { pd[i] = x; ch = true }
            }
            if !ch { break }
        }
        let cnt: Vec<usize> = pd.iter().map(|x| x.iter().filter(|y| **y).count()).collect();
        let r: Vec<Option<u32>> = (0..n).map(|i| {
            // the closest strict post-dominator has the most post-dominators itself
            (0..n).filter(|k| *k != i && live[i] && pd[i][*k]).max_by_key(|k| cnt[*k]).map(|k| k as u32)
        }).collect();
        let r = Rc::new(r);
        self.ipdom.borrow_mut().insert(inst, r.clone());
        r
    }
    /// Per block: the locals that are certainly not needed any more on entry.
    pub fn dead(&self, inst: u32) -> Rc<Vec<Vec<bool>>> {
        if let Some(x) = self.live.borrow().get(&inst) {
            return x.clone();
        }
        let b = &self.c.insts[inst as usize];
        let n = b.locals.len();
        // locals that may be referred to
        let mut taken = vec![false; n];
        for (i, l) in b.locals.iter().enumerate() {
            if matches!(self.ty(l.ty), Ty::Adt(ref p, _) if p == "std::boxed::Box") { taken[i] = true }
        }
        taken[0] = true;
        for s in b.blocks.iter().flat_map(|x| &x.stmts) {
            if let StmtKind::Assign(_, Rvalue::Ref(_, p) | Rvalue::RawPtr(_, p)) = &s.kind {
                if p.proj.first() != Some(&Proj::Deref) { taken[p.local as usize] = true }
            }
        }
        fn place(p: &Place, g: &mut dyn FnMut(u32)) {
            g(p.local);
            for x in &p.proj { if let Proj::Index(i) = x { g(*i) } }
        }
        fn op(o: &Operand, g: &mut dyn FnMut(u32)) {
            if let Operand::Copy(p) | Operand::Move(p) = o { place(p, g) }
        }
        fn rv(r: &Rvalue, g: &mut dyn FnMut(u32)) {
            match r {
                Rvalue::Use(o) | Rvalue::Cast(_, o, _) | Rvalue::Un(_, o) | Rvalue::Repeat(o) => op(o, g),
                Rvalue::Ref(_, p) | Rvalue::RawPtr(_, p) | Rvalue::Discr(p) => place(p, g),
                Rvalue::Bin(_, x, y) => { op(x, g); op(y, g) }
                Rvalue::Agg(_, l) => l.iter().for_each(|o| op(o, g)),
                Rvalue::Static(_) | Rvalue::Other(_) => {}
            }
        }
        let nb = b.blocks.len();
        let mut live: Vec<Vec<bool>> = vec![vec![false; n]; nb];
        loop {
            let mut ch = false;
            for i in (0..nb).rev() {
                let blk = &b.blocks[i];
                let mut s = vec![false; n];
                let mut next = Self::succs(&blk.term);
                match &blk.term {
                    Term::Call { unwind: Some(u), .. } | Term::Drop(_, _, Some(u)) => next.push(*u),
                    _ => {}
                }
                for x in next { for k in 0..n { s[k] |= live[x as usize][k] } }
                match &blk.term {
                    Term::Call { func, args, dest, .. } => {
                        if dest.proj.is_empty() { s[dest.local as usize] = false } else { place(dest, &mut |l| s[l as usize] = true) }
                        op(func, &mut |l| s[l as usize] = true);
                        for a in args { op(a, &mut |l| s[l as usize] = true) }
                    }
                    Term::Switch(o, ..) | Term::Assert(o, ..) => op(o, &mut |l| s[l as usize] = true),
                    Term::Drop(p, ..) => place(p, &mut |l| s[l as usize] = true),
                    _ => {}
                }
                for st in blk.stmts.iter().rev() {
                    match &st.kind {
                        StmtKind::Assign(p, r) => {
                            if p.proj.is_empty() { s[p.local as usize] = false } else { place(p, &mut |l| s[l as usize] = true) }
                            rv(r, &mut |l| s[l as usize] = true);
                        }
                        StmtKind::SetDiscr(p, _) => place(p, &mut |l| s[l as usize] = true),
                        StmtKind::StorageLive(l) | StmtKind::StorageDead(l) => s[*l as usize] = false,
                        StmtKind::Nop => {}
                    }
                }
                if s != live[i] { live[i] = s; ch = true }
            }
            if !ch { break }
        }
        let r: Vec<Vec<bool>> = live.iter().map(|l| (0..n).map(|k| !l[k] && !taken[k]).collect()).collect();
        let r = Rc::new(r);
        self.live.borrow_mut().insert(inst, r.clone());
        r
    }
    pub fn find_fns(&self, f: impl std::ops::Fn(&ir::Fn) -> bool) -> Vec<&ir::Fn> {
        self.c.fns.iter().filter(|x| f(x)).collect()
    }
}
