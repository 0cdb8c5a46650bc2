//! rustc driver that dumps the type-checked crate (see `ir`) to the directory in $DAAB_DUMP.
//! Used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_data_structures;
extern crate rustc_trait_selection;
extern crate rustc_infer;

use ir::*;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId, LOCAL_CRATE};
use rustc_middle::mir;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, TyCtxt, TyKind, TypeVisitableExt};
use std::collections::HashMap;

struct Cb {
    out: Option<String>,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: Vec<Ty>,
    idx: HashMap<Ty, TyId>,
    /// Current root and its typing environment
    root: DefId,
    env: ty::TypingEnv<'tcx>,
    insts: HashMap<(Option<DefId>, DefId, GenericArgsRef<'tcx>), u32>,
    queue: Vec<(u32, DefId, DefId, GenericArgsRef<'tcx>)>,
    out: Vec<Option<Inst>>,
    discrs: HashMap<String, Vec<i128>>,
    iter_traits: Option<(DefId, DefId, DefId)>,
    depth: usize,
}

/// Foreign modules whose functions are dumped, too.
fn descend(tcx: TyCtxt<'_>, d: DefId) -> bool {
    if d.is_local() { return true }
    let cr = tcx.crate_name(d.krate);
    if !matches!(cr.as_str(), "core" | "std" | "alloc") { return false }
    let p = tcx.def_path(d);
    let seg = |i: usize| p.data.get(i).and_then(|x| x.data.get_opt_name()).map(|s| s.to_string()).unwrap_or_default();
    let (a, b) = (seg(0), seg(1));
    if cr.as_str() != "core" { return false }
    let last = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
    match a.as_str() {
        "option" | "result" => !matches!(last.as_str(), "take" | "replace" | "unwrap_failed" | "expect_failed" | "fmt" | "hash"),
        "iter" => !matches!(b.as_str(), "range"),
        "bool" | "convert" | "tuple" => true,
        "cmp" => true,
        "ops" => matches!(b.as_str(), "control_flow" | "try_trait" | "function" | "index_range"),
        _ => false,
    }
}

fn strip_generics(s: &str) -> String {
    // removes "::<...>" groups
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<'
            && !b[i + 3..].starts_with(&['i', 'm', 'p', 'l', ' ']) {
            let mut d = 0;
            i += 2;
            while i < b.len() {
                if b[i] == '<' { d += 1 }
                if b[i] == '>' && b[i - 1] != '-' { d -= 1; if d == 0 { i += 1; break } }
                i += 1;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        strip_generics(&with_no_trimmed_paths!(self.tcx.def_path_str(d)))
    }
    fn fid(&self, d: DefId) -> String {
        format!("f{}", d.index.as_u32())
    }
    fn mk(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.idx.get(&t) { return *i }
        let i = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.idx.insert(t, i);
        i
    }
    fn targs(&mut self, a: GenericArgsRef<'tcx>) -> Vec<TyId> {
        a.types().collect::<Vec<_>>().into_iter().map(|t| self.ty(t)).collect()
    }
    fn ty(&mut self, t: ty::Ty<'tcx>) -> TyId {
        let r = match t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_) | TyKind::Str => Ty::Prim(t.to_string()),
            TyKind::Adt(d, a) => {
                if d.is_enum() { let p = self.path(d.did()); if !self.discrs.contains_key(&p) { let v: Vec<i128> = d.discriminants(self.tcx).map(|(_, x)| { if x.ty.is_signed() { let sz = rustc_abi::Size::from_bits(match x.ty.to_string().as_str() { "i8" => 8, "i16" => 16, "i32" => 32, "i128" => 128, _ => 64u64 }); sz.sign_extend(x.val) } else { x.val as i128 } }).collect(); self.discrs.insert(p, v); } }
                let p = self.path(d.did()); Ty::Adt(p, self.targs(a)) }
            TyKind::Array(e, n) => { let n = n.to_string(); Ty::Array(self.ty(*e), n) }
            TyKind::Slice(e) => Ty::Slice(self.ty(*e)),
            TyKind::RawPtr(e, m) => Ty::Ptr(m.is_mut(), self.ty(*e)),
            TyKind::Ref(_, e, m) => Ty::Ref(m.is_mut(), self.ty(*e)),
            TyKind::Tuple(l) => Ty::Tuple(l.iter().map(|x| self.ty(x)).collect()),
            TyKind::Param(p) => Ty::Param(p.name.to_string()),
            TyKind::Never => Ty::Never,
            TyKind::Closure(d, a) => { let f = self.fid(*d); let v = a.as_closure().parent_args(); let v: Vec<_> = v.iter().filter_map(|x| x.as_type()).collect(); let v = v.into_iter().map(|x| self.ty(x)).collect(); Ty::Closure(f, v) }
            TyKind::FnDef(d, a) => { let c = self.callee(*d, a.skip_binder(), false); Ty::FnDef(c) }
            TyKind::FnPtr(..) => Ty::FnPtr(t.to_string()),
            TyKind::Dynamic(p, ..) => {
                let s = with_no_trimmed_paths!(t.to_string());
                let mut args = vec![];
                for b in p.iter() {
                    match b.skip_binder() {
                        ty::ExistentialPredicate::Trait(tr) => {
                            for x in tr.args.types().collect::<Vec<_>>() { args.push(self.ty(x)) }
                        }
                        ty::ExistentialPredicate::Projection(pr) => {
                            if let Some(x) = pr.term.as_type() { args.push(self.ty(x)) }
                        }
                        _ => {}
                    }
                }
                Ty::Dyn(s, args)
            }
            TyKind::Alias(_, a) => {
                match a.kind(self.tcx) {
                    ty::AliasTyKind::Projection { def_id } => {
                        let def_id: DefId = def_id.into();
                        let tr = self.tcx.parent(def_id);
                        let tp = self.path(tr);
                        let nm = self.tcx.item_name(def_id).to_string();
                        Ty::Proj(tp, nm, self.targs(a.args))
                    }
                    _ => Ty::Other(with_no_trimmed_paths!(t.to_string())),
                }
            }
            _ => Ty::Other(with_no_trimmed_paths!(t.to_string())),
        };
        self.mk(r)
    }
    /// Id of the body of the given function, which is dumped later on.
    fn inst(&mut self, d: DefId, args: GenericArgsRef<'tcx>) -> Option<u32> {
        let tcx = self.tcx;
        if !descend(tcx, d) || !tcx.is_mir_available(d) { return None }
        let args = tcx.erase_and_anonymize_regions(args);
        let key = (if args.has_param() || args.has_aliases() { Some(self.root) } else { None }, d, args);
        if let Some(i) = self.insts.get(&key) { return Some(*i) }
        let i = self.out.len() as u32;
        self.out.push(None);
        self.insts.insert(key, i);
        self.queue.push((i, self.root, d, args));
        Some(i)
    }
    fn callee(&mut self, d: DefId, args: GenericArgsRef<'tcx>, resolve: bool) -> Callee {
        let tcx = self.tcx;
        let path = self.path(d);
        let name = tcx.opt_item_name(d).map(|s| s.to_string()).unwrap_or_default();
        let mut trait_ = None;
        if let Some(t) = tcx.trait_of_assoc(d) {
            trait_ = Some(self.path(t));
        }
        let mut c = Callee { path: path.clone(), args: self.targs(args), trait_, name, rpath: path, local: d.is_local(), resolved: false, inst: None, aux: vec![] };
        if !resolve || !matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) { return c }
        let env = self.env;
        let a = tcx.erase_and_anonymize_regions(args);
        let res = ty::Instance::try_resolve(tcx, env, d, a).ok().flatten();
        let Some(i) = res else { return c };
        match i.def {
            ty::InstanceKind::Item(rd) => {
                c.resolved = true;
                c.rpath = self.path(rd);
                c.local = rd.is_local();
                let mut target = (rd, i.args);
                // Overridden provided methods of iterators of the standard library: use the provided one.
                if let Some((it, _, dit)) = self.iter_traits {
                    let tr = tcx.trait_of_assoc(d);
                    if (tr == Some(it) || tr == Some(dit)) && !descend(tcx, rd) && rd != d && tcx.defaultness(d).has_value()
                        && !matches!(c.name.as_str(), "size_hint" | "next" | "next_back") {
                        target = (d, a);
                    }
                }
                c.inst = self.inst(target.0, target.1);
                if c.inst.is_none() && self.depth == 0 { self.depth = 1; c.aux = self.aux(args); self.depth = 0; }
            }
            ty::InstanceKind::Virtual(..) => {}
            _ => { c.resolved = true; }
        }
        c
    }
    fn aux(&mut self, args: GenericArgsRef<'tcx>) -> Vec<Aux> {
        use rustc_trait_selection::infer::InferCtxtExt;
        use rustc_infer::infer::TyCtxtInferExt;
        let tcx = self.tcx;
        let Some((it, into, _)) = self.iter_traits else { return vec![] };
        let mut out = vec![];
        for t in args.types().collect::<Vec<_>>() {
            if t.has_escaping_bound_vars() || matches!(t.kind(), TyKind::Param(_) | TyKind::Alias(..)) { continue }
            let (infcx, penv) = tcx.infer_ctxt().build_with_typing_env(self.env);
            let te = tcx.erase_and_anonymize_regions(t);
            let mut tn = None;
            if infcx.type_implements_trait(it, [te], penv).must_apply_modulo_regions() {
                tn = Some(te);
            } else if infcx.type_implements_trait(into, [te], penv).must_apply_modulo_regions() {
                let m = tcx.associated_items(into).in_definition_order().find(|x| x.name().as_str() == "into_iter").unwrap().def_id;
                let a = tcx.mk_args(&[te.into()]);
                let c = self.callee(m, a, true);
                out.push(Aux { ty: self.ty(t), name: "into_iter".into(), callee: Box::new(c) });
                let ii = tcx.associated_items(into).in_definition_order().find(|x| x.name().as_str() == "IntoIter").unwrap().def_id;
                let pr = ty::Ty::new_projection(tcx, ty::IsRigid::No, ii, [te]);
                if let Ok(x) = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(pr)) { tn = Some(x) }
            }
            if let Some(tn) = tn {
                let m = tcx.associated_items(it).in_definition_order().find(|x| x.name().as_str() == "next").unwrap().def_id;
                let a = tcx.mk_args(&[tn.into()]);
                let c = self.callee(m, a, true);
                out.push(Aux { ty: self.ty(tn), name: "next".into(), callee: Box::new(c) });
            }
        }
        out
    }
    fn loc(&self, sp: rustc_span::Span) -> (String, u32) {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        (f, l.line as u32)
    }
    fn span(&self, sp: rustc_span::Span) -> Span {
        let mut mac = None;
        let mut s = sp;
        while s.from_expansion() {
            let d = s.ctxt().outer_expn_data();
            if let rustc_span::ExpnKind::Macro(_, n) = d.kind { 
                if n.as_str() != "cfg_if" && n.as_str() != "cfg_if::cfg_if" && n.as_str() != "__cfg_if_items" && n.as_str() != "$crate::cfg_if" { mac = Some(n.to_string()) }
            }
            s = d.call_site;
        }
        let (file, line) = self.loc(sp);
        Span { file, line, mac }
    }
    fn place(&mut self, p: &mir::Place<'tcx>) -> Place {
        let mut proj = vec![];
        for e in p.projection.iter() {
            proj.push(match e {
                mir::ProjectionElem::Deref => Proj::Deref,
                mir::ProjectionElem::Field(i, t) => Proj::Field(i.as_u32(), self.ty(t)),
                mir::ProjectionElem::Downcast(_, v) => Proj::Downcast(v.as_u32()),
                mir::ProjectionElem::Index(l) => Proj::Index(l.as_u32()),
                mir::ProjectionElem::ConstantIndex { offset, from_end, .. } => Proj::ConstIndex(offset, from_end),
                mir::ProjectionElem::Subslice { from, to, from_end } => Proj::Subslice(from, to, from_end),
                mir::ProjectionElem::OpaqueCast(_) => continue,
                _ => Proj::Other,
            });
        }
        Place { local: p.local.as_u32(), proj }
    }
    fn konst(&mut self, c: &mir::ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> Const {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let TyKind::FnDef(d, a) = t.kind() {
            let callee = self.callee(*d, a.skip_binder(), true);
            return Const { ty: self.mk(Ty::Other("fn".into())), val: ConstVal::Fn(callee) };
        }
        let tid = self.ty(t);
        if let mir::Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                return Const { ty: tid, val: ConstVal::Promoted(p.as_u32()) };
            }
        }
        let named = if let mir::Const::Unevaluated(u, _) = c.const_ { Some(self.path(u.def)) } else { None };
        let val = match c.const_ {
            mir::Const::Val(v, _) => Some(v),
            _ => c.const_.eval(tcx, env, c.span).ok(),
        };
        let v = match val {
            Some(v) => self.cval(v, t),
            None => match named { Some(n) => ConstVal::Named(n), None => ConstVal::Other(format!("{:?}", c.const_)) },
        };
        Const { ty: tid, val: v }
    }
    fn cval(&mut self, v: mir::ConstValue, t: ty::Ty<'tcx>) -> ConstVal {
        let tcx = self.tcx;
        let int = matches!(v, mir::ConstValue::Scalar(mir::interpret::Scalar::Int(_)) | mir::ConstValue::Indirect { .. });
        if int && matches!(t.kind(), TyKind::Adt(..) | TyKind::Tuple(..)) && !ty::TypeVisitableExt::has_param(&t) {
            if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                let fields = d.fields.iter().map(|(v, t)| Const { ty: self.ty(*t), val: self.cval(*v, *t) }).collect();
                return ConstVal::Ctor(d.variant.map_or(0, |v| v.as_u32()), fields);
            }
        }
        match v {
            mir::ConstValue::ZeroSized => ConstVal::Zst,
            mir::ConstValue::Scalar(s) => {
                match s {
                    mir::interpret::Scalar::Int(i) => {
                        if t.is_bool() { return ConstVal::Bool(i.to_bits(i.size()) != 0) }
                        let bits = i.to_bits(i.size());
                        if t.is_signed() { return ConstVal::Int(i.size().sign_extend(bits)) }
                        ConstVal::Int(bits as i128)
                    }
                    mir::interpret::Scalar::Ptr(p, _) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        match tcx.try_get_global_alloc(prov.alloc_id()) {
                            Some(mir::interpret::GlobalAlloc::Memory(a)) => {
                                let a = a.inner();
                                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(off.bytes() as usize..a.len()).to_vec();
                                ConstVal::Bytes(bytes)
                            }
                            Some(mir::interpret::GlobalAlloc::Static(d)) => ConstVal::Named(self.path(d)),
                            _ => ConstVal::Other("ptr".into()),
                        }
                    }
                }
            }
            mir::ConstValue::Slice { alloc_id, meta } => {
                let a = tcx.global_alloc(alloc_id).unwrap_memory().inner();
                let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(0..meta as usize).to_vec();
                let is_str = matches!(t.kind(), TyKind::Ref(_, e, _) if e.is_str());
                if is_str { ConstVal::Str(String::from_utf8_lossy(&bytes).into_owned()) } else { ConstVal::Bytes(bytes) }
            }
            _ => ConstVal::Other("indirect".into()),
        }
    }
    fn op(&mut self, o: &mir::Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> Operand {
        match o {
            mir::Operand::Copy(p) => Operand::Copy(self.place(p)),
            mir::Operand::Move(p) => Operand::Move(self.place(p)),
            mir::Operand::Constant(c) => Operand::Const(self.konst(c, env)),
            mir::Operand::RuntimeChecks(c) => {
                let b = c.value(self.tcx.sess);
                let ty = self.mk(Ty::Prim("bool".into()));
                Operand::Const(Const { ty, val: ConstVal::Bool(b) })
            }
        }
    }
    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> Rvalue {
        use mir::Rvalue as R;
        match r {
            R::Use(o, _) => Rvalue::Use(self.op(o, env)),
            R::CopyForDeref(p) => Rvalue::Use(Operand::Copy(self.place(p))),
            R::Repeat(o, _) => Rvalue::Repeat(self.op(o, env)),
            R::Ref(_, k, p) => Rvalue::Ref(matches!(k, mir::BorrowKind::Mut { .. }), self.place(p)),
            R::RawPtr(k, p) => Rvalue::RawPtr(matches!(k, mir::RawPtrKind::Mut), self.place(p)),
            R::Cast(k, o, t) => Rvalue::Cast(format!("{:?}", k), self.op(o, env), self.ty(*t)),
            R::BinaryOp(b, x) => Rvalue::Bin(format!("{:?}", b), self.op(&x.0, env), self.op(&x.1, env)),
            R::UnaryOp(u, o) => Rvalue::Un(format!("{:?}", u), self.op(o, env)),
            R::Discriminant(p) => Rvalue::Discr(self.place(p)),
            R::Aggregate(k, ops) => {
                let a = match &**k {
                    mir::AggregateKind::Tuple => Agg::Tuple,
                    mir::AggregateKind::Array(_) => Agg::Array,
                    mir::AggregateKind::Adt(d, v, args, _, _) => {
                        let ad = self.tcx.adt_def(*d);
                        let vn = ad.variant(*v).name.to_string();
                        let t = ty::Ty::new_adt(self.tcx, ad, args);
                        let p = self.path(*d);
                        Agg::Adt(p, v.as_u32(), vn, self.ty(t))
                    }
                    mir::AggregateKind::Closure(d, args) => {
                        let t = ty::Ty::new_closure(self.tcx, *d, args);
                        let i = self.inst(*d, args);
                        Agg::Closure(i, self.ty(t))
                    }
                    mir::AggregateKind::RawPtr(..) => Agg::Other("rawptr".into()),
                    _ => Agg::Other("coroutine".into()),
                };
                Rvalue::Agg(a, ops.iter().map(|o| self.op(o, env)).collect())
            }
            R::ThreadLocalRef(d) => Rvalue::Static(self.path(*d)),
            _ => Rvalue::Other(format!("{:?}", r)),
        }
    }
    fn blocks(&mut self, b: &mir::Body<'tcx>, env: ty::TypingEnv<'tcx>) -> Vec<Block> {
        let mut out = vec![];
        for bb in b.basic_blocks.iter() {
            let mut stmts = vec![];
            for s in &bb.statements {
                let line = self.loc(s.source_info.span).1;
                let kind = match &s.kind {
                    mir::StatementKind::Assign(x) => StmtKind::Assign(self.place(&x.0), self.rvalue(&x.1, env)),
                    mir::StatementKind::SetDiscriminant { place, variant_index } => StmtKind::SetDiscr(self.place(place), variant_index.as_u32()),
                    mir::StatementKind::StorageLive(l) => StmtKind::StorageLive(l.as_u32()),
                    mir::StatementKind::StorageDead(l) => StmtKind::StorageDead(l.as_u32()),
                    _ => continue,
                };
                stmts.push(Stmt { kind, line });
            }
            let t = bb.terminator();
            use mir::TerminatorKind as T;
            let uw = |u: &mir::UnwindAction| match u { mir::UnwindAction::Cleanup(b) => Some(b.as_u32()), _ => None };
            let term = match &t.kind {
                T::Goto { target, .. } => Term::Goto(target.as_u32()),
                T::SwitchInt { discr, targets } => {
                    let v = targets.iter().map(|(v, b)| (v as i128, b.as_u32())).collect();
                    Term::Switch(self.op(discr, env), v, targets.otherwise().as_u32())
                }
                T::Return => Term::Return,
                T::Unreachable => Term::Unreachable,
                T::UnwindResume => Term::Resume,
                T::UnwindTerminate(_) => Term::Resume,
                T::Drop { place, target, unwind, .. } => Term::Drop(self.place(place), target.as_u32(), uw(unwind)),
                T::Call { func, args, destination, target, unwind, .. } => Term::Call {
                    func: self.op(func, env),
                    args: args.iter().map(|a| self.op(&a.node, env)).collect(),
                    dest: self.place(destination),
                    target: target.map(|b| b.as_u32()),
                    unwind: uw(unwind),
                },
                T::Assert { cond, expected, msg, target, .. } => Term::Assert(self.op(cond, env), *expected, format!("{:?}", msg), target.as_u32()),
                T::FalseEdge { real_target, .. } => Term::Goto(real_target.as_u32()),
                T::FalseUnwind { real_target, .. } => Term::Goto(real_target.as_u32()),
                k => Term::Other(format!("{:?}", k)),
            };
            out.push(Block { stmts, term, term_span: self.span(t.source_info.span), cleanup: bb.is_cleanup });
        }
        out
    }
    fn body(&mut self, b: &mir::Body<'tcx>, owner: DefId) -> Inst {
        let tcx = self.tcx;
        let env = self.env;
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in &b.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() { names.insert(p.local.as_u32(), v.name.to_string()); }
            }
        }
        let locals = b.local_decls.iter_enumerated().map(|(i, l)| Local { ty: self.ty(l.ty), name: names.get(&i.as_u32()).cloned() }).collect();
        let blocks = self.blocks(b, env);
        let (file, line) = self.loc(tcx.def_span(owner));
        let closure = tcx.is_closure_like(owner);
        let path = if closure { format!("{}::{{closure}}", self.path(tcx.typeck_root_def_id(owner))) } else { self.path(owner) };
        Inst { path, file, line, local: owner.is_local(), closure, root: self.fid(self.root), argc: b.arg_count, locals, blocks, promoted: vec![], spread: b.spread_arg.map(|x| x.as_u32()) }
    }
    fn run(&mut self) {
        let tcx = self.tcx;
        while let Some((i, root, d, args)) = self.queue.pop() {
            self.root = root;
            self.env = ty::TypingEnv::post_analysis(tcx, root);
            let inst = ty::Instance::new_raw(d, args);
            let mono = |b: &mir::Body<'tcx>, env| inst.try_instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone())).ok();
            let Some(body) = mono(tcx.optimized_mir(d), self.env) else { continue };
            let mut x = self.body(&body, d);
            for p in tcx.promoted_mir(d).iter() {
                if let Some(p) = mono(p, self.env) { let y = self.body(&p, d); x.promoted.push(y) }
            }
            self.out[i as usize] = Some(x);
        }
    }
    fn gnames(&self, d: DefId) -> Vec<String> {
        let mut v = vec![];
        let g = self.tcx.generics_of(d);
        if let Some(p) = g.parent { v.extend(self.gnames(p)) }
        for p in &g.own_params {
            if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) { v.push(p.name.to_string()) }
        }
        v
    }
    fn function(&mut self, d: LocalDefId, exported: bool) -> Option<Fn> {
        let tcx = self.tcx;
        let did = d.to_def_id();
        let k = tcx.def_kind(did);
        let kind = match k {
            DefKind::Fn => "fn",
            DefKind::AssocFn => "assoc",
            _ => return None,
        };
        self.root = did;
        self.env = ty::TypingEnv::post_analysis(tcx, did);
        let args = ty::GenericArgs::identity_for_item(tcx, did);
        let (file, line) = self.loc(tcx.def_span(did));
        let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
        let inst = if tcx.is_mir_available(did) { self.inst(did, args) } else { None };
        let module = self.path(tcx.parent_module_from_def_id(d).to_def_id());
        let mut f = Fn {
            id: self.fid(did), path: self.path(did), name: tcx.item_name(did).to_string(), file, line, kind: kind.into(),
            public: tcx.visibility(did).is_public(), generics: self.gnames(did), impl_self: None, impl_trait: None, trait_default: None,
            exported, unsafe_fn: !sig.safety().is_safe(), sig_inputs: sig.inputs().iter().map(|t| self.ty(*t)).collect(), sig_output: Some(self.ty(sig.output())), module, inst, callback_args: vec![],
        };
        for c in tcx.clauses_of(did).instantiate_identity(tcx).clauses {
            if let Some(t) = c.skip_norm_wip().as_trait_clause() {
                let tr = t.skip_binder().trait_ref;
                if matches!(tcx.item_name(tr.def_id).as_str(), "Fn" | "FnMut" | "FnOnce") {
                    if let Some(a) = tr.args.types().nth(1) {
                        f.callback_args.push(self.ty(a));
                    }
                }
            }
        }
        let parent = tcx.parent(did);
        match tcx.def_kind(parent) {
            DefKind::Impl { of_trait } => {
                f.impl_self = Some(self.ty(tcx.type_of(parent).instantiate_identity().skip_norm_wip()));
                if of_trait {
                    let tr = tcx.impl_trait_ref(parent).instantiate_identity().skip_norm_wip();
                    let p = self.path(tr.def_id);
                    f.impl_trait = Some((p, self.targs(tr.args)));
                }
            }
            DefKind::Trait => f.trait_default = Some(self.path(parent)),
            _ => {}
        }
        self.run();
        Some(f)
    }
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let Some(out) = self.out.clone() else { return rustc_driver::Compilation::Continue };
        let iter_traits = tcx.get_diagnostic_item(rustc_span::sym::Iterator).and_then(|it| {
            let f = |n: &str| tcx.traits(it.krate).iter().copied().find(|d| tcx.item_name(*d).as_str() == n);
            Some((it, f("IntoIterator")?, f("DoubleEndedIterator")?))
        });
        if iter_traits.is_none() { eprintln!("daab driver: no iterator traits") }
        let mut cx = Cx { tcx, tys: vec![], idx: HashMap::new(), root: rustc_span::def_id::CRATE_DEF_ID.to_def_id(), env: ty::TypingEnv::fully_monomorphized(), insts: HashMap::new(), queue: vec![], out: vec![], discrs: HashMap::new(), iter_traits, depth: 0 };
        let mut cr = Crate { name: tcx.crate_name(LOCAL_CRATE).to_string(), ..Default::default() };
        cr.debug_assertions = tcx.sess.opts.debug_assertions;
        let ev = tcx.effective_visibilities(());
        let items = tcx.hir_crate_items(());
        for d in tcx.hir_body_owners() {
            let ex = ev.is_exported(d);
            if let Some(f) = cx.function(d, ex) { cr.fns.push(f) }
        }
        for d in items.definitions() {
            let did = d.to_def_id();
            let k = tcx.def_kind(did);
            let (file, line) = cx.loc(tcx.def_span(did));
            let exported = ev.is_exported(d);
            match k {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(did);
                    let mut vs = vec![];
                    for v in a.variants() {
                        let mut fs = vec![];
                        for f in &v.fields {
                            let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            let vis = match f.vis {
                                ty::Visibility::Public => "pub".to_string(),
                                ty::Visibility::Restricted(m) => if m.is_crate_root() { "crate".into() } else { cx.path(m.to_def_id()) },
                            };
                            fs.push(Field { name: f.name.to_string(), ty: cx.ty(t), vis });
                        }
                        vs.push(Variant { name: v.name.to_string(), fields: fs });
                    }
                    let has_drop = tcx.adt_destructor(did).is_some();
                    cr.adts.push(Adt { path: cx.path(did), kind: format!("{:?}", k), exported, public: tcx.visibility(did).is_public(), generics: cx.gnames(did), variants: vs, file, line, has_drop });
                }
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let env = ty::TypingEnv::post_analysis(tcx, did);
                    let freeze = t.is_freeze(tcx, env);
                    let tl = tcx.is_thread_local_static(did);
                    cr.statics.push(StaticItem { path: cx.path(did), ty: cx.ty(t), mutable: mutability.is_mut(), freeze, thread_local: tl, file, line });
                }
                DefKind::Const { .. } => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let env = ty::TypingEnv::post_analysis(tcx, did);
                    let freeze = t.is_freeze(tcx, env);
                    cr.items.push(Item { path: cx.path(did), kind: if freeze { "Const".into() } else { "ConstCell".into() }, public: tcx.visibility(did).is_public(), exported, file, line });
                    let _ = t;
                }
                DefKind::Impl { of_trait } => {
                    let st = cx.ty(tcx.type_of(did).instantiate_identity().skip_norm_wip());
                    let mut tr = None;
                    if of_trait {
                        let r = tcx.impl_trait_ref(did).instantiate_identity().skip_norm_wip();
                        let p = cx.path(r.def_id);
                        tr = Some((p, cx.targs(r.args)));
                    }
                    let mut its = vec![];
                    let mut ats = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        let n = it.name().to_string();
                        match tcx.def_kind(it.def_id) {
                            DefKind::AssocFn => its.push((n, cx.fid(it.def_id))),
                            DefKind::AssocTy => { let t = cx.ty(tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip()); ats.push((n, t)) }
                            _ => {}
                        }
                    }
                    let preds = tcx.clauses_of(did).instantiate_identity(tcx).clauses.iter().map(|p| with_no_trimmed_paths!(format!("{:?}", p))).collect();
                    let module = cx.path(tcx.parent_module_from_def_id(d).to_def_id());
                    cr.impls.push(Impl { trait_: tr, self_ty: st, items: its, assoc_tys: ats, generics: cx.gnames(did), preds, file, line, module });
                }
                DefKind::Trait => {
                    let mut its = vec![];
                    for it in tcx.associated_items(did).in_definition_order() {
                        its.push((it.name().to_string(), it.defaultness(tcx).has_value()));
                    }
                    cr.traits.push(Trait { path: cx.path(did), items: its, exported });
                }
                DefKind::TyAlias => {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let g = tcx.generics_of(did);
                    let mut gs = vec![];
                    for p in &g.own_params {
                        if let ty::GenericParamDefKind::Type { has_default, .. } = p.kind {
                            let dt = if has_default { Some(cx.ty(tcx.type_of(p.def_id).instantiate_identity().skip_norm_wip())) } else { None };
                            gs.push((p.name.to_string(), dt));
                        }
                    }
                    cr.aliases.push(Alias { path: cx.path(did), generics: gs, ty: cx.ty(t), exported, file, line });
                }
                _ => {
                    let public = match k { DefKind::Use | DefKind::ExternCrate | DefKind::GlobalAsm => false, _ => tcx.visibility(did).is_public() };
                    cr.items.push(Item { path: cx.path(did), kind: format!("{:?}", k), public, exported, file, line });
                }
            }
        }
        // unsafe blocks and impls
        struct V<'tcx>(TyCtxt<'tcx>, Vec<rustc_span::Span>);
        impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for V<'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.0 }
            fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
                if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
                    if !b.span.in_external_macro(self.0.sess.source_map()) { self.1.push(b.span) }
                }
                rustc_hir::intravisit::walk_block(self, b);
            }
            fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
                if let rustc_hir::ItemKind::Impl(im) = &i.kind {
                    if let Some(t) = im.of_trait { if t.safety.is_unsafe() { self.1.push(i.span) } }
                }
                rustc_hir::intravisit::walk_item(self, i);
            }
        }
        let mut v = V(tcx, vec![]);
        tcx.hir_visit_all_item_likes_in_crate(&mut v);
        for s in v.1 {
            let (f, l) = cx.loc(s);
            if !s.from_expansion() { cr.unsafes.push(format!("{}:{}", f, l)) }
        }
        for (k, v) in tcx.sess.config.iter() {
            if k.as_str() == "feature" { if let Some(v) = v { cr.features.push(v.to_string()) } }
        }
        cr.features.sort();
        cr.tys = cx.tys;
        cr.insts = cx.out.into_iter().map(|x| x.unwrap_or_else(|| Inst { path: "?".into(), file: String::new(), line: 0, local: false, closure: false, root: String::new(), argc: 0, locals: vec![], blocks: vec![], promoted: vec![], spread: None })).collect();
        cr.discrs = cx.discrs.into_iter().collect();
        let f = std::fs::File::create(&out).unwrap();
        serde_json::to_writer(std::io::BufWriter::new(f), &cr).unwrap();
        rustc_driver::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1] == "rustc") { args.remove(1); }
    let is_target = args.iter().position(|a| a == "--crate-name").map(|i| args[i + 1] == "daab").unwrap_or(false)
        && !args.iter().any(|a| a == "--test");
    let out = if is_target { std::env::var("DAAB_DUMP").ok() } else { None };
    if out.is_some() {
        args.push("-Zmir-opt-level=0".into());
    }
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(move || { rustc_driver::compiler_entrypoint(&args, &mut cb) });
}
