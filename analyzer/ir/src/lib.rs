//! Serialisable form of a type-checked crate: the MIR of its functions and its items.
use serde::{Deserialize, Serialize};

pub type TyId = u32;

#[derive(Serialize, Deserialize, Debug, Clone, Default)]
pub struct Crate {
    pub name: String,
    pub debug_assertions: bool,
    pub features: Vec<String>,
    pub tys: Vec<Ty>,
    pub fns: Vec<Fn>,
    pub insts: Vec<Inst>,
    /// Discriminant values of the enums used (path, values), where they are not the indices.
    pub discrs: Vec<(String, Vec<i128>)>,
    pub adts: Vec<Adt>,
    pub statics: Vec<StaticItem>,
    pub impls: Vec<Impl>,
    pub traits: Vec<Trait>,
    pub aliases: Vec<Alias>,
    pub items: Vec<Item>,
    /// Spans of `unsafe` blocks, functions and impls.
    pub unsafes: Vec<String>,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
pub enum Ty {
    /// Path, type arguments (lifetimes dropped).
    Adt(String, Vec<TyId>),
    Ref(bool, TyId),
    Ptr(bool, TyId),
    Tuple(Vec<TyId>),
    Param(String),
    /// Trait path, item name, all arguments (first is Self).
    Proj(String, String, Vec<TyId>),
    Closure(String, Vec<TyId>),
    FnDef(Callee),
    FnPtr(String),
    Dyn(String, Vec<TyId>),
    Array(TyId, String),
    Slice(TyId),
    Never,
    Prim(String),
    Other(String),
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
pub struct Callee {
    /// Path of the item as written (trait method path for trait methods).
    pub path: String,
    /// All generic arguments (types only), parent ones first.
    pub args: Vec<TyId>,
    /// Path of the trait if it is a trait method.
    pub trait_: Option<String>,
    /// Name of the item.
    pub name: String,
    /// Path of the function it resolves to (equals `path` if it does not resolve).
    pub rpath: String,
    /// Whether the resolved function is one of this crate.
    pub local: bool,
    /// Whether it is resolved (false: a method of a type parameter or trait object).
    pub resolved: bool,
    /// Body of the resolved function.
    pub inst: Option<u32>,
    /// For functions without body: iterator methods of its type arguments.
    pub aux: Vec<Aux>,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
pub struct Aux {
    pub ty: TyId,
    /// "next" or "into_iter"
    pub name: String,
    pub callee: Box<Callee>,
}

/// A function of the crate.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Fn {
    pub id: String,
    /// Readable path.
    pub path: String,
    pub name: String,
    pub file: String,
    pub line: u32,
    /// "fn", "assoc"
    pub kind: String,
    pub public: bool,
    /// Generic parameter names, parents' first, as in `Callee::args`.
    pub generics: Vec<String>,
    pub impl_self: Option<TyId>,
    pub impl_trait: Option<(String, Vec<TyId>)>,
    pub trait_default: Option<String>,
    /// Effectively reachable from outside of the crate.
    pub exported: bool,
    pub unsafe_fn: bool,
    pub sig_inputs: Vec<TyId>,
    pub sig_output: Option<TyId>,
    pub module: String,
    /// Body with the function's own parameters.
    pub inst: Option<u32>,
    /// Argument tuples of the closures it is given.
    pub callback_args: Vec<TyId>,
}

/// A function body, in terms of the type parameters of the root it was reached from.
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Inst {
    pub path: String,
    pub file: String,
    pub line: u32,
    pub local: bool,
    pub closure: bool,
    /// Id of the root function
    pub root: String,
    pub argc: usize,
    pub locals: Vec<Local>,
    pub blocks: Vec<Block>,
    pub promoted: Vec<Inst>,
    /// Local holding the spread tuple of arguments (rust-call ABI), if any.
    pub spread: Option<u32>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Local {
    pub ty: TyId,
    pub name: Option<String>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Block {
    pub stmts: Vec<Stmt>,
    pub term: Term,
    pub term_span: Span,
    pub cleanup: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct Span {
    pub file: String,
    pub line: u32,
    /// Name of the outermost macro this comes from.
    pub mac: Option<String>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Stmt {
    pub kind: StmtKind,
    pub line: u32,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum StmtKind {
    Assign(Place, Rvalue),
    SetDiscr(Place, u32),
    StorageLive(u32),
    StorageDead(u32),
    Nop,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
pub struct Place {
    pub local: u32,
    pub proj: Vec<Proj>,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
pub enum Proj {
    Deref,
    Field(u32, TyId),
    Downcast(u32),
    Index(u32),
    ConstIndex(u64, bool),
    Subslice(u64, u64, bool),
    Other,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Operand {
    Copy(Place),
    Move(Place),
    Const(Const),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Const {
    pub ty: TyId,
    pub val: ConstVal,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum ConstVal {
    Int(i128),
    Bool(bool),
    Str(String),
    Bytes(Vec<u8>),
    Fn(Callee),
    Zst,
    /// A constructor applied to constants: variant and fields.
    Ctor(u32, Vec<Const>),
    Promoted(u32),
    /// A named constant or static.
    Named(String),
    Other(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Rvalue {
    Use(Operand),
    Ref(bool, Place),
    RawPtr(bool, Place),
    /// kind, operand, target type
    Cast(String, Operand, TyId),
    Bin(String, Operand, Operand),
    Un(String, Operand),
    Discr(Place),
    Agg(Agg, Vec<Operand>),
    Repeat(Operand),
    Static(String),
    Other(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Agg {
    Tuple,
    Array,
    /// path, variant index, variant name, type
    Adt(String, u32, String, TyId),
    Closure(Option<u32>, TyId),
    Other(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Term {
    Goto(u32),
    /// operand, (value, target)*, otherwise
    Switch(Operand, Vec<(i128, u32)>, u32),
    Return,
    Unreachable,
    Resume,
    Drop(Place, u32, Option<u32>),
    Call { func: Operand, args: Vec<Operand>, dest: Place, target: Option<u32>, unwind: Option<u32> },
    /// operand, expected, message, target
    Assert(Operand, bool, String, u32),
    Other(String),
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Adt {
    pub path: String,
    pub kind: String,
    pub exported: bool,
    pub public: bool,
    pub generics: Vec<String>,
    pub variants: Vec<Variant>,
    pub file: String,
    pub line: u32,
    pub has_drop: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Variant {
    pub name: String,
    pub fields: Vec<Field>,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Field {
    pub name: String,
    pub ty: TyId,
    /// "pub", "crate", or restricted path
    pub vis: String,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct StaticItem {
    pub path: String,
    pub ty: TyId,
    pub mutable: bool,
    pub freeze: bool,
    pub thread_local: bool,
    pub file: String,
    pub line: u32,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Impl {
    pub trait_: Option<(String, Vec<TyId>)>,
    pub self_ty: TyId,
    pub items: Vec<(String, String)>,
    pub assoc_tys: Vec<(String, TyId)>,
    pub generics: Vec<String>,
    pub preds: Vec<String>,
    pub file: String,
    pub line: u32,
    pub module: String,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Trait {
    pub path: String,
    pub items: Vec<(String, bool)>,
    pub exported: bool,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Alias {
    pub path: String,
    pub generics: Vec<(String, Option<TyId>)>,
    pub ty: TyId,
    pub exported: bool,
    pub file: String,
    pub line: u32,
}

#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Item {
    pub path: String,
    pub kind: String,
    pub public: bool,
    pub exported: bool,
    pub file: String,
    pub line: u32,
}
