//! Monomorphic MIR of the crate under analysis, as dumped by the driver.
use serde::{Deserialize, Serialize};

pub type TyId = usize;
pub type FnId = usize;
pub type Local = usize;
pub type Bb = usize;

#[derive(Serialize, Deserialize, Debug, Clone, Default)]
pub struct Program {
    pub types: Vec<Ty>,
    pub fns: Vec<Func>,
    /// (label, fn)
    pub roots: Vec<(String, FnId)>,
    /// mutable statics, thread locals, unsafe... of the local crate
    pub statics: Vec<StaticInfo>,
    /// all local impls: trait path, self type string, derived
    pub impls: Vec<ImplInfo>,
    /// all functions of the local crate by path (also generic ones)
    pub local_fns: Vec<String>,
    pub crate_attrs: Vec<String>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct StaticInfo {
    pub name: String,
    pub mutable: bool,
    pub ty: String,
    pub interior: bool,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct ImplInfo {
    pub trait_: String,
    pub self_ty: String,
    pub derived: bool,
    pub unsafe_: bool,
    pub negative: bool,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Ty {
    pub name: String,
    pub kind: TyKind,
    /// value may contain interior mutability (not Freeze)
    pub freeze: bool,
    /// type needs drop
    pub needs_drop: bool,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum TyKind {
    Bool,
    Char,
    Int { signed: bool, bits: u32 },
    Float,
    Str,
    Adt(Adt),
    Tuple(Vec<TyId>),
    Ref { mutable: bool, to: TyId },
    Ptr { mutable: bool, to: TyId },
    Slice(TyId),
    Array(TyId, u64),
    FnDef(Option<FnId>),
    FnPtr,
    Closure { body: Option<FnId>, upvars: Vec<TyId> },
    Dyn,
    Never,
    Other,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Adt {
    /// path without generic arguments
    pub path: String,
    pub kind: AdtKind,
    pub args: Vec<TyId>,
    pub variants: Vec<Variant>,
    pub local: bool,
    pub public: bool,
    /// is an uninhabited variant list etc. left to consumers
    pub doc: String,
}
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub enum AdtKind {
    Struct,
    Enum,
    Union,
    Box,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Variant {
    pub name: String,
    pub discr: i128,
    pub fields: Vec<Field>,
    pub doc: String,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Field {
    pub name: String,
    pub ty: TyId,
    pub doc: String,
    pub public: bool,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Func {
    /// path of the definition without generic arguments
    pub path: String,
    /// full instance name
    pub inst: String,
    /// "trait path::method" when this implements (or defaults) a trait method
    pub trait_item: Option<String>,
    pub kind: FnKind,
    pub self_ty: Option<TyId>,
    pub args: Vec<TyId>,
    pub local: bool,
    pub derived: bool,
    pub argc: usize,
    /// ty of params then... inputs; output
    pub inputs: Vec<TyId>,
    pub output: TyId,
    pub locals: Vec<LocalDecl>,
    pub blocks: Vec<Block>,
    pub has_body: bool,
    pub spread: bool,
    pub file: String,
    pub line: usize,
    pub is_closure: bool,
    /// crate it is defined in
    #[serde(default)]
    pub krate: String,
    pub track_caller: bool,
}
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq, Eq)]
pub enum FnKind {
    Item,
    Intrinsic,
    Virtual,
    Shim,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct LocalDecl {
    pub ty: TyId,
    pub name: Option<String>,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Block {
    pub cleanup: bool,
    pub stmts: Vec<(Stmt, usize)>,
    pub term: Term,
    pub line: usize,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Place {
    pub local: Local,
    pub proj: Vec<Proj>,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq)]
pub enum Proj {
    Deref,
    Field(usize, TyId),
    Index(Local),
    ConstIndex { offset: u64, from_end: bool, min: u64 },
    Subslice { from: u64, to: u64, from_end: bool },
    Downcast(usize),
    Opaque,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Operand {
    Copy(Place),
    Move(Place),
    Const(Const),
    RuntimeCheck(String),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub struct Const {
    pub ty: TyId,
    pub val: CVal,
}
#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
pub enum CVal {
    Int(i128),
    Bool(bool),
    Char(char),
    Float(String),
    Str(String),
    Bytes(Vec<u8>),
    /// reference to a value of the pointee type
    Ref(Box<CVal>),
    /// reference to slice
    SliceRef(Vec<CVal>),
    Array(Vec<CVal>),
    Tuple(Vec<CVal>),
    Adt(usize, Vec<CVal>),
    Zst,
    Fn(Option<FnId>),
    Static(String),
    Unknown,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Stmt {
    Assign(Place, Rvalue),
    SetDiscr(Place, usize),
    Live(Local),
    Dead(Local),
    Assume(Operand),
    Other,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Rvalue {
    Use(Operand),
    Ref { mutable: bool, place: Place },
    AddrOf { mutable: bool, place: Place },
    Agg(AggKind, Vec<Operand>),
    Bin(String, Operand, Operand),
    CheckedBin(String, Operand, Operand),
    Un(String, Operand),
    Cast(String, Operand, TyId),
    Discr(Place),
    Len(Place),
    Repeat(Operand, u64),
    ThreadLocal(String),
    Other(String),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum AggKind {
    Array(TyId),
    Tuple,
    Adt { ty: TyId, variant: usize, union_field: Option<usize> },
    Closure(TyId),
    RawPtr(TyId),
    Other,
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Term {
    Goto(Bb),
    Switch { discr: Operand, ty: TyId, arms: Vec<(u128, Bb)>, otherwise: Bb },
    Return,
    Unreachable,
    Resume,
    Drop { place: Place, target: Bb, ty: TyId },
    Call { callee: Callee, args: Vec<Operand>, dest: Place, target: Option<Bb>, line: usize, file: String },
    Assert { cond: Operand, expected: bool, msg: String, ops: Vec<Operand>, target: Bb, line: usize, file: String },
    Other(String),
}
#[derive(Serialize, Deserialize, Debug, Clone)]
pub enum Callee {
    Fn(FnId),
    Ptr(Operand),
}
