// Intermediate representation shared by the compiler driver (writer) and the
// analysis engine (reader).  Everything here is a faithful dump of what the
// compiler resolved: monomorphised MIR bodies, types, constants and tables.
use serde::{Deserialize, Serialize};

pub type TyId = u32;
pub type FnId = u32;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Field {
    pub name: String,
    pub ty: TyId,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Variant {
    pub name: String,
    pub discr: u128,
    pub fields: Vec<Field>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum AdtKind {
    Struct,
    Enum,
    Union,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum TypeKind {
    Bool,
    Char,
    Int { bits: u32, signed: bool },
    Float { bits: u32 },
    Adt { name: String, full: String, kind: AdtKind, variants: Vec<Variant>, local: bool, args: Vec<TyId> },
    Tuple(Vec<TyId>),
    Array(TyId, u64),
    Slice(TyId),
    Str,
    Ref { ty: TyId, mutable: bool },
    Ptr { ty: TyId, mutable: bool },
    FnDef { func: Option<FnId>, name: String },
    FnPtr,
    Closure { name: String, upvars: Vec<TyId> },
    Dynamic,
    Never,
    Other(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Type {
    pub kind: TypeKind,
    pub size: Option<u64>,
    pub align: Option<u64>,
    pub discr_ty: Option<TyId>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Proj {
    Deref,
    Field(u32, TyId),
    Index(u32),
    ConstIndex { offset: u64, min_len: u64, from_end: bool },
    Subslice { from: u64, to: u64, from_end: bool },
    Downcast(u32),
    Cast(TyId),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Place {
    pub local: u32,
    pub proj: Vec<Proj>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum CVal {
    Bits(u128),
    /// struct / tuple / array / closure
    Agg(Vec<CVal>),
    /// enum with a chosen variant
    Enum(u32, Vec<CVal>),
    /// thin or wide reference into a global allocation
    RefAlloc { alloc: u32, offset: u64, meta: Option<u64> },
    RefStatic { stat: u32, offset: u64 },
    FnPtr(Option<FnId>, String),
    Zst,
    Str(String),
    Opaque(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Operand {
    Copy(Place),
    Move(Place),
    Const { ty: TyId, val: CVal },
    RuntimeCheck(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Agg {
    Array(TyId),
    Tuple,
    Adt { ty: TyId, variant: u32, union_field: Option<u32> },
    Closure(TyId),
    RawPtr(TyId),
    Other(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Rvalue {
    Use(Operand),
    Repeat(Operand, u64),
    Ref { place: Place, mutable: bool, raw: bool },
    Len(Place),
    Cast { kind: String, op: Operand, ty: TyId },
    Bin { op: String, a: Operand, b: Operand, checked: bool },
    Un { op: String, a: Operand },
    Discr(Place),
    Aggregate(Agg, Vec<Operand>),
    Other(String),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum StmtKind {
    Assign(Place, Rvalue),
    SetDiscr(Place, u32),
    Live(u32),
    Dead(u32),
    Assume(Operand),
    Copy(Operand, Operand, Operand),
    Nop,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Stmt {
    pub kind: StmtKind,
    pub line: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Callee {
    pub func: FnId,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Term {
    Goto(u32),
    Switch { op: Operand, targets: Vec<(u128, u32)>, otherwise: u32, ty: TyId },
    Return,
    Unreachable,
    Resume,
    Abort,
    Drop { place: Place, target: u32 },
    Call { func: Operand, callee: Option<FnId>, args: Vec<Operand>, dest: Place, target: Option<u32> },
    Assert { cond: Operand, expected: bool, msg: String, ops: Vec<Operand>, target: u32 },
    Asm,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Block {
    pub stmts: Vec<Stmt>,
    pub term: Term,
    pub line: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Body {
    pub locals: Vec<TyId>,
    pub local_names: Vec<Option<String>>,
    pub arg_count: u32,
    pub spread_arg: Option<u32>,
    pub blocks: Vec<Block>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Func {
    pub name: String,     // instance name with generic arguments
    pub def: String,      // definition path
    pub krate: String,
    pub local: bool,
    pub is_pub: bool,
    pub is_unsafe: bool,
    pub kind: String,     // Item / Intrinsic / Shim / Virtual
    pub intrinsic: Option<String>,
    pub file: String,
    pub line: u32,
    pub targs: Vec<TyId>,
    pub aux: Vec<FnId>, // into_iter and next for conversions from iterators
    pub inputs: Vec<TyId>,
    pub output: TyId,
    pub foreign: bool,
    pub body: Option<Body>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Global {
    pub ty: TyId,
    pub val: CVal,
    pub mutable: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Item {
    pub name: String,
    pub kind: String, // const / static
    pub ty: TyId,
    pub val: CVal,
    pub mutable: bool,
    pub freeze: bool,
    pub is_pub: bool,
    pub file: String,
    pub line: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Program {
    pub types: Vec<Type>,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub statics: Vec<Item>,
    pub items: Vec<Item>,
    pub roots: Vec<FnId>,
    pub generic_local_fns: Vec<String>,
    pub foreign_items: u32,
}
