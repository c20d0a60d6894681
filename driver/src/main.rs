#![feature(rustc_private)]
#![allow(warnings)]
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;
#[macro_use]
extern crate rustc_public;

#[path = "../../common/ir.rs"]
mod ir;

use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::mir;
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind, StaticDef};
use rustc_public::ty::{
    Allocation, ClosureKind, ConstantKind, FloatTy, GenericArgKind, IntTy, MirConst,
    RigidTy, Ty, TyKind, UintTy,
};
use rustc_public::{CrateDef, CrateDefType, ItemKind};
use std::collections::{HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Ctx<'tcx> {
    tcx: rustc_middle::ty::TyCtxt<'tcx>,
    types: Vec<ir::Type>,
    ty_map: HashMap<Ty, ir::TyId>,
    funcs: Vec<ir::Func>,
    fn_map: HashMap<Instance, ir::FnId>,
    queue: VecDeque<(Instance, ir::FnId)>,
    globals: Vec<ir::Global>,
    glob_map: HashMap<(AllocId, Ty, u64), u32>,
    statics: Vec<ir::Item>,
    stat_map: HashMap<rustc_public::DefId, u32>,
    pub_defs: HashSet<rustc_span::def_id::LocalDefId>,
}

fn span_file(sp: rustc_public::ty::Span) -> String {
    sp.get_filename().to_string()
}
fn span_line(sp: rustc_public::ty::Span) -> u32 {
    sp.get_lines().start_line as u32
}

const STOP: &[&str] = &[
    "core::fmt", "std::fmt", "alloc::fmt", "core::panicking", "std::panicking", "std::rt", "std::io",
    "alloc::alloc", "std::alloc", "alloc::raw_vec", "core::alloc", "alloc::string", "std::string", "core::str",
    "std::thread", "std::sys", "std::hash", "std::collections::hash", "hashbrown", "thiserror", "std::backtrace",
    "std::error", "core::error",
];

impl<'tcx> Ctx<'tcx> {
    fn is_pub(&self, did: rustc_public::DefId) -> bool {
        let d = rustc_public::rustc_internal::internal(self.tcx, did);
        match d.as_local() {
            Some(l) => self.pub_defs.contains(&l),
            None => true,
        }
    }

    fn ty(&mut self, t: Ty) -> ir::TyId {
        if let Some(&i) = self.ty_map.get(&t) {
            return i;
        }
        let id = self.types.len() as ir::TyId;
        self.ty_map.insert(t, id);
        self.types.push(ir::Type { kind: ir::TypeKind::Other("pending".into()), size: None, align: None, discr_ty: None });
        {
            use rustc_middle::ty::TypeVisitableExt;
            let it = rustc_public::rustc_internal::internal(self.tcx, t);
            if it.has_escaping_bound_vars() {
                self.types[id as usize].kind = ir::TypeKind::Other(format!("bound:{}", it));
                return id;
            }
        }
        let mut discr_ty = None;
        let kind = match t.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => ir::TypeKind::Bool,
                RigidTy::Char => ir::TypeKind::Char,
                RigidTy::Int(i) => ir::TypeKind::Int {
                    bits: match i {
                        IntTy::Isize => 64,
                        IntTy::I8 => 8,
                        IntTy::I16 => 16,
                        IntTy::I32 => 32,
                        IntTy::I64 => 64,
                        IntTy::I128 => 128,
                    },
                    signed: true,
                },
                RigidTy::Uint(i) => ir::TypeKind::Int {
                    bits: match i {
                        UintTy::Usize => 64,
                        UintTy::U8 => 8,
                        UintTy::U16 => 16,
                        UintTy::U32 => 32,
                        UintTy::U64 => 64,
                        UintTy::U128 => 128,
                    },
                    signed: false,
                },
                RigidTy::Float(f) => ir::TypeKind::Float {
                    bits: match f {
                        FloatTy::F16 => 16,
                        FloatTy::F32 => 32,
                        FloatTy::F64 => 64,
                        FloatTy::F128 => 128,
                    },
                },
                RigidTy::Adt(def, args) => {
                    let k = match def.kind() {
                        rustc_public::ty::AdtKind::Enum => ir::AdtKind::Enum,
                        rustc_public::ty::AdtKind::Union => ir::AdtKind::Union,
                        rustc_public::ty::AdtKind::Struct => ir::AdtKind::Struct,
                    };
                    if def.kind().is_enum() {
                        discr_ty = Some(self.ty(t.kind().discriminant_ty().unwrap()));
                    }
                    let mut vs = vec![];
                    for v in def.variants() {
                        let mut fs = vec![];
                        for f in v.fields() {
                            let ft = f.ty_with_args(&args);
                            fs.push(ir::Field { name: f.name.to_string(), ty: self.ty(ft) });
                        }
                        let discr = if def.kind().is_enum() { def.discriminant_for_variant(v.idx()).val } else { 0 };
                        vs.push(ir::Variant { name: v.name(), discr, fields: fs });
                    }
                    let mut targs = vec![];
                    for a in args.0.iter() {
                        if let GenericArgKind::Type(t) = a {
                            targs.push(self.ty(*t));
                        }
                    }
                    ir::TypeKind::Adt {
                        name: def.name(),
                        full: format!("{}", self.tystr(t)),
                        kind: k,
                        variants: vs,
                        local: def.krate().is_local,
                        args: targs,
                    }
                }
                RigidTy::Str => ir::TypeKind::Str,
                RigidTy::Array(e, n) => {
                    let n = n.eval_target_usize().unwrap_or(u64::MAX);
                    ir::TypeKind::Array(self.ty(e), n)
                }
                RigidTy::Slice(e) => ir::TypeKind::Slice(self.ty(e)),
                RigidTy::RawPtr(e, m) => ir::TypeKind::Ptr { ty: self.ty(e), mutable: m == mir::Mutability::Mut },
                RigidTy::Ref(_, e, m) => ir::TypeKind::Ref { ty: self.ty(e), mutable: m == mir::Mutability::Mut },
                RigidTy::FnDef(def, args) => {
                    let f = Instance::resolve(def, &args).ok().map(|i| self.func(i));
                    ir::TypeKind::FnDef { func: f, name: def.name() }
                }
                RigidTy::FnPtr(_) => ir::TypeKind::FnPtr,
                RigidTy::Closure(def, args) => {
                    let mut ups = vec![];
                    if let Some(GenericArgKind::Type(t)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                            for x in ts {
                                ups.push(self.ty(x));
                            }
                        }
                    }
                    ir::TypeKind::Closure { name: def.name(), upvars: ups }
                }
                RigidTy::Dynamic(..) => ir::TypeKind::Dynamic,
                RigidTy::Never => ir::TypeKind::Never,
                RigidTy::Tuple(ts) => ir::TypeKind::Tuple(ts.into_iter().map(|x| self.ty(x)).collect()),
                RigidTy::Pat(b, _) => ir::TypeKind::Other(format!("pat:{}", self.tystr(b))),
                other => ir::TypeKind::Other(format!("{:?}", other)),
            },
            other => ir::TypeKind::Other(format!("{:?}", other)),
        };
        let (size, align) = match t.layout() {
            Ok(l) => {
                let s = l.shape();
                if s.is_sized() { (Some(s.size.bytes() as u64), Some(s.abi_align)) } else { (None, Some(s.abi_align)) }
            }
            Err(_) => (None, None),
        };
        self.types[id as usize] = ir::Type { kind, size, align, discr_ty };
        id
    }

    fn tystr(&self, t: Ty) -> String {
        let s = rustc_public::rustc_internal::internal(self.tcx, t);
        format!("{}", s)
    }

    fn func(&mut self, inst: Instance) -> ir::FnId {
        if let Some(&i) = self.fn_map.get(&inst) {
            return i;
        }
        let id = self.funcs.len() as ir::FnId;
        self.fn_map.insert(inst, id);
        let sp = inst.def.span();
        let kind = match inst.kind {
            InstanceKind::Item => "Item".to_string(),
            InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => "Intrinsic".to_string(),
            InstanceKind::Virtual { .. } => "Virtual".to_string(),
            InstanceKind::Shim => "Shim".to_string(),
        };
        let krate = inst.def.krate();
        let intrinsic = inst.intrinsic_name();
        let f = ir::Func {
            name: inst.name(),
            def: inst.def.name(),
            krate: krate.name.clone(),
            local: krate.is_local,
            is_pub: krate.is_local && self.is_pub(inst.def.def_id()),
            is_unsafe: false,
            kind,
            intrinsic,
            file: span_file(sp),
            line: span_line(sp),
            targs: vec![],
            aux: vec![],
            inputs: vec![],
            output: 0,
            foreign: inst.is_foreign_item(),
            body: None,
        };
        self.funcs.push(f);
        self.queue.push_back((inst, id));
        id
    }

    /// `into_iter` of an iterable type and `next` of what that returns
    fn iteration(&mut self, t: Ty) -> Vec<ir::FnId> {
        use rustc_public::rustc_internal::{internal, stable};
        let tcx = self.tcx;
        let li = tcx.lang_items();
        let (into, next) = match (li.into_iter_fn(), li.next_fn()) { (Some(a), Some(b)) => (a, b), _ => return vec![] };
        let env = rustc_middle::ty::TypingEnv::fully_monomorphized();
        let it = internal(tcx, t);
        let a = tcx.mk_args(&[it.into()]);
        let i1 = match rustc_middle::ty::Instance::try_resolve(tcx, env, into, a) { Ok(Some(i)) => stable(i), _ => return vec![] };
        let f1 = self.func(i1);
        let out = match i1.ty().kind().fn_sig() { Some(s) => s.skip_binder().output(), None => return vec![f1] };
        let o = internal(tcx, out);
        let o = tcx.normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(o));
        let a = tcx.mk_args(&[o.into()]);
        match rustc_middle::ty::Instance::try_resolve(tcx, env, next, a) { Ok(Some(i)) => { let i = stable(i); let f2 = self.func(i); vec![f1, f2] } _ => vec![f1] }
    }

    fn process(&mut self, inst: Instance, id: ir::FnId) {
        let def = self.funcs[id as usize].def.clone();
        let name = self.funcs[id as usize].name.clone();
        let local = self.funcs[id as usize].local;
        if !local {
            for s in STOP {
                if def.starts_with(s) || name.starts_with(&format!("<{}", s)) {
                    return;
                }
            }
            if name.contains("drop_in_place") {
                return;
            }
            if name.contains("fmt::Debug") || name.contains("fmt::Display") {
                return;
            }
        }
        let mut targs = vec![];
        for a in inst.args().0.iter() {
            if let GenericArgKind::Type(t) = a {
                targs.push(self.ty(*t));
            }
        }
        self.funcs[id as usize].targs = targs;
        if !local && (def.ends_with("::from_iter") || def.ends_with("::extend")) {
            // the conversions that consume an arbitrary iterator: how to start and advance it
            let it = inst.args().0.iter().rev().find_map(|a| if let GenericArgKind::Type(t) = a { Some(*t) } else { None });
            if let Some(it) = it {
                let aux = self.iteration(it);
                self.funcs[id as usize].aux = aux;
            }
        }
        let ity = inst.ty();
        let sig = ity.kind().fn_sig();
        if let Some(sig) = sig {
            let sig = sig.skip_binder();
            self.funcs[id as usize].is_unsafe = sig.safety == mir::Safety::Unsafe;
            let out = self.ty(sig.output());
            self.funcs[id as usize].output = out;
            let ins: Vec<Ty> = sig.inputs().to_vec();
            let ins = ins.into_iter().map(|t| self.ty(t)).collect();
            self.funcs[id as usize].inputs = ins;
            if matches!(sig.output().kind(), TyKind::RigidTy(RigidTy::Never)) {
                return;
            }
        }
        if matches!(inst.kind, InstanceKind::Virtual { .. }) || self.funcs[id as usize].foreign {
            return;
        }
        let body = match inst.body() {
            Some(b) => b,
            None => return,
        };
        let b = self.body(&body);
        let f = &mut self.funcs[id as usize];
        f.inputs = b.locals[1..=(b.arg_count as usize)].to_vec();
        f.output = b.locals[0];
        f.body = Some(b);
    }

    fn body(&mut self, b: &mir::Body) -> ir::Body {
        let locals: Vec<ir::TyId> = b.locals().iter().map(|l| self.ty(l.ty)).collect();
        let mut names = vec![None; locals.len()];
        for v in &b.var_debug_info {
            if let Some(l) = v.local() {
                names[l] = Some(v.name.clone());
            }
        }
        let tys: Vec<Ty> = b.locals().iter().map(|l| l.ty).collect();
        let _ = tys;
        let blocks = b
            .blocks
            .iter()
            .map(|bb| {
                let stmts = bb
                    .statements
                    .iter()
                    .map(|s| ir::Stmt { kind: self.stmt(&s.kind, b), line: span_line(s.source_info.span) })
                    .collect();
                ir::Block { stmts, term: self.term(&bb.terminator, b), line: span_line(bb.terminator.source_info.span) }
            })
            .collect();
        ir::Body {
            locals,
            local_names: names,
            arg_count: b.arg_locals().len() as u32,
            spread_arg: b.spread_arg().map(|x| x as u32),
            blocks,
        }
    }

    fn place(&mut self, p: &mir::Place) -> ir::Place {
        let proj = p
            .projection
            .iter()
            .map(|e| match e {
                mir::ProjectionElem::Deref => ir::Proj::Deref,
                mir::ProjectionElem::Field(i, t) => ir::Proj::Field(*i as u32, self.ty(*t)),
                mir::ProjectionElem::Index(l) => ir::Proj::Index(*l as u32),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    ir::Proj::ConstIndex { offset: *offset, min_len: *min_length, from_end: *from_end }
                }
                mir::ProjectionElem::Subslice { from, to, from_end } => {
                    ir::Proj::Subslice { from: *from, to: *to, from_end: *from_end }
                }
                mir::ProjectionElem::Downcast(v) => ir::Proj::Downcast(vidx(*v)),
                mir::ProjectionElem::OpaqueCast(t) => ir::Proj::Cast(self.ty(*t)),
            })
            .collect();
        ir::Place { local: p.local as u32, proj }
    }

    fn operand(&mut self, o: &mir::Operand) -> ir::Operand {
        match o {
            mir::Operand::Copy(p) => ir::Operand::Copy(self.place(p)),
            mir::Operand::Move(p) => ir::Operand::Move(self.place(p)),
            mir::Operand::Constant(c) => {
                let ty = c.const_.ty();
                let val = self.constant(&c.const_);
                ir::Operand::Const { ty: self.ty(ty), val }
            }
            mir::Operand::RuntimeChecks(r) => ir::Operand::RuntimeCheck(format!("{:?}", r)),
        }
    }

    fn constant(&mut self, c: &MirConst) -> ir::CVal {
        let ty = c.ty();
        match c.kind() {
            ConstantKind::ZeroSized => {
                self.ty(ty);
                self.zst(ty)
            }
            ConstantKind::Allocated(a) => self.decode(a, 0, ty),
            ConstantKind::Ty(tc) => match tc.kind() {
                rustc_public::ty::TyConstKind::Value(_, a) => self.decode(a, 0, ty),
                rustc_public::ty::TyConstKind::ZSTValue(_) => self.zst(ty),
                o => ir::CVal::Opaque(format!("tyconst {:?}", o)),
            },
            o => ir::CVal::Opaque(format!("const {:?}", o)),
        }
    }

    fn zst(&mut self, ty: Ty) -> ir::CVal {
        match ty.kind() {
            TyKind::RigidTy(RigidTy::Tuple(ts)) => ir::CVal::Agg(ts.into_iter().map(|t| self.zst(t)).collect()),
            TyKind::RigidTy(RigidTy::Adt(def, args)) if def.kind().is_struct() => {
                let v = &def.variants()[0];
                ir::CVal::Agg(v.fields().iter().map(|f| { let t = f.ty_with_args(&args); self.zst(t) }).collect())
            }
            TyKind::RigidTy(RigidTy::Array(..)) => ir::CVal::Agg(vec![]),
            _ => ir::CVal::Zst,
        }
    }

    fn static_id(&mut self, s: StaticDef) -> u32 {
        let did = s.def_id();
        if let Some(&i) = self.stat_map.get(&did) {
            return i;
        }
        let id = self.statics.len() as u32;
        self.stat_map.insert(did, id);
        let sp = s.span();
        let t = Instance::from(s).ty();
        let tyid = self.ty(t);
        let idid = rustc_public::rustc_internal::internal(self.tcx, did);
        let mutable = self.tcx.is_mutable_static(idid);
        let freeze = self.freeze(t);
        let it = ir::Item {
            name: s.name(),
            kind: "static".into(),
            ty: tyid,
            val: ir::CVal::Zst,
            mutable,
            freeze,
            is_pub: self.is_pub(did),
            file: span_file(sp),
            line: span_line(sp),
        };
        self.statics.push(it);
        let val = match s.eval_initializer() {
            Ok(a) => self.decode(&a, 0, t),
            Err(e) => ir::CVal::Opaque(format!("{:?}", e)),
        };
        self.statics[id as usize].val = val;
        id
    }

    fn freeze(&self, t: Ty) -> bool {
        let it = rustc_public::rustc_internal::internal(self.tcx, t);
        it.is_freeze(self.tcx, rustc_middle::ty::TypingEnv::fully_monomorphized())
    }

    fn read_uint(a: &Allocation, off: u64, n: u64) -> Option<u128> {
        a.read_partial_uint(off as usize..(off + n) as usize).ok()
    }

    fn decode(&mut self, a: &Allocation, off: u64, ty: Ty) -> ir::CVal {
        let layout = match ty.layout() {
            Ok(l) => l.shape(),
            Err(e) => return ir::CVal::Opaque(format!("{:?}", e)),
        };
        let size = layout.size.bytes() as u64;
        let k = match ty.kind() {
            TyKind::RigidTy(r) => r,
            o => return ir::CVal::Opaque(format!("{:?}", o)),
        };
        match k {
            RigidTy::Bool | RigidTy::Char | RigidTy::Int(_) | RigidTy::Uint(_) | RigidTy::Float(_) => {
                match Self::read_uint(a, off, size) {
                    Some(v) => ir::CVal::Bits(v),
                    None => ir::CVal::Opaque("uninit".into()),
                }
            }
            RigidTy::Tuple(ts) => {
                let offs = field_offsets(&layout.fields);
                ir::CVal::Agg(ts.iter().enumerate().map(|(i, t)| self.decode(a, off + offs[i], *t)).collect())
            }
            RigidTy::Array(e, n) => {
                let n = n.eval_target_usize().unwrap();
                let es = e.layout().unwrap().shape().size.bytes() as u64;
                ir::CVal::Agg((0..n).map(|i| self.decode(a, off + i * es, e)).collect())
            }
            RigidTy::Adt(def, args) => {
                if def.kind().is_struct() {
                    let offs = field_offsets(&layout.fields);
                    let v = def.variants()[0];
                    ir::CVal::Agg(
                        v.fields()
                            .iter()
                            .enumerate()
                            .map(|(i, f)| {
                                let t = f.ty_with_args(&args);
                                self.decode(a, off + offs[i], t)
                            })
                            .collect(),
                    )
                } else if def.kind().is_enum() {
                    let variants = def.variants();
                    let (vi, vf): (usize, Vec<u64>) = match &layout.variants {
                        VariantsShape::Empty => return ir::CVal::Opaque("empty enum".into()),
                        VariantsShape::Single { index } => (vidx(*index) as usize, field_offsets(&layout.fields)),
                        VariantsShape::Multiple { tag, tag_encoding, tag_field, variants: vfs } => {
                            let toff = field_offsets(&layout.fields)[*tag_field];
                            let tsz = match tag {
                                rustc_public::abi::Scalar::Initialized { value, .. }
                                | rustc_public::abi::Scalar::Union { value } => {
                                    value.size(&rustc_public::target::MachineInfo::target()).bytes() as u64
                                }
                            };
                            let has_prov = a.provenance.ptrs.iter().any(|(s, _)| *s as u64 == off + toff);
                            let tagv = Self::read_uint(a, off + toff, tsz);
                            let vi = match tag_encoding {
                                TagEncoding::Direct => {
                                    let tv = match tagv { Some(v) => v, None => return ir::CVal::Opaque("uninit tag".into()) };
                                    let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                    match variants.iter().position(|v| def.discriminant_for_variant(v.idx()).val & mask == tv) {
                                        Some(p) => p,
                                        None => return ir::CVal::Opaque("bad tag".into()),
                                    }
                                }
                                TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                                    if has_prov {
                                        vidx(*untagged_variant) as usize
                                    } else {
                                        let tv = match tagv { Some(v) => v, None => return ir::CVal::Opaque("uninit tag".into()) };
                                        let mask = if tsz >= 16 { u128::MAX } else { (1u128 << (tsz * 8)) - 1 };
                                        let rel = tv.wrapping_sub(*niche_start) & mask;
                                        let lo = vidx(*niche_variants.start()) as u128;
                                        let hi = vidx(*niche_variants.end()) as u128;
                                        if rel <= hi - lo { (lo + rel) as usize } else { vidx(*untagged_variant) as usize }
                                    }
                                }
                            };
                            (vi, vfs[vi].offsets.iter().map(|s| s.bytes() as u64).collect())
                        }
                    };
                    let fs = variants[vi]
                        .fields()
                        .iter()
                        .enumerate()
                        .map(|(i, f)| {
                            let t = f.ty_with_args(&args);
                            self.decode(a, off + vf[i], t)
                        })
                        .collect();
                    ir::CVal::Enum(vi as u32, fs)
                } else {
                    ir::CVal::Opaque("union".into())
                }
            }
            RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => {
                let prov = a.provenance.ptrs.iter().find(|(s, _)| *s as u64 == off);
                let o = Self::read_uint(a, off, 8).unwrap_or(0) as u64;
                match prov {
                    None => ir::CVal::Bits(o as u128),
                    Some((_, p)) => {
                        let meta = if size == 16 { Self::read_uint(a, off + 8, 8).map(|x| x as u64) } else { None };
                        self.decode_ptr(p.0, o, t, meta)
                    }
                }
            }
            RigidTy::FnPtr(_) => {
                let prov = a.provenance.ptrs.iter().find(|(s, _)| *s as u64 == off);
                match prov {
                    Some((_, p)) => match GlobalAlloc::from(p.0) {
                        GlobalAlloc::Function(i) => {
                            let n = i.name();
                            ir::CVal::FnPtr(Some(self.func(i)), n)
                        }
                        _ => ir::CVal::Opaque("fnptr".into()),
                    },
                    None => ir::CVal::Opaque("fnptr".into()),
                }
            }
            RigidTy::FnDef(..) | RigidTy::Never => ir::CVal::Zst,
            RigidTy::Closure(..) => ir::CVal::Zst,
            RigidTy::Pat(b, _) => self.decode(a, off, b),
            o => ir::CVal::Opaque(format!("{:?}", o)),
        }
    }

    fn decode_ptr(&mut self, aid: AllocId, o: u64, t: Ty, meta: Option<u64>) -> ir::CVal {
        match GlobalAlloc::from(aid) {
            GlobalAlloc::Memory(m) => {
                match t.kind() {
                    TyKind::RigidTy(RigidTy::Str) => {
                        let n = meta.unwrap_or(0);
                        let bytes: Vec<u8> =
                            m.bytes[o as usize..(o + n) as usize].iter().map(|b| b.unwrap_or(0)).collect();
                        return ir::CVal::Str(String::from_utf8_lossy(&bytes).to_string());
                    }
                    TyKind::RigidTy(RigidTy::Dynamic(..)) => return ir::CVal::Opaque("dyn".into()),
                    _ => {}
                }
                let key = (aid, t, o + (meta.unwrap_or(0) << 32));
                if let Some(&g) = self.glob_map.get(&key) {
                    return ir::CVal::RefAlloc { alloc: g, offset: 0, meta };
                }
                let g = self.globals.len() as u32;
                self.glob_map.insert(key, g);
                let tid = self.ty(t);
                self.globals.push(ir::Global { ty: tid, val: ir::CVal::Zst, mutable: m.mutability == mir::Mutability::Mut });
                let v = match t.kind() {
                    TyKind::RigidTy(RigidTy::Slice(e)) => {
                        let es = e.layout().unwrap().shape().size.bytes() as u64;
                        ir::CVal::Agg((0..meta.unwrap_or(0)).map(|i| self.decode(&m, o + i * es, e)).collect())
                    }
                    _ => self.decode(&m, o, t),
                };
                self.globals[g as usize].val = v;
                ir::CVal::RefAlloc { alloc: g, offset: 0, meta }
            }
            GlobalAlloc::Static(s) => {
                let id = self.static_id(s);
                ir::CVal::RefStatic { stat: id, offset: o }
            }
            GlobalAlloc::Function(i) => {
                let n = i.name();
                ir::CVal::FnPtr(Some(self.func(i)), n)
            }
            _ => ir::CVal::Opaque("vtable".into()),
        }
    }

    fn stmt(&mut self, s: &mir::StatementKind, b: &mir::Body) -> ir::StmtKind {
        match s {
            mir::StatementKind::Assign(p, r) => {
                let p2 = self.place(p);
                let r2 = self.rvalue(r, b);
                ir::StmtKind::Assign(p2, r2)
            }
            mir::StatementKind::SetDiscriminant { place, variant_index } => {
                ir::StmtKind::SetDiscr(self.place(place), vidx(*variant_index))
            }
            mir::StatementKind::StorageLive(l) => ir::StmtKind::Live(*l as u32),
            mir::StatementKind::StorageDead(l) => ir::StmtKind::Dead(*l as u32),
            mir::StatementKind::Intrinsic(mir::NonDivergingIntrinsic::Assume(o)) => ir::StmtKind::Assume(self.operand(o)),
            mir::StatementKind::Intrinsic(mir::NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                ir::StmtKind::Copy(self.operand(&c.src), self.operand(&c.dst), self.operand(&c.count))
            }
            _ => ir::StmtKind::Nop,
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue, b: &mir::Body) -> ir::Rvalue {
        use mir::Rvalue::*;
        match r {
            AddressOf(k, p) => ir::Rvalue::Ref { place: self.place(p), mutable: *k == mir::RawPtrKind::Mut, raw: true },
            Ref(_, k, p) => {
                ir::Rvalue::Ref { place: self.place(p), mutable: matches!(k, mir::BorrowKind::Mut { .. }), raw: false }
            }
            Reborrow(_, _, p) => ir::Rvalue::Use(ir::Operand::Copy(self.place(p))),
            Aggregate(k, ops) => {
                let os: Vec<ir::Operand> = ops.iter().map(|o| self.operand(o)).collect();
                let ag = match k {
                    mir::AggregateKind::Array(t) => ir::Agg::Array(self.ty(*t)),
                    mir::AggregateKind::Tuple => ir::Agg::Tuple,
                    mir::AggregateKind::Adt(def, v, args, _, uf) => {
                        let t = def.ty_with_args(args);
                        ir::Agg::Adt { ty: self.ty(t), variant: vidx(*v), union_field: uf.map(|x| x as u32) }
                    }
                    mir::AggregateKind::Closure(def, args) => {
                        let t = Ty::new_closure(*def, args.clone());
                        // make sure the closure body is available
                        for k in [ClosureKind::FnOnce, ClosureKind::FnMut, ClosureKind::Fn] {
                            let _ = k;
                        }
                        ir::Agg::Closure(self.ty(t))
                    }
                    mir::AggregateKind::RawPtr(t, _) => ir::Agg::RawPtr(self.ty(*t)),
                    o => ir::Agg::Other(format!("{:?}", o)),
                };
                ir::Rvalue::Aggregate(ag, os)
            }
            BinaryOp(op, x, y) => {
                ir::Rvalue::Bin { op: format!("{:?}", op), a: self.operand(x), b: self.operand(y), checked: false }
            }
            CheckedBinaryOp(op, x, y) => {
                ir::Rvalue::Bin { op: format!("{:?}", op), a: self.operand(x), b: self.operand(y), checked: true }
            }
            Cast(k, o, t) => {
                // reified function pointers / closures: keep the callee reachable
                let op = self.operand(o);
                if let mir::CastKind::PointerCoercion(pc) = k {
                    if let Ok(ot) = o.ty(b.locals()) {
                        match (pc, ot.kind()) {
                            (mir::PointerCoercion::ClosureFnPointer(_), TyKind::RigidTy(RigidTy::Closure(d, a))) => {
                                if let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                                    self.func(i);
                                }
                            }
                            _ => {}
                        }
                    }
                }
                ir::Rvalue::Cast { kind: format!("{:?}", k), op, ty: self.ty(*t) }
            }
            CopyForDeref(p) => ir::Rvalue::Use(ir::Operand::Copy(self.place(p))),
            Discriminant(p) => ir::Rvalue::Discr(self.place(p)),
            Len(p) => ir::Rvalue::Len(self.place(p)),
            Repeat(o, n) => ir::Rvalue::Repeat(self.operand(o), n.eval_target_usize().unwrap_or(u64::MAX)),
            UnaryOp(op, o) => ir::Rvalue::Un { op: format!("{:?}", op), a: self.operand(o) },
            Use(o, _) => ir::Rvalue::Use(self.operand(o)),
            ThreadLocalRef(_) => ir::Rvalue::Other("thread_local".into()),
        }
    }

    fn term(&mut self, t: &mir::Terminator, b: &mir::Body) -> ir::Term {
        use mir::TerminatorKind::*;
        match &t.kind {
            Goto { target } => ir::Term::Goto(*target as u32),
            SwitchInt { discr, targets } => {
                let ty = discr.ty(b.locals()).unwrap();
                ir::Term::Switch {
                    op: self.operand(discr),
                    targets: targets.branches().map(|(v, x)| (v, x as u32)).collect(),
                    otherwise: targets.otherwise() as u32,
                    ty: self.ty(ty),
                }
            }
            Resume => ir::Term::Resume,
            Abort => ir::Term::Abort,
            Return => ir::Term::Return,
            Unreachable => ir::Term::Unreachable,
            Drop { place, target, .. } => ir::Term::Drop { place: self.place(place), target: *target as u32 },
            Call { func, args, destination, target, .. } => {
                let fty = func.ty(b.locals()).unwrap();
                let callee = match fty.kind() {
                    TyKind::RigidTy(RigidTy::FnDef(def, a)) => {
                        Instance::resolve(def, &a).ok().map(|i| self.func(i))
                    }
                    _ => None,
                };
                ir::Term::Call {
                    func: self.operand(func),
                    callee,
                    args: args.iter().map(|o| self.operand(o)).collect(),
                    dest: self.place(destination),
                    target: target.map(|x| x as u32),
                }
            }
            Assert { cond, expected, msg, target, .. } => {
                let (m, ops): (String, Vec<ir::Operand>) = match msg {
                    mir::AssertMessage::BoundsCheck { len, index } => {
                        ("BoundsCheck".into(), vec![self.operand(len), self.operand(index)])
                    }
                    mir::AssertMessage::Overflow(op, x, y) => {
                        (format!("Overflow({:?})", op), vec![self.operand(x), self.operand(y)])
                    }
                    mir::AssertMessage::OverflowNeg(x) => ("OverflowNeg".into(), vec![self.operand(x)]),
                    mir::AssertMessage::DivisionByZero(x) => ("DivisionByZero".into(), vec![self.operand(x)]),
                    mir::AssertMessage::RemainderByZero(x) => ("RemainderByZero".into(), vec![self.operand(x)]),
                    o => (format!("{:?}", o).split('(').next().unwrap().split('{').next().unwrap().trim().to_string(), vec![]),
                };
                ir::Term::Assert {
                    cond: self.operand(cond),
                    expected: *expected,
                    msg: m,
                    ops,
                    target: *target as u32,
                }
            }
            InlineAsm { .. } => ir::Term::Asm,
        }
    }
}

fn vidx(v: rustc_public::ty::VariantIdx) -> u32 {
    // the derived Debug form of the newtype is `VariantIdx(N, ..)`
    let s = format!("{:?}", v);
    let d: String = s.chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
    d.parse().unwrap_or_else(|_| panic!("variant index {}", s))
}

fn field_offsets(f: &FieldsShape) -> Vec<u64> {
    match f {
        FieldsShape::Primitive => vec![],
        FieldsShape::Union(n) => vec![0; n.get()],
        FieldsShape::Array { stride, count } => (0..*count).map(|i| i * stride.bytes() as u64).collect(),
        FieldsShape::Arbitrary { offsets } => offsets.iter().map(|s| s.bytes() as u64).collect(),
    }
}

fn dump(tcx: rustc_middle::ty::TyCtxt<'_>) -> ControlFlow<(), ()> {
    let out = std::env::var("H3DRIVER_OUT").unwrap();
    let mut cx = Ctx {
        tcx,
        types: vec![],
        ty_map: HashMap::new(),
        funcs: vec![],
        fn_map: HashMap::new(),
        queue: VecDeque::new(),
        globals: vec![],
        glob_map: HashMap::new(),
        statics: vec![],
        stat_map: HashMap::new(),
        pub_defs: HashSet::new(),
    };
    let ev = tcx.effective_visibilities(());
    for (d, e) in ev.iter() {
        if e.is_public_at_level(rustc_middle::middle::privacy::Level::Reachable) {
            cx.pub_defs.insert(*d);
        }
    }
    let mut roots = vec![];
    let mut items = vec![];
    let mut generic = vec![];
    for it in rustc_public::all_local_items() {
        let sp = it.span();
        match it.kind() {
            ItemKind::Fn => {
                if it.requires_monomorphization() {
                    generic.push(it.name());
                } else if let Ok(i) = Instance::try_from(it) {
                    roots.push(cx.func(i));
                }
            }
            ItemKind::Static => {
                let s = StaticDef::try_from(it).unwrap();
                cx.static_id(s);
            }
            ItemKind::Const => {
                if it.requires_monomorphization() {
                    continue;
                }
                let ty = match Instance::try_from(it) { Ok(i) => i.ty(), Err(_) => it.ty() };
                let val = match Instance::try_from(it) {
                    Ok(i) => match i.try_const_eval(ty) {
                        Ok(a) => cx.decode(&a, 0, ty),
                        Err(e) => ir::CVal::Opaque(format!("{:?}", e)),
                    },
                    Err(e) => ir::CVal::Opaque(format!("{:?}", e)),
                };
                let tyid = cx.ty(ty);
                let freeze = cx.freeze(ty);
                let is_pub = cx.is_pub(it.def_id());
                items.push(ir::Item {
                    name: it.name(),
                    kind: "const".into(),
                    ty: tyid,
                    val,
                    mutable: false,
                    freeze,
                    is_pub,
                    file: span_file(sp),
                    line: span_line(sp),
                });
            }
            ItemKind::Ctor(_) => {}
        }
    }
    while let Some((i, id)) = cx.queue.pop_front() {
        cx.process(i, id);
    }
    let foreign_items = rustc_public::local_crate().foreign_modules().len() as u32;
    let p = ir::Program {
        types: cx.types,
        funcs: cx.funcs,
        globals: cx.globals,
        statics: cx.statics,
        items,
        roots,
        generic_local_fns: generic,
        foreign_items,
    };
    let f = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
    serde_json::to_writer(f, &p).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    // RUSTC_WORKSPACE_WRAPPER protocol: argv[1] is the real rustc.
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let target = std::env::var("H3DRIVER_CRATE").unwrap_or_default();
    let crate_name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1).cloned());
    let is_target = crate_name.as_deref() == Some(target.as_str()) && !args.iter().any(|a| a == "--test");
    if is_target {
        args.push("-Zalways-encode-mir".into());
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Cdebug-assertions=off".into());
        let r = run_with_tcx!(&args, dump);
        if r.is_err() {
            std::process::exit(1);
        }
    } else {
        let r = run_with_tcx!(&args, |_tcx| -> ControlFlow<(), ()> { ControlFlow::Continue(()) });
        match r {
            Ok(_) | Err(rustc_public::CompilerError::Skipped) => {}
            Err(_) => std::process::exit(1),
        }
    }
}
