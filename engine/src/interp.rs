// Abstract interpreter over the compiler's MIR.
//
// Every function is analysed by a worklist over its control-flow graph in weak
// topological order.  States reaching the same point of the same loop round are
// joined; the join is exact where a selector symbol distinguishes the two
// states, otherwise they stay separate (trace partitioning).
use crate::dom::*;
use crate::ir::*;
use crate::ir::Term as MTerm;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum V {
    S(Sc, ITy),
    Agg(Rc<Vec<V>>),
    Enum(Sc, Rc<Vec<Option<Rc<Vec<V>>>>>),
    Ptr(Rc<Ptr>),
    Vec(Rc<Vec<V>>),
    It(Rc<It>),
    Fn(FnId),
    Uninit,
    Top(Rc<String>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum It {
    /// owning iterator: remaining items
    Own(Rc<Vec<V>>),
    /// slice iterator: pointer to the sequence, front, back (exclusive)
    Slice(Rc<Ptr>, usize, usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Base {
    Local(u32, u32),
    Global(u32),
    Static(u32),
    /// value that lives in no frame (spec supplied)
    Ext(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum PE {
    Field(u32),
    Index(Sc),
    /// the part of a sequence that starts here (the length is in the pointer)
    Sub(Sc),
    Down(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ptr {
    pub base: Base,
    pub path: Vec<PE>,
    pub meta: Option<V>,
}

pub const U64: ITy = ITy::U64;

pub fn vs(s: Sc, t: ITy) -> V { V::S(s, t) }
pub fn vc(c: i128, t: ITy) -> V { V::S(Sc::C(t.wrap(c)), t) }
pub fn vagg(v: Vec<V>) -> V { V::Agg(Rc::new(v)) }
pub fn venum(idx: u128, nvar: usize, pay: Vec<V>) -> V {
    let mut p = vec![None; nvar];
    p[idx as usize] = Some(Rc::new(pay));
    V::Enum(Sc::C(idx), Rc::new(p))
}

#[derive(Clone)]
pub struct St {
    pub doms: Rc<Doms>,
    pub frames: Vec<Rc<Vec<V>>>,
    pub log: Rc<Vec<V>>,
}
impl St {
    pub fn new() -> St { St { doms: Doms::new(vec![]), frames: vec![Rc::new(vec![])], log: Rc::new(vec![]) } }
    /// frame 0 holds the heap: boxes and temporaries
    pub fn alloc(&mut self, v: V) -> V {
        let h = Rc::make_mut(&mut self.frames[0]);
        h.push(v);
        V::Ptr(Rc::new(Ptr { base: Base::Local(0, h.len() as u32 - 1), path: vec![], meta: None }))
    }
    pub fn with(&self, d: Rc<Doms>) -> St { St { doms: d, frames: self.frames.clone(), log: self.log.clone() } }
}

#[derive(Clone)]
pub struct Panic {
    pub func: FnId,
    pub msg: String,
    pub doms: Rc<Doms>,
    pub stack: Vec<FnId>,
}

pub struct Cfg {
    pos: Vec<u32>,
    heads: Vec<Vec<u32>>,
    live: Vec<Vec<bool>>, // live-in per block
    borrowed: Vec<bool>,
}

pub type Native = Rc<dyn Fn(&mut Interp, St, &[V], FnId) -> R<Vec<(St, V)>>>;

pub struct Interp<'p> {
    pub p: &'p Program,
    pub d: Dom,
    consts: HashMap<*const CVal, V>,
    cfgs: HashMap<FnId, Rc<Cfg>>,
    pub overrides: HashMap<FnId, Native>,
    pub name_ix: HashMap<String, FnId>,
    pub panics: Vec<Panic>,
    pub fails: Vec<String>,
    pub steps: u64,
    pub fuel: u64,
    pub stack: Vec<FnId>,
    pub visited: BTreeSet<(FnId, u32)>,
    pub called: BTreeSet<FnId>,
    pub ext: Vec<V>,
    pub no_merge: HashSet<FnId>,
    /// keep all paths apart
    pub apart: bool,
    pub memo: HashMap<(FnId, Vec<V>), Option<V>>,
    pub memo_fns: HashSet<FnId>,
    pub merges: u64,
    pub maxstates: usize,
    pub closures: HashMap<TyId, FnId>,
    pub trace: bool,
}

type Key = Vec<(u32, u32)>;

pub enum Flow {
    Next,
    Jump(u32),
    Multi(Vec<(u32, St)>),
    Ret,
    Dead,
}

fn uses_op(o: &Operand, f: &mut dyn FnMut(u32)) {
    match o { Operand::Copy(p) | Operand::Move(p) => uses_place(p, f), _ => {} }
}
fn uses_place(p: &Place, f: &mut dyn FnMut(u32)) {
    f(p.local);
    for x in &p.proj { if let Proj::Index(l) = x { f(*l) } }
}
fn uses_rv(r: &Rvalue, f: &mut dyn FnMut(u32)) {
    match r {
        Rvalue::Use(o) | Rvalue::Repeat(o, _) | Rvalue::Cast { op: o, .. } | Rvalue::Un { a: o, .. } => uses_op(o, f),
        Rvalue::Ref { place, .. } | Rvalue::Len(place) | Rvalue::Discr(place) => uses_place(place, f),
        Rvalue::Bin { a, b, .. } => { uses_op(a, f); uses_op(b, f); }
        Rvalue::Aggregate(_, v) => for o in v { uses_op(o, f) },
        Rvalue::Other(_) => {}
    }
}

pub fn succs(t: &MTerm) -> Vec<u32> {
    match t {
        MTerm::Goto(b) => vec![*b],
        MTerm::Switch { targets, otherwise, .. } => { let mut v: Vec<u32> = targets.iter().map(|x| x.1).collect(); v.push(*otherwise); v }
        MTerm::Drop { target, .. } => vec![*target],
        MTerm::Call { target, .. } => target.iter().cloned().collect(),
        MTerm::Assert { target, .. } => vec![*target],
        _ => vec![],
    }
}

impl Cfg {
    fn new(b: &Body) -> Cfg {
        let n = b.blocks.len();
        let succ: Vec<Vec<u32>> = b.blocks.iter().map(|x| succs(&x.term)).collect();
        // Bourdoncle weak topological order
        struct W<'a> { succ: &'a [Vec<u32>], dfn: Vec<u32>, num: u32, stack: Vec<u32> }
        enum El { V(u32), C(u32, Vec<El>) }
        impl<'a> W<'a> {
            fn component(&mut self, v: u32) -> El {
                let mut part = vec![];
                for s in self.succ[v as usize].clone() { if self.dfn[s as usize] == 0 { self.visit(s, &mut part); } }
                part.reverse();
                El::C(v, part)
            }
            fn visit(&mut self, v: u32, part: &mut Vec<El>) -> u32 {
                self.stack.push(v);
                self.num += 1;
                self.dfn[v as usize] = self.num;
                let mut head = self.num;
                let mut lp = false;
                for s in self.succ[v as usize].clone() {
                    let m = if self.dfn[s as usize] == 0 { self.visit(s, part) } else { self.dfn[s as usize] };
                    if m <= head { head = m; lp = true; }
                }
                if head == self.dfn[v as usize] {
                    self.dfn[v as usize] = u32::MAX;
                    let mut e = self.stack.pop().unwrap();
                    if lp {
                        while e != v { self.dfn[e as usize] = 0; e = self.stack.pop().unwrap(); }
                        let c = self.component(v);
                        part.push(c);
                    } else {
                        part.push(El::V(v));
                    }
                }
                head
            }
        }
        let mut w = W { succ: &succ, dfn: vec![0; n], num: 0, stack: vec![] };
        let mut part = vec![];
        w.visit(0, &mut part);
        part.reverse();
        let mut pos = vec![u32::MAX; n];
        let mut heads = vec![vec![]; n];
        let mut k = 0;
        fn assign(els: &[El], hs: &mut Vec<u32>, pos: &mut [u32], heads: &mut [Vec<u32>], k: &mut u32) {
            for e in els {
                match e {
                    El::V(v) => { pos[*v as usize] = *k; *k += 1; heads[*v as usize] = hs.clone(); }
                    El::C(v, p) => {
                        pos[*v as usize] = *k;
                        *k += 1;
                        hs.push(*v);
                        heads[*v as usize] = hs.clone();
                        assign(p, hs, pos, heads, k);
                        hs.pop();
                    }
                }
            }
        }
        assign(&part, &mut vec![], &mut pos, &mut heads, &mut k);
        // liveness
        let nl = b.locals.len();
        let mut borrowed = vec![false; nl];
        for bl in &b.blocks {
            for s in &bl.stmts {
                if let StmtKind::Assign(_, Rvalue::Ref { place, .. }) = &s.kind {
                    if !place.proj.iter().any(|p| matches!(p, Proj::Deref)) { borrowed[place.local as usize] = true; }
                }
            }
        }
        let mut live = vec![vec![false; nl]; n];
        let mut changed = true;
        while changed {
            changed = false;
            for bi in (0..n).rev() {
                let bl = &b.blocks[bi];
                let mut l = vec![false; nl];
                for s in succs(&bl.term) { for i in 0..nl { if live[s as usize][i] { l[i] = true; } } }
                {
                    let kill = |p: &Place, l: &mut Vec<bool>| { if p.proj.is_empty() { l[p.local as usize] = false; } };
                    match &bl.term {
                        MTerm::Return => l[0] = true,
                        MTerm::Switch { op, .. } => uses_op(op, &mut |x| l[x as usize] = true),
                        MTerm::Call { func, args, dest, .. } => {
                            kill(dest, &mut l);
                            if !dest.proj.is_empty() { uses_place(dest, &mut |x| l[x as usize] = true); }
                            uses_op(func, &mut |x| l[x as usize] = true);
                            for a in args { uses_op(a, &mut |x| l[x as usize] = true); }
                        }
                        MTerm::Assert { cond, ops, .. } => {
                            uses_op(cond, &mut |x| l[x as usize] = true);
                            for a in ops { uses_op(a, &mut |x| l[x as usize] = true); }
                        }
                        MTerm::Drop { place, .. } => uses_place(place, &mut |x| l[x as usize] = true),
                        _ => {}
                    }
                    for s in bl.stmts.iter().rev() {
                        match &s.kind {
                            StmtKind::Assign(p, r) => {
                                kill(p, &mut l);
                                if !p.proj.is_empty() { uses_place(p, &mut |x| l[x as usize] = true); }
                                uses_rv(r, &mut |x| l[x as usize] = true);
                            }
                            StmtKind::SetDiscr(p, _) => uses_place(p, &mut |x| l[x as usize] = true),
                            StmtKind::Assume(o) => uses_op(o, &mut |x| l[x as usize] = true),
                            StmtKind::Dead(x) => l[*x as usize] = false,
                            StmtKind::Copy(a, b, c) => for o in [a, b, c] { uses_op(o, &mut |x| l[x as usize] = true) },
                            _ => {}
                        }
                    }
                }
                if l != live[bi] { live[bi] = l; changed = true; }
            }
        }
        Cfg { pos, heads, live, borrowed }
    }
}

impl<'p> Interp<'p> {
    pub fn new(p: &'p Program) -> Interp<'p> {
        let mut name_ix = HashMap::new();
        for (i, f) in p.funcs.iter().enumerate() { name_ix.insert(f.name.clone(), i as FnId); }
        let mut d = Dom::default();
        d.fields = (0..15u8).map(|i| (3 * i, 3u8)).chain([(45, 7), (52, 4), (56, 3), (59, 4), (63, 1)]).collect();
        Interp {
            p, d, consts: HashMap::new(), cfgs: HashMap::new(), overrides: HashMap::new(), name_ix,
            panics: vec![], fails: vec![], steps: 0, fuel: 20_000_000, stack: vec![], visited: BTreeSet::new(), called: BTreeSet::new(),
            ext: vec![], no_merge: HashSet::new(), apart: false, memo: HashMap::new(), memo_fns: HashSet::new(), merges: 0, maxstates: 200_000, closures: HashMap::new(), trace: false,
        }
    }
    /// find a local function by its last path segments
    pub fn find(&self, suffix: &str) -> Option<FnId> {
        let mut r = None;
        for (i, f) in self.p.funcs.iter().enumerate() {
            if f.local && (f.name == suffix || f.name.ends_with(&format!("::{}", suffix))) {
                if r.is_some() { return None; }
                r = Some(i as FnId);
            }
        }
        r
    }
    pub fn fname(&self, f: FnId) -> &'p str { &self.p.funcs[f as usize].name }
    pub fn ity(&self, t: TyId) -> Option<ITy> {
        match &self.p.types[t as usize].kind {
            TypeKind::Bool => Some(ITy::BOOL),
            TypeKind::Char => Some(ITy { bits: 32, signed: false, float: false }),
            TypeKind::Int { bits, signed } => Some(ITy { bits: *bits, signed: *signed, float: false }),
            TypeKind::Float { bits } => Some(ITy { bits: *bits, signed: true, float: true }),
            TypeKind::Other(s) if s.starts_with("pat:") => {
                let (sg, b) = s[4..].split_at(1);
                let bits = if b == "size" { 64 } else { b.parse().ok()? };
                if sg == "u" || sg == "i" { Some(ITy { bits, signed: sg == "i", float: false }) } else { None }
            }
            _ => None,
        }
    }
    pub fn cfg(&mut self, f: FnId) -> Rc<Cfg> {
        if let Some(c) = self.cfgs.get(&f) { return c.clone(); }
        let c = Rc::new(Cfg::new(self.p.funcs[f as usize].body.as_ref().unwrap()));
        self.cfgs.insert(f, c.clone());
        c
    }

    // ---------- constants ----------
    pub fn cval(&mut self, c: &'p CVal, ty: TyId) -> R<V> {
        if let Some(v) = self.consts.get(&(c as *const CVal)) { return Ok(v.clone()); }
        let v = self.cval_(c, ty)?;
        self.consts.insert(c as *const CVal, v.clone());
        Ok(v)
    }
    fn cval_(&mut self, c: &'p CVal, ty: TyId) -> R<V> {
        let p = self.p;
        let k = &p.types[ty as usize].kind;
        Ok(match c {
            CVal::Bits(b) => match self.ity(ty) {
                Some(t) => V::S(Sc::C(*b & t.mask()), t),
                None => return fail(format!("bits const of type {:?}", k)),
            },
            CVal::Agg(v) => {
                let mut o = vec![];
                match k {
                    TypeKind::Array(e, _) | TypeKind::Slice(e) => for x in v { o.push(self.cval(x, *e)?); },
                    TypeKind::Tuple(ts) => for (x, t) in v.iter().zip(ts) { o.push(self.cval(x, *t)?); },
                    TypeKind::Adt { variants, .. } => for (x, fl) in v.iter().zip(&variants[0].fields) { o.push(self.cval(x, fl.ty)?); },
                    TypeKind::Closure { upvars, .. } => for (x, t) in v.iter().zip(upvars) { o.push(self.cval(x, *t)?); },
                    _ => return fail("aggregate const type"),
                }
                vagg(o)
            }
            CVal::Enum(i, fs) => {
                if let TypeKind::Adt { variants, .. } = k {
                    let mut o = vec![];
                    for (x, fl) in fs.iter().zip(&variants[*i as usize].fields) { o.push(self.cval(x, fl.ty)?); }
                    venum(*i as u128, variants.len(), o)
                } else { return fail("enum const type"); }
            }
            CVal::RefAlloc { alloc, offset, meta } => {
                if *offset != 0 { return fail("const pointer with offset"); }
                V::Ptr(Rc::new(Ptr { base: Base::Global(*alloc), path: vec![], meta: meta.map(|m| vc(m as i128, U64)) }))
            }
            CVal::RefStatic { stat, offset } => {
                if *offset != 0 { return fail("const pointer with offset"); }
                V::Ptr(Rc::new(Ptr { base: Base::Static(*stat), path: vec![], meta: None }))
            }
            CVal::FnPtr(Some(f), _) => V::Fn(*f),
            CVal::FnPtr(None, n) => V::Top(Rc::new(format!("fn {}", n))),
            CVal::Zst => match k {
                TypeKind::FnDef { func: Some(f), .. } => V::Fn(*f),
                TypeKind::Adt { variants, kind, .. } => {
                    if let AdtKind::Enum = kind {
                        let ok: Vec<usize> = (0..variants.len()).filter(|i| !variants[*i].fields.iter().any(|f| self.uninhabited(f.ty))).collect();
                        if ok.len() != 1 { return fail("zst enum"); }
                        let mut o = vec![];
                        for fl in &variants[ok[0]].fields { o.push(self.cval_(c, fl.ty)?); }
                        venum(ok[0] as u128, variants.len(), o)
                    } else {
                        let mut o = vec![];
                        for fl in &variants[0].fields { o.push(self.cval_(c, fl.ty)?); }
                        vagg(o)
                    }
                }
                TypeKind::Tuple(ts) => { let mut o = vec![]; for t in ts { o.push(self.cval_(c, *t)?); } vagg(o) }
                _ => vagg(vec![]),
            },
            CVal::Str(s) => V::Top(Rc::new(format!("str {}", s))),
            CVal::Opaque(s) => V::Top(Rc::new(format!("const {}", s))),
        })
    }

    fn uninhabited(&self, t: TyId) -> bool {
        match &self.p.types[t as usize].kind {
            TypeKind::Never => true,
            TypeKind::Adt { kind: AdtKind::Enum, variants, .. } => variants.is_empty(),
            TypeKind::Tuple(ts) => ts.iter().any(|t| self.uninhabited(*t)),
            _ => false,
        }
    }
    // ---------- places ----------
    pub fn place_ty(&self, b: &Body, p: &Place) -> TyId {
        let mut t = b.locals[p.local as usize];
        for x in &p.proj {
            t = match x {
                Proj::Deref => match &self.p.types[t as usize].kind {
                    TypeKind::Ref { ty, .. } | TypeKind::Ptr { ty, .. } => *ty,
                    TypeKind::Adt { args, .. } => args[0],
                    _ => t,
                },
                Proj::Field(_, ty) => *ty,
                Proj::Index(_) | Proj::ConstIndex { .. } => match &self.p.types[t as usize].kind {
                    TypeKind::Array(e, _) | TypeKind::Slice(e) => *e,
                    _ => t,
                },
                Proj::Downcast(_) | Proj::Subslice { .. } => t,
                Proj::Cast(ty) => *ty,
            };
        }
        t
    }
    fn root(&mut self, st: &St, b: Base) -> R<V> {
        let p = self.p;
        match b {
            Base::Local(f, l) => match st.frames.get(f as usize) { Some(fr) => Ok(fr[l as usize].clone()), None => fail("dangling pointer") },
            Base::Global(g) => { let g = &p.globals[g as usize]; self.cval(&g.val, g.ty) }
            Base::Static(s) => {
                let g = &p.statics[s as usize];
                if g.mutable { return fail("mutable static"); }
                self.cval(&g.val, g.ty)
            }
            Base::Ext(i) => Ok(self.ext[i as usize].clone()),
        }
    }
    pub fn read(&mut self, st: &St, base: Base, path: &[PE]) -> R<V> {
        let v = self.root(st, base)?;
        self.sel_path(&st.doms, &v, path)
    }
    pub fn sel_path(&mut self, st: &Rc<Doms>, v: &V, path: &[PE]) -> R<V> {
        let mut v = v.clone();
        let nsym = path.iter().filter(|e| matches!(e, PE::Index(Sc::T(_)))).count();
        let mut wide: Vec<PE> = vec![];
        let path = if nsym >= 2 {
            for e in path {
                wide.push(match e {
                    PE::Index(s @ Sc::T(_)) => match self.d.resimp(st, s) {
                        Sc::T(t) if t.sup.len() > 1 => { let m = self.d.materialise(st, &t)?; PE::Index(self.d.simp(st, m.sup.clone(), m.data.clone())) }
                        x => PE::Index(x),
                    },
                    x => x.clone(),
                });
            }
            &wide[..]
        } else { path };
        for (k, e) in path.iter().enumerate() {
            v = match (e, &v) {
                (PE::Field(i), V::Agg(a)) => match a.get(*i as usize) { Some(x) => x.clone(), None => return fail("field out of range") },
                (PE::Down(i), V::Enum(_, pay)) => match pay.get(*i as usize) {
                    Some(Some(x)) => V::Agg(x.clone()),
                    _ => return fail("payload of an absent variant"),
                },
                (PE::Down(_), V::Agg(_)) => v.clone(),
                (PE::Sub(s), V::Agg(_)) | (PE::Sub(s), V::Vec(_)) => match self.d.resimp(st, s) {
                    Sc::C(0) => v.clone(),
                    Sc::T(t) => return Err(Stop::Split(t)),
                    _ => return fail("read of a part of a sequence"),
                },
                (PE::Field(0), V::Ptr(_)) => v.clone(),
                (PE::Index(s), V::Agg(a)) | (PE::Index(s), V::Vec(a)) => {
                    let s = self.d.resimp(st, s);
                    match &s {
                        Sc::C(c) => match a.get(*c as usize) { Some(x) => x.clone(), None => return fail("index out of range") },
                        Sc::T(t) => {
                            let mut vals = self.d.values(st, t);
                            if vals.iter().any(|x| *x as usize >= a.len()) {
                                let tight = self.d.tighten(st);
                                vals = self.d.values(&tight, t);
                            }
                            let mut items = vec![];
                            for x in vals {
                                let e = match a.get(x as usize) { Some(e) => e.clone(), None => return fail("symbolic index out of range") };
                                items.push((x, self.sel_path(st, &e, &path[k + 1..])?));
                            }
                            return self.select(st, t, &items);
                        }
                        _ => return fail(format!("index by {}", self.d.show(&s))),
                    }
                }
                (_, V::Uninit) => return fail("read of uninitialised value"),
                _ => return fail(format!("projection {:?} of {}", e, self.showv(&v))),
            };
        }
        Ok(v)
    }
    /// exact selection among values by a table
    pub fn select(&mut self, st: &Rc<Doms>, t: &Rc<Tab>, items: &[(u128, V)]) -> R<V> {
        if items.iter().all(|x| x.1 == items[0].1) { return Ok(items[0].1.clone()); }
        match &items[0].1 {
            V::S(_, ty) => {
                let mut scs = vec![];
                for (k, v) in items { if let V::S(s, _) = v { scs.push((*k, s.clone())); } else { return Err(Stop::Split(t.clone())); } }
                let r = self.select_sc(st, t, &scs)?;
                Ok(V::S(r, *ty))
            }
            V::Agg(a) => {
                let n = a.len();
                let mut out = vec![];
                for i in 0..n {
                    let mut sub = vec![];
                    for (k, v) in items { if let V::Agg(b) = v { if b.len() != n { return Err(Stop::Split(t.clone())); } sub.push((*k, b[i].clone())); } else { return Err(Stop::Split(t.clone())); } }
                    out.push(self.select(st, t, &sub)?);
                }
                Ok(vagg(out))
            }
            V::Enum(_, p0) => {
                let nv = p0.len();
                let mut idx = vec![];
                for (k, v) in items { if let V::Enum(i, _) = v { idx.push((*k, i.clone())); } else { return Err(Stop::Split(t.clone())); } }
                let ri = self.select_sc(st, t, &idx)?;
                let mut pays = vec![];
                for j in 0..nv {
                    let mut sub: Vec<(u128, V)> = vec![];
                    for (k, v) in items { if let V::Enum(_, p) = v { if let Some(x) = &p[j] { sub.push((*k, V::Agg(x.clone()))); } } }
                    if sub.is_empty() { pays.push(None); continue; }
                    if sub.len() != items.len() && sub.iter().any(|x| x.1 != sub[0].1) {
                        // variants without this payload take any value
                        let any = sub[0].1.clone();
                        for (k, _) in items { if !sub.iter().any(|x| x.0 == *k) { sub.push((*k, any.clone())); } }
                    }
                    match self.select(st, t, &sub)? { V::Agg(x) => pays.push(Some(x)), _ => return fail("select payload") }
                }
                Ok(V::Enum(ri, Rc::new(pays)))
            }
            _ => Err(Stop::Split(t.clone())),
        }
    }
    fn select_sc(&mut self, st: &Rc<Doms>, t: &Rc<Tab>, items: &[(u128, Sc)]) -> R<Sc> {
        if items.iter().all(|x| x.1 == items[0].1) { return Ok(items[0].1.clone()); }
        if items.iter().all(|x| matches!(x.1, Sc::C(_))) {
            let m: HashMap<u128, u128> = items.iter().map(|(k, s)| (*k, if let Sc::C(c) = s { *c } else { 0 })).collect();
            return Ok(self.d.map1(st, t, |k| m.get(&k).cloned().unwrap_or(0)));
        }
        // tables over shared symbols
        let mut sup = t.sup.clone();
        for (_, s) in items {
            match s { Sc::T(u) => sup = union_sup(&sup, &u.sup), Sc::C(_) => {}, _ => return Err(Stop::Split(t.clone())) }
        }
        if sup.len() > KSUP || self.d.prod(&sup) > MAXTAB { return Err(Stop::Split(t.clone())); }
        let mut acc = items[0].1.clone();
        for (k, s) in &items[1..] {
            let key = *k;
            acc = self.d.mapn(st, &[&Sc::T(t.clone()), s, &acc], &|v| if v[0] == key { v[1] } else { v[2] })?;
        }
        Ok(acc)
    }
    pub fn write(&mut self, st: &mut St, base: Base, path: &[PE], val: V) -> R<()> {
        match base {
            Base::Local(f, l) => {
                // resolve symbolic indices first
                for e in path { if let PE::Index(s) | PE::Sub(s) = e { if let Sc::T(t) = self.d.resimp(&st.doms, s) { return Err(Stop::Split(t)); } } }
                let doms = st.doms.clone();
                let fr = Rc::make_mut(&mut st.frames[f as usize]);
                Self::wr(&self.d, &doms, &mut fr[l as usize], path, val)
            }
            Base::Ext(i) => {
                let doms = st.doms.clone();
                let mut v = self.ext[i as usize].clone();
                Self::wr(&self.d, &doms, &mut v, path, val)?;
                self.ext[i as usize] = v;
                Ok(())
            }
            _ => fail("write to a constant"),
        }
    }
    fn wr(d: &Dom, st: &Rc<Doms>, v: &mut V, path: &[PE], val: V) -> R<()> {
        if path.is_empty() { *v = val; return Ok(()); }
        match &path[0] {
            PE::Field(i) => {
                if let V::Uninit = v { *v = vagg(vec![]); }
                match v {
                    V::Agg(a) => {
                        let a = Rc::make_mut(a);
                        while a.len() <= *i as usize { a.push(V::Uninit); }
                        Self::wr(d, st, &mut a[*i as usize], &path[1..], val)
                    }
                    _ => fail("field write"),
                }
            }
            PE::Index(s) => {
                let i = match d.resimp(st, s) { Sc::C(c) => c as usize, _ => return fail("symbolic index write") };
                match v {
                    V::Agg(a) | V::Vec(a) => {
                        let a = Rc::make_mut(a);
                        if i >= a.len() { return fail("index write out of range"); }
                        Self::wr(d, st, &mut a[i], &path[1..], val)
                    }
                    _ => fail("index write"),
                }
            }
            PE::Sub(s) => match d.resimp(st, s) { Sc::C(0) => Self::wr(d, st, v, &path[1..], val), _ => fail("write of a part of a sequence") },
            PE::Down(k) => match v {
                V::Enum(_, p) => {
                    let p = Rc::make_mut(p);
                    match &p[*k as usize] {
                        Some(x) => {
                            let mut a = V::Agg(x.clone());
                            Self::wr(d, st, &mut a, &path[1..], val)?;
                            if let V::Agg(x) = a { p[*k as usize] = Some(x); }
                            Ok(())
                        }
                        None => fail("payload write of absent variant"),
                    }
                }
                _ => fail("downcast write"),
            },
        }
    }
    fn resolve(&mut self, st: &St, fr: u32, p: &Place) -> R<(Base, Vec<PE>, Option<V>)> {
        let mut base = Base::Local(fr, p.local);
        let mut path = vec![];
        let mut meta = None;
        for x in &p.proj {
            match x {
                Proj::Deref => {
                    let v = self.read(st, base, &path)?;
                    match v {
                        V::Ptr(q) => { base = q.base; path = q.path.clone(); meta = q.meta.clone(); }
                        _ => return fail(format!("deref of {}", self.showv(&v))),
                    }
                }
                Proj::Field(i, _) => path.push(PE::Field(*i)),
                Proj::Index(l) => {
                    let v = st.frames[fr as usize][*l as usize].clone();
                    match v { V::S(s, _) => self.push_ix(&st.doms, &mut path, &s)?, _ => return fail("index value") }
                    meta = None;
                }
                Proj::ConstIndex { offset, from_end, .. } => {
                    let i = if *from_end { let n = self.seq_len(st, base, &path, &meta)?; n - *offset as usize } else { *offset as usize };
                    self.push_ix(&st.doms, &mut path, &Sc::C(i as u128))?;
                    meta = None;
                }
                Proj::Downcast(k) => path.push(PE::Down(*k)),
                Proj::Cast(_) => {}
                Proj::Subslice { from, to, from_end } => {
                    let end = if *from_end { self.seq_len(st, base, &path, &meta)? - *to as usize } else { *to as usize };
                    self.push_ix(&st.doms, &mut path, &Sc::C(*from as u128))?;
                    Self::to_slice(&mut path);
                    meta = Some(vc(end as i128 - *from as i128, U64));
                }
            }
        }
        Ok((base, path, meta))
    }
    /// number of elements of the sequence at a place
    fn seq_len(&mut self, st: &St, base: Base, path: &[PE], meta: &Option<V>) -> R<usize> {
        if let Some(m) = meta { return self.usz(st, &m.clone()); }
        match self.read(st, base, path)? { V::Agg(a) | V::Vec(a) => Ok(a.len()), _ => fail("sequence length") }
    }
    /// extend a path by an element index
    pub fn push_ix(&mut self, st: &Rc<Doms>, path: &mut Vec<PE>, i: &Sc) -> R<()> {
        let i = self.d.resimp(st, i);
        if let Some(PE::Sub(k)) = path.last().cloned() {
            let s = self.d.binop(st, "Add", &k, &i, U64, U64, false)?.0;
            *path.last_mut().unwrap() = PE::Index(s);
        } else { path.push(PE::Index(i)); }
        Ok(())
    }
    /// turn a pointer to an element into one to the sequence starting there
    pub fn to_slice(path: &mut Vec<PE>) {
        if let Some(PE::Index(i)) = path.last().cloned() {
            path.pop();
            if i != Sc::C(0) { path.push(PE::Sub(i)); }
        }
    }
    /// pointer to the first element of a sequence
    pub fn to_elem(path: &mut Vec<PE>) {
        match path.last().cloned() {
            Some(PE::Sub(i)) => { *path.last_mut().unwrap() = PE::Index(i); }
            _ => path.push(PE::Index(Sc::C(0))),
        }
    }
    fn split_ix(p: &Ptr) -> (Vec<PE>, Sc) {
        match p.path.last() {
            Some(PE::Index(i)) | Some(PE::Sub(i)) => (p.path[..p.path.len() - 1].to_vec(), i.clone()),
            _ => (p.path.clone(), Sc::C(0)),
        }
    }
    /// compare two pointers: equality of the sequences and difference of the positions
    pub fn ptr_cmp(&mut self, st: &Rc<Doms>, op: &str, p: &Ptr, q: &Ptr) -> R<Sc> {
        if p == q { return Ok(Sc::C(matches!(op, "Eq" | "Le" | "Ge") as u128)); }
        let ((pa, i), (qa, j)) = (Self::split_ix(p), Self::split_ix(q));
        if p.base == q.base && pa == qa { return self.d.cmp(st, op, &i, &j, U64); }
        match op { "Eq" => Ok(Sc::C(0)), "Ne" => Ok(Sc::C(1)), _ => fail("comparison of unrelated pointers") }
    }
    pub fn ptr_offset(&mut self, st: &Rc<Doms>, p: &Ptr, n: &Sc, neg: bool) -> R<V> {
        let n = self.d.resimp(st, n);
        if n == Sc::C(0) { return Ok(V::Ptr(Rc::new(p.clone()))); }
        let mut q = p.clone();
        match q.path.last().cloned() {
            Some(PE::Index(i)) => {
                let s = self.d.binop(st, if neg { "Sub" } else { "Add" }, &i, &n, U64, U64, false)?.0;
                *q.path.last_mut().unwrap() = PE::Index(s);
                q.meta = None;
                Ok(V::Ptr(Rc::new(q)))
            }
            _ => fail("pointer arithmetic"),
        }
    }
    /// view a value of one type as another of the same size
    pub fn reshape(&mut self, st: &Rc<Doms>, v: V, from: TyId, to: TyId) -> R<V> {
        if from == to { return Ok(v); }
        let p = self.p;
        let (ft, tt) = (&p.types[from as usize], &p.types[to as usize]);
        let inner = |k: &TypeKind| -> Option<(u32, TyId, usize)> {
            if let TypeKind::Adt { kind: AdtKind::Struct | AdtKind::Union, variants, .. } = k {
                let big: Vec<_> = variants[0].fields.iter().enumerate().filter(|x| p.types[x.1.ty as usize].size.map_or(true, |s| s > 0)).collect();
                if big.len() == 1 { return Some((big[0].0 as u32, big[0].1.ty, variants[0].fields.len())); }
            }
            None
        };
        if let (TypeKind::Adt { full: a, .. }, TypeKind::Adt { full: b, .. }) = (&ft.kind, &tt.kind) { if a == b { return Ok(v); } }
        if let Some((i, t, _)) = inner(&ft.kind) {
            let w = match &v { V::Agg(a) => a.get(i as usize).cloned().unwrap_or(V::Uninit), V::Uninit => V::Uninit, x => x.clone() };
            return self.reshape(st, w, t, to);
        }
        if let Some((i, t, n)) = inner(&tt.kind) {
            if matches!(v, V::Ptr(_)) { return Ok(v); }
            let w = self.reshape(st, v, from, t)?;
            let mut a = vec![vagg(vec![]); n];
            a[i as usize] = w;
            return Ok(vagg(a));
        }
        match (&ft.kind, &tt.kind, &v) {
            (TypeKind::Array(a, n), TypeKind::Array(b, m), V::Agg(x)) if n == m => {
                let mut o = vec![];
                for e in x.iter() { o.push(self.reshape(st, e.clone(), *a, *b)?); }
                Ok(vagg(o))
            }
            (_, _, V::Uninit) => Ok(v),
            (_, _, V::Ptr(_)) => Ok(v),
            (_, _, V::S(s, t)) => match self.ity(to) { Some(u) if u.bits == t.bits && u.float == t.float => Ok(V::S(s.clone(), u)), _ => fail("transmute of a number") },
            (TypeKind::Tuple(a), TypeKind::Tuple(b), V::Agg(_)) if a.len() == b.len() => Ok(v),
            (TypeKind::Adt { name: a, .. }, TypeKind::Adt { name: b, .. }, _) if a == b => Ok(v),
            _ => fail(format!("transmute of {}", self.showv(&v))),
        }
    }
    fn op(&mut self, st: &St, fr: u32, o: &'p Operand) -> R<V> {
        match o {
            Operand::Copy(p) | Operand::Move(p) => {
                let (b, path, _) = self.resolve(st, fr, p)?;
                self.read(st, b, &path)
            }
            Operand::Const { ty, val } => self.cval(val, *ty),
            Operand::RuntimeCheck(s) => Ok(V::S(Sc::C((s.contains("Overflow")) as u128), ITy::BOOL)),
        }
    }

    // ---------- rvalues ----------
    fn rvalue(&mut self, st: &St, fr: u32, body: &'p Body, r: &'p Rvalue, dty: TyId) -> R<V> {
        match r {
            Rvalue::Use(o) => self.op(st, fr, o),
            Rvalue::Repeat(o, n) => { let v = self.op(st, fr, o)?; Ok(vagg(vec![v; *n as usize])) }
            Rvalue::Ref { place, .. } => {
                let (base, path, meta) = self.resolve(st, fr, place)?;
                Ok(V::Ptr(Rc::new(Ptr { base, path, meta })))
            }
            Rvalue::Len(p) => match &self.p.types[self.place_ty(body, p) as usize].kind {
                TypeKind::Array(_, n) => Ok(vc(*n as i128, U64)),
                _ => { let (_, _, m) = self.resolve(st, fr, p)?; match m { Some(v) => Ok(v), None => fail("len") } }
            },
            Rvalue::Cast { kind, op, ty } => {
                let v = self.op(st, fr, op)?;
                self.cast(st, kind, v, *ty, op, body)
            }
            Rvalue::Bin { op, a, b, checked } => {
                let x = self.op(st, fr, a)?;
                let y = self.op(st, fr, b)?;
                match (&x, &y) {
                    (V::S(p, tp), V::S(q, tq)) => {
                        let cmp = matches!(op.as_str(), "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge");
                        if op == "Cmp" {
                            let lt = self.d.cmp(&st.doms, "Lt", p, q, *tp)?;
                            let eq = self.d.cmp(&st.doms, "Eq", p, q, *tp)?;
                            let s = self.d.map2(&st.doms, &lt, &eq, |l, e| if l == 1 { 0 } else if e == 1 { 1 } else { 2 })?;
                            let u = Some(Rc::new(vec![]));
                            return Ok(V::Enum(s, Rc::new(vec![u.clone(), u.clone(), u])));
                        }
                        let (s, ov) = self.d.binop(&st.doms, op, p, q, *tp, *tq, *checked)?;
                        let rt = if cmp { ITy::BOOL } else { *tp };
                        if *checked {
                            let ov = ov.unwrap_or(Sc::C(0));
                            Ok(vagg(vec![V::S(s, rt), V::S(ov, ITy::BOOL)]))
                        } else {
                            Ok(V::S(s, rt))
                        }
                    }
                    (V::Ptr(p), V::Ptr(q)) if matches!(op.as_str(), "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge") => {
                        let (p, q) = (p.clone(), q.clone());
                        let s = self.ptr_cmp(&st.doms, op, &p, &q)?;
                        Ok(V::S(s, ITy::BOOL))
                    }
                    (V::Ptr(p), V::S(n, _)) if op == "Offset" => { let p = p.clone(); self.ptr_offset(&st.doms, &p, n, false) }
                    (V::Agg(p), V::Agg(q)) if matches!(op.as_str(), "Eq" | "Ne") && p.is_empty() && q.is_empty() => Ok(V::S(Sc::C((op == "Eq") as u128), ITy::BOOL)),
                    (V::Uninit, _) | (_, V::Uninit) => Ok(V::Uninit),
                    _ => fail(format!("binop {} on {} / {}", op, self.showv(&x), self.showv(&y))),
                }
            }
            Rvalue::Un { op, a } => {
                let v = self.op(st, fr, a)?;
                if op == "PtrMetadata" {
                    return match v { V::Ptr(p) if p.meta.is_some() => Ok(p.meta.clone().unwrap()), _ => fail("ptr metadata") };
                }
                match v { V::S(s, t) => { let s = self.d.resimp(&st.doms, &s); Ok(V::S(self.d.unop(&st.doms, op, &s, t)?, t)) } _ => fail(format!("unop {} on {}", op, self.showv(&v))) }
            }
            Rvalue::Discr(p) => {
                let (b, path, _) = self.resolve(st, fr, p)?;
                let v = self.read(st, b, &path)?;
                let ty = self.place_ty(body, p);
                self.discr(&st.doms, &v, ty)
            }
            Rvalue::Aggregate(a, ops) => {
                let mut vals = vec![];
                for o in ops { vals.push(self.op(st, fr, o)?); }
                match a {
                    Agg::Array(_) | Agg::Tuple | Agg::Closure(_) => Ok(vagg(vals)),
                    Agg::Adt { ty, variant, union_field } => {
                        if let Some(f) = union_field {
                            let mut a = vec![V::Uninit; *f as usize];
                            a.push(vals.pop().unwrap_or(V::Uninit));
                            return Ok(vagg(a));
                        }
                        match &self.p.types[*ty as usize].kind {
                            TypeKind::Adt { kind: AdtKind::Enum, variants, .. } => Ok(venum(*variant as u128, variants.len(), vals)),
                            _ => Ok(vagg(vals)),
                        }
                    }
                    Agg::RawPtr(_) => match (&vals[0], &vals[1]) {
                        (V::Ptr(p), V::S(..)) => {
                            let mut q = p.as_ref().clone();
                            Self::to_slice(&mut q.path);
                            q.meta = Some(vals[1].clone());
                            Ok(V::Ptr(Rc::new(q)))
                        }
                        (V::Ptr(_), _) => Ok(vals[0].clone()),
                        _ => fail("raw pointer aggregate"),
                    },
                    Agg::Other(s) => fail(format!("aggregate {}", s)),
                }
            }
            Rvalue::Other(s) => fail(format!("rvalue {} (dest type {})", s, dty)),
        }
    }
    pub fn discr(&mut self, st: &Rc<Doms>, v: &V, ty: TyId) -> R<V> {
        let p = self.p;
        let t = &p.types[ty as usize];
        match (v, &t.kind) {
            (V::Enum(i, _), TypeKind::Adt { variants, .. }) => {
                let it = t.discr_ty.and_then(|x| self.ity(x)).unwrap_or(ITy { bits: 64, signed: true, float: false });
                let i = self.d.resimp(st, i);
                let r = match &i {
                    Sc::C(c) => Sc::C(variants[*c as usize].discr & it.mask()),
                    Sc::T(t) => self.d.map1(st, t, |x| variants.get(x as usize).map_or(0, |v| v.discr & it.mask())),
                    _ => return fail("discriminant"),
                };
                Ok(V::S(r, it))
            }
            (V::Uninit, _) => Ok(V::Uninit),
            _ => fail(format!("discriminant of {}", self.showv(v))),
        }
    }
    fn ptr_cast(&self, v: V, from: TyId, to: TyId) -> V {
        let p = self.p;
        let q = match &v { V::Ptr(q) => q, _ => return v };
        let pointee = |t: TyId| match &p.types[t as usize].kind { TypeKind::Ref { ty, .. } | TypeKind::Ptr { ty, .. } => Some(*ty), _ => None };
        let (a, b) = match (pointee(from), pointee(to)) { (Some(a), Some(b)) => (a, b), _ => return v };
        let elem = |t: TyId| match &p.types[t as usize].kind { TypeKind::Slice(e) | TypeKind::Array(e, _) => Some(*e), _ => None };
        let mut q = q.as_ref().clone();
        match (elem(a), elem(b)) {
            (Some(e), None) if e == b || p.types[e as usize].size == p.types[b as usize].size => { Self::to_elem(&mut q.path); q.meta = None; }
            (None, Some(e)) if e == a => { if let Some(PE::Index(_)) = q.path.last() { Self::to_slice(&mut q.path); } else { return v; } }
            _ => {
                // into or out of a wrapper around the value
                let inner = |t: TyId| -> Option<(u32, TyId)> {
                    if let TypeKind::Adt { kind: AdtKind::Struct | AdtKind::Union, variants, .. } = &p.types[t as usize].kind {
                        let big: Vec<_> = variants[0].fields.iter().enumerate().filter(|x| p.types[x.1.ty as usize].size.map_or(true, |s| s > 0)).collect();
                        if big.len() == 1 { return Some((big[0].0 as u32, big[0].1.ty)); }
                    }
                    None
                };
                let mut t = a;
                let mut down = vec![];
                while t != b { match inner(t) { Some((i, u)) => { down.push(PE::Field(i)); t = u; } None => break } }
                if t == b { q.path.extend(down); return V::Ptr(Rc::new(q)); }
                let mut t = b;
                let mut up = vec![];
                while t != a { match inner(t) { Some((i, u)) => { up.push(PE::Field(i)); t = u; } None => break } }
                if t == a && q.path.ends_with(&up) { q.path.truncate(q.path.len() - up.len()); return V::Ptr(Rc::new(q)); }
                return v;
            }
        }
        V::Ptr(Rc::new(q))
    }
    fn cast(&mut self, st: &St, kind: &str, v: V, ty: TyId, op: &Operand, body: &Body) -> R<V> {
        let p = self.p;
        match kind {
            "IntToInt" | "FloatToInt" | "IntToFloat" | "FloatToFloat" => {
                let to = match self.ity(ty) { Some(t) => t, None => return fail("cast target") };
                match v {
                    V::S(s, t) => Ok(V::S(self.d.cast(&st.doms, &s, t, to)?, to)),
                    V::Enum(..) => {
                        let ety = match op { Operand::Copy(pl) | Operand::Move(pl) => self.place_ty(body, pl), Operand::Const { ty, .. } => *ty, _ => return fail("cast") };
                        match self.discr(&st.doms, &v, ety)? { V::S(s, t) => Ok(V::S(self.d.cast(&st.doms, &s, t, to)?, to)), _ => fail("cast") }
                    }
                    _ => fail(format!("cast of {}", self.showv(&v))),
                }
            }
            "PtrToPtr" => {
                let sty = match op { Operand::Copy(pl) | Operand::Move(pl) => self.place_ty(body, pl), Operand::Const { ty, .. } => *ty, _ => return Ok(v) };
                Ok(self.ptr_cast(v, sty, ty))
            }
            "Transmute" => {
                match (&v, &p.types[ty as usize].kind) {
                    (V::S(s, t), TypeKind::Adt { kind: AdtKind::Enum, variants, .. }) => {
                        let s = self.d.resimp(&st.doms, s);
                        let look = |x: u128| variants.iter().position(|w| (w.discr & t.mask()) == x).map(|i| i as u128);
                        if variants.len() == 2 && variants[0].fields.is_empty() && variants[1].fields.len() == 1 {
                            // niche of zero: Option of a non-zero number
                            let z = match &s { Sc::C(c) => *c == 0, Sc::T(t) => { let vs = self.d.values(&st.doms, t); if vs.len() > 1 && vs.contains(&0) { return Err(Stop::Split(t.clone())); } vs.contains(&0) } _ => return fail("transmute to enum") };
                            if z { return Ok(venum(0, 2, vec![])); }
                            let from = match op { Operand::Copy(pl) | Operand::Move(pl) => self.place_ty(body, pl), Operand::Const { ty, .. } => *ty, _ => return fail("transmute") };
                            let w = self.reshape(&st.doms, V::S(s, *t), from, variants[1].fields[0].ty)?;
                            return Ok(venum(1, 2, vec![w]));
                        }
                        let vals = match &s { Sc::C(c) => vec![*c], Sc::T(t) => self.d.values(&st.doms, t), _ => return fail("transmute to enum") };
                        if vals.iter().any(|x| look(*x).is_none()) { return fail("transmute to invalid enum value"); }
                        let u: Vec<_> = variants.iter().map(|_| Some(Rc::new(vec![]))).collect();
                        let i = match &s { Sc::C(c) => Sc::C(look(*c).unwrap()), Sc::T(t) => self.d.map1(&st.doms, t, |x| look(x).unwrap_or(0)), _ => unreachable!() };
                        Ok(V::Enum(i, Rc::new(u)))
                    }
                    (V::S(s, t), k) if !matches!(k, TypeKind::Adt { .. }) => match self.ity(ty) {
                        Some(to) if to.bits == t.bits || (t.bits == 1 && to.bits == 8) => {
                            if to.float == t.float { Ok(V::S(s.clone(), to)) } else {
                                match s { Sc::C(_) => Ok(V::S(s.clone(), to)), _ => Ok(V::S(self.d.opaque("bitcast", vec![s.clone()], to), to)) }
                            }
                        }
                        _ => fail("transmute"),
                    },
                    (V::Enum(..), _) if self.ity(ty).is_some() => {
                        let ety = match op { Operand::Copy(pl) | Operand::Move(pl) => self.place_ty(body, pl), Operand::Const { ty, .. } => *ty, _ => return fail("transmute") };
                        let to = self.ity(ty).unwrap();
                        match self.discr(&st.doms, &v, ety)? { V::S(s, t) => Ok(V::S(self.d.cast(&st.doms, &s, t, to)?, to)), _ => fail("transmute") }
                    }
                    (V::Ptr(_), _) => {
                        let sty = match op { Operand::Copy(pl) | Operand::Move(pl) => self.place_ty(body, pl), Operand::Const { ty, .. } => *ty, _ => return Ok(v) };
                        Ok(self.ptr_cast(v, sty, ty))
                    }
                    _ => {
                        let sty = match op { Operand::Copy(pl) | Operand::Move(pl) => self.place_ty(body, pl), Operand::Const { ty, .. } => *ty, _ => return fail("transmute") };
                        self.reshape(&st.doms, v, sty, ty)
                    }
                }
            }
            "BoxDerefTransmute" => Ok(v),
            k if k.contains("Unsize") => {
                let sty = match op { Operand::Copy(pl) | Operand::Move(pl) => self.place_ty(body, pl), Operand::Const { ty, .. } => *ty, _ => return fail("unsize") };
                let pointee = match &p.types[sty as usize].kind { TypeKind::Ref { ty, .. } | TypeKind::Ptr { ty, .. } => *ty, _ => return Ok(v) };
                if let (TypeKind::Array(_, n), V::Ptr(q)) = (&p.types[pointee as usize].kind, &v) {
                    let mut q = q.as_ref().clone();
                    q.meta = Some(vc(*n as i128, U64));
                    return Ok(V::Ptr(Rc::new(q)));
                }
                Ok(v)
            }
            k if k.starts_with("PointerCoercion") => {
                match v { V::Agg(_) => { if let TypeKind::FnPtr = &p.types[ty as usize].kind { return fail("closure to fn pointer"); } Ok(v) } v => Ok(v) }
            }
            _ => fail(format!("cast kind {}", kind)),
        }
    }

    // ---------- splitting ----------
    /// partition the state by the value of a table
    pub fn split(&mut self, doms: &Rc<Doms>, t: &Rc<Tab>) -> R<Vec<Rc<Doms>>> {
        let groups = self.partition(doms, t)?;
        Ok(groups.into_iter().map(|x| x.1).collect())
    }
    pub fn partition(&mut self, doms: &Rc<Doms>, t: &Rc<Tab>) -> R<Vec<(u128, Rc<Doms>)>> {
        if self.d.late() { return fail("fuel exhausted"); }
        let t = match self.d.simp(doms, t.sup.clone(), t.data.clone()) { Sc::T(t) => t, Sc::C(c) => return Ok(vec![(c, doms.clone())]), _ => unreachable!() };
        if t.sup.len() == 1 {
            let s = t.sup[0];
            let m = self.d.fwd(doms, s);
            let mut g: BTreeMap<u128, u128> = BTreeMap::new();
            for i in 0..self.d.syms[s as usize].size { if (m >> i) & 1 == 1 { *g.entry(t.data[i as usize]).or_default() |= 1u128 << i; } }
            let mut out = vec![];
            for (v, mask) in g {
                let nd = doms.with(s, mask);
                if !self.d.empty(&nd) { out.push((v, nd)); }
            }
            return Ok(out);
        }
        let mut vals: Vec<u128> = t.data.clone();
        vals.sort();
        vals.dedup();
        if vals.len() > 128 {
            // too many values for one selector: split one of the symbols instead
            let s = *t.sup.iter().min_by_key(|s| self.d.syms[**s as usize].size).unwrap();
            let st = Rc::new(self.d.sym_tab(s));
            return Ok(self.partition(doms, &st)?.into_iter().collect());
        }
        let m = self.d.materialise(doms, &t)?;
        let r = self.partition(doms, &m)?;
        if r.len() == 1 && r[0].1.d == doms.d {
            // constant, but only seen through the defined symbol: record that
            let x = m.sup[0];
            let mut mask = 0u128;
            for (i, o) in self.d.combos(doms, &m.sup).iter().enumerate() { if *o { mask |= 1 << i; } }
            let nd = doms.with(x, mask);
            return Ok(if self.d.empty(&nd) { vec![] } else { vec![(r[0].0, nd)] });
        }
        Ok(r)
    }

    // ---------- merging ----------
    pub fn mux_v(&mut self, st: &Rc<Doms>, x: Sym, m: u128, a: &V, b: &V) -> Option<V> {
        if a == b { return Some(a.clone()); }
        match (a, b) {
            (V::Uninit, v) | (v, V::Uninit) => Some(v.clone()),
            (V::S(p, t), V::S(q, u)) => {
                if t != u { return None; }
                let r = match (p, q) {
                    (Sc::C(_) | Sc::T(_) | Sc::B(_), Sc::C(_) | Sc::T(_) | Sc::B(_)) => self.d.mux(st, x, m, p, q, 0),
                    _ => None,
                };
                if let Some(r) = r { return Some(V::S(r, *t)); }
                if matches!(p, Sc::B(_)) || matches!(q, Sc::B(_)) { return None; }
                let lp = self.d.to_lin(st, p, *t).ok()?;
                let lq = self.d.to_lin(st, q, *t).ok()?;
                let l = self.d.mux_lin(st, x, m, &lp, &lq)?;
                Some(V::S(self.d.from_lin(st, l, *t), *t))
            }
            (V::Agg(p), V::Agg(q)) => {
                if p.len() != q.len() { return None; }
                let mut out = Vec::with_capacity(p.len());
                for (u, v) in p.iter().zip(q.iter()) { out.push(self.mux_v(st, x, m, u, v)?); }
                Some(vagg(out))
            }
            (V::Vec(p), V::Vec(q)) => {
                if p.len() != q.len() { return None; }
                let mut out = Vec::with_capacity(p.len());
                for (u, v) in p.iter().zip(q.iter()) { out.push(self.mux_v(st, x, m, u, v)?); }
                Some(V::Vec(Rc::new(out)))
            }
            (V::Enum(i, p), V::Enum(j, q)) => {
                if p.len() != q.len() { return None; }
                let k = self.d.mux(st, x, m, i, j, 0)?;
                let mut out = vec![];
                for (u, v) in p.iter().zip(q.iter()) {
                    out.push(match (u, v) {
                        (None, None) => None,
                        (Some(u), None) => Some(u.clone()),
                        (None, Some(v)) => Some(v.clone()),
                        (Some(u), Some(v)) => match self.mux_v(st, x, m, &V::Agg(u.clone()), &V::Agg(v.clone()))? { V::Agg(w) => Some(w), _ => return None },
                    });
                }
                Some(V::Enum(k, Rc::new(out)))
            }
            _ => None,
        }
    }
    fn try_merge(&mut self, x: Sym, a: &St, b: &St) -> Option<St> {
        if a.log != b.log || a.frames.len() != b.frames.len() { return None; }
        if a.frames[0].len() != b.frames[0].len() {
            let n = a.frames[0].len().max(b.frames[0].len());
            let (mut a, mut b) = (a.clone(), b.clone());
            for s in [&mut a, &mut b] { Rc::make_mut(&mut s.frames[0]).resize(n, V::Uninit); }
            return self.try_merge(x, &a, &b);
        }
        let ma = self.d.base_dom(&a.doms, x);
        let mb = self.d.base_dom(&b.doms, x);
        let same = a.frames.iter().zip(&b.frames).all(|(p, q)| Rc::ptr_eq(p, q) || p == q);
        if ma & mb != 0 && !same { return None; }
        let m = ma | mb;
        let fullm = full(self.d.syms[x as usize].size);
        let nd = if m == fullm { a.doms.without(x) } else { a.doms.with(x, m) };
        if same { self.merges += 1; return Some(St { doms: nd, frames: a.frames.clone(), log: a.log.clone() }); }
        let mut frames = vec![];
        for (p, q) in a.frames.iter().zip(&b.frames) {
            if Rc::ptr_eq(p, q) || p == q { frames.push(p.clone()); continue; }
            let mut out = Vec::with_capacity(p.len());
            for (u, v) in p.iter().zip(q.iter()) { out.push(self.mux_v(&nd, x, ma, u, v)?); }
            frames.push(Rc::new(out));
        }
        self.merges += 1;
        Some(St { doms: nd, frames, log: a.log.clone() })
    }
    pub fn merge_all(&mut self, mut v: Vec<St>) -> Vec<St> {
        if v.len() <= 1 { return v; }
        let mut reduced = false;
        loop {
            let mut changed = self.merge_keyed(&mut v);
            if v.len() <= 1 { return v; }
            changed |= self.merge_pairs(&mut v);
            if v.len() <= 1 { return v; }
            if !changed && !reduced {
                reduced = true;
                for s in v.iter_mut() {
                    let r = self.d.reduce_doms(&s.doms);
                    if r.d != s.doms.d { s.doms = r; changed = true; }
                }
            }
            if !changed { return v; }
        }
    }
    /// join states whose domains differ in one symbol
    fn merge_keyed(&mut self, v: &mut Vec<St>) -> bool {
        let mut any = false;
        loop {
            let mut changed = false;
            let mut syms: Vec<Sym> = v.iter().flat_map(|s| s.doms.d.iter().map(|x| x.0)).collect();
            syms.sort();
            syms.dedup();
            syms.reverse();
            for x in syms {
                if v.len() <= 1 { break; }
                let mut ix: HashMap<Vec<(Sym, u128)>, Vec<usize>> = HashMap::new();
                let mut order: Vec<Vec<(Sym, u128)>> = vec![];
                for (i, s) in v.iter().enumerate() {
                    let k: Vec<(Sym, u128)> = s.doms.d.iter().cloned().filter(|y| y.0 != x).collect();
                    let e = ix.entry(k.clone()).or_default();
                    if e.is_empty() { order.push(k); }
                    e.push(i);
                }
                if order.len() == v.len() { continue; }
                let mut out: Vec<St> = vec![];
                for k in order {
                    let g = &ix[&k];
                    let mut accs: Vec<St> = vec![];
                    for i in g {
                        let s = &v[*i];
                        let mut done = false;
                        for a in accs.iter_mut() {
                            if let Some(n) = self.try_merge(x, a, s) { *a = n; done = true; changed = true; break; }
                        }
                        if !done { accs.push(s.clone()); }
                    }
                    out.extend(accs);
                }
                *v = out;
            }
            if !changed { return any; }
            any = true;
        }
    }
    /// join states whose domains differ in one symbol once implied restrictions are made explicit
    fn merge_pairs(&mut self, v: &mut Vec<St>) -> bool {
        if v.len() > 400 { return false; }
        let mut any = false;
        let mut i = 0;
        while i < v.len() {
            let mut j = i + 1;
            while j < v.len() {
                if let Some(n) = self.merge_pair(&v[i].clone(), &v[j].clone()) {
                    v[i] = n;
                    v.remove(j);
                    any = true;
                    j = i + 1;
                } else { j += 1; }
            }
            i += 1;
        }
        any
    }
    fn merge_pair(&mut self, a: &St, b: &St) -> Option<St> {
        if a.log != b.log || a.frames.len() != b.frames.len() { return None; }
        let mut diff: Vec<Sym> = vec![];
        let (p, q) = (&a.doms.d, &b.doms.d);
        let (mut i, mut j) = (0, 0);
        while i < p.len() || j < q.len() {
            if diff.len() > 6 { return None; }
            if i < p.len() && j < q.len() && p[i].0 == q[j].0 {
                if p[i].1 != q[j].1 { diff.push(p[i].0); }
                i += 1;
                j += 1;
            } else if j >= q.len() || (i < p.len() && p[i].0 < q[j].0) { diff.push(p[i].0); i += 1; } else { diff.push(q[j].0); j += 1; }
        }
        if diff.len() < 2 { return None; }
        let (mut ad, mut bd) = (a.doms.clone(), b.doms.clone());
        let mut left: Vec<Sym> = vec![];
        for s in diff {
            if self.d.syms[s as usize].pred.is_some() { left.push(s); }
            else {
                let (ma, mb) = (self.d.base_dom(&ad, s), self.d.base_dom(&bd, s));
                if self.d.fwd(&b.doms, s) & !ma == 0 && mb & ma == ma { bd = bd.with(s, ma); }
                else if self.d.fwd(&a.doms, s) & !mb == 0 && ma & mb == mb { ad = ad.with(s, mb); }
                else { left.push(s); }
            }
            if left.len() > 1 { return None; }
        }
        if left.len() != 1 { return None; }
        self.try_merge(left[0], &a.with(ad), &b.with(bd))
    }

    // ---------- execution ----------
    pub fn run_fn(&mut self, st: St, f: FnId, args: Vec<V>) -> R<Vec<(St, V)>> {
        if self.stack.len() > 80 { return fail("call depth"); }
        self.called.insert(f);
        if let Some(n) = self.overrides.get(&f).cloned() { return n(self, st, &args, f); }
        if self.d.ft.on { if let Some(r) = self.fnative(&st, f, &args)? { return Ok(r); } }
        if let Some(r) = self.native(&st, f, &args)? { return Ok(r); }
        let p = self.p;
        let func = &p.funcs[f as usize];
        let body = match &func.body {
            Some(b) => b,
            None => return self.unknown_call(st, f, &args),
        };
        if body.arg_count as usize != args.len() { return fail(format!("argument count of {}: {} vs {}", func.name, body.arg_count, args.len())); }
        if self.memo_fns.contains(&f) && !args.iter().any(has_ptr) {
            let key = (f, args.clone());
            if let Some(m) = self.memo.get(&key) {
                if let Some(v) = m.clone() { let v = self.resimp_v(&st.doms, &v); return Ok(vec![(st, v)]); }
            } else {
                let np = self.panics.len();
                let s0 = St::new();
                let r = self.run_body(s0, f, body, args.clone());
                let bad = self.panics.len() > np;
                self.panics.truncate(np);
                let m = match r {
                    Ok(mut v) if !bad && v.len() == 1 && !has_ptr(&v[0].1) && v[0].0.doms.d.is_empty() && v[0].0.log.is_empty() => Some(v.pop().unwrap().1),
                    Ok(_) => None,
                    Err(Stop::Fail(e)) if e.contains("fuel") => return Err(Stop::Fail(e)),
                    Err(_) => None,
                };
                self.memo.insert(key, m.clone());
                if let Some(v) = m { let v = self.resimp_v(&st.doms, &v); return Ok(vec![(st, v)]); }
            }
        }
        self.run_body(st, f, body, args)
    }
    pub fn resimp_v(&mut self, st: &Rc<Doms>, v: &V) -> V {
        if st.d.is_empty() { return v.clone(); }
        match v {
            V::S(s, t) => V::S(self.d.resimp(st, s), *t),
            V::Agg(a) => vagg(a.iter().map(|x| self.resimp_v(st, x)).collect()),
            V::Enum(i, p) => V::Enum(self.d.resimp(st, i), Rc::new(p.iter().map(|x| x.as_ref().map(|a| Rc::new(a.iter().map(|y| self.resimp_v(st, y)).collect()))).collect())),
            _ => v.clone(),
        }
    }
    fn unknown_call(&mut self, st: St, f: FnId, args: &[V]) -> R<Vec<(St, V)>> {
        let func = &self.p.funcs[f as usize];
        if let Some(t) = self.ity(func.output) {
            let mut a = vec![];
            for x in args { if let V::S(s, _) = x { a.push(s.clone()); } else { return fail(format!("call of unknown function {}", func.name)); } }
            let name = func.def.clone();
            let s = self.d.opaque(&name, a, t);
            return Ok(vec![(st, V::S(s, t))]);
        }
        if let TypeKind::Adt { variants, kind, .. } = &self.p.types[func.output as usize].kind {
            // a constructor used as a function
            let nm = func.def.rsplit("::").next().unwrap();
            if let Some(i) = variants.iter().position(|v| v.name == nm && v.fields.len() == args.len()) {
                if func.def.split("::").count() > 1 {
                    let v = if let AdtKind::Enum = kind { venum(i as u128, variants.len(), args.to_vec()) } else { vagg(args.to_vec()) };
                    return Ok(vec![(st, v)]);
                }
            }
        }
        fail(format!("call of unknown function {}", func.name))
    }
    pub fn run_body(&mut self, st: St, f: FnId, body: &'p Body, args: Vec<V>) -> R<Vec<(St, V)>> {
        let cfg = self.cfg(f);
        let fr = st.frames.len() as u32;
        let mut locals = vec![V::Uninit; body.locals.len()];
        for (i, a) in args.into_iter().enumerate() { locals[i + 1] = a; }
        let mut st = st;
        st.frames.push(Rc::new(locals));
        self.stack.push(f);
        let mut work: BTreeMap<Key, (u32, Vec<St>)> = BTreeMap::new();
        let mut rets: Vec<St> = vec![];
        let key0: Key = Self::key(&cfg, None, 0);
        work.insert(key0, (0, vec![st]));
        while let Some((key, (b, states))) = work.pop_first() {
            let states: Vec<St> = states.into_iter().map(|mut s| { self.prune(&mut s, &cfg, b, fr); s }).collect();
            let n0 = states.len();
            let states = if self.apart || self.no_merge.contains(&f) { states } else { self.merge_all(states) };
            if self.trace { eprintln!("{}{} bb{} {:?}: {} -> {} states", " ".repeat(self.stack.len()), self.fname(f), b, key, n0, states.len()); }
            if states.len() > self.maxstates { return fail(format!("too many states in {}", self.fname(f))); }
            for s in states {
                self.visited.insert((f, b));
                for (nb, ns) in self.exec_block(s, f, body, b, fr)? {
                    match nb {
                        None => rets.push(ns),
                        Some(t) => {
                            let k = Self::key(&cfg, Some((b, &key)), t);
                            if let Some(i) = k.iter().map(|x| x.1).max() { if i > 5000 { return fail("loop bound"); } }
                            work.entry(k).or_insert((t, vec![])).1.push(ns);
                        }
                    }
                }
            }
        }
        self.stack.pop();
        // keep only the return slot
        for s in rets.iter_mut() {
            let fr = Rc::make_mut(s.frames.last_mut().unwrap());
            for l in fr.iter_mut().skip(1) { *l = V::Uninit; }
        }
        if self.trace { for s in &rets { eprintln!("RET {} [{}]", self.fname(f), self.show_doms(&s.doms)); } }
        let rets = if self.apart || self.no_merge.contains(&f) { rets } else { self.merge_all(rets) };
        Ok(rets.into_iter().map(|mut s| {
            let v = s.frames.pop().unwrap()[0].clone();
            let v = if let V::Uninit = v { vagg(vec![]) } else { v };
            (s, v)
        }).collect())
    }
    fn key(cfg: &Cfg, from: Option<(u32, &Key)>, t: u32) -> Key {
        let hs = &cfg.heads[t as usize];
        let mut k = vec![];
        for h in hs {
            let mut it = 0;
            if let Some((b, bk)) = from {
                if let Some(i) = cfg.heads[b as usize].iter().position(|x| x == h) {
                    it = bk[i].1;
                    if *h == t { it += 1; }
                }
            }
            k.push((cfg.pos[*h as usize], it));
        }
        k.push((cfg.pos[t as usize], 0));
        k
    }
    fn prune(&mut self, s: &mut St, cfg: &Cfg, b: u32, fr: u32) {
        let f = &s.frames[fr as usize];
        let mut dirty = false;
        for (i, v) in f.iter().enumerate() {
            if !cfg.live[b as usize][i] && !cfg.borrowed[i] && i != 0 && *v != V::Uninit { dirty = true; break; }
        }
        if dirty {
            let f = Rc::make_mut(&mut s.frames[fr as usize]);
            for (i, v) in f.iter_mut().enumerate() {
                if i != 0 && !cfg.live[b as usize][i] && !cfg.borrowed[i] { *v = V::Uninit; }
            }
        }
    }
    pub fn panic_at(&mut self, f: FnId, msg: String, doms: Rc<Doms>) {
        self.panics.push(Panic { func: f, msg, doms, stack: self.stack.clone() });
    }
    fn exec_block(&mut self, s: St, f: FnId, body: &'p Body, b: u32, fr: u32) -> R<Vec<(Option<u32>, St)>> {
        let blk = &body.blocks[b as usize];
        let mut todo = vec![(s, 0usize)];
        let mut out = vec![];
        while let Some((s, mut i)) = todo.pop() {
            let mut cur = s;
            'run: loop {
                self.steps += 1;
                if self.steps > self.fuel || (self.steps & 63 == 0 && self.d.late()) { return fail(format!("fuel exhausted in {}", self.fname(f))); }
                let r = if i < blk.stmts.len() {
                    let mut c = cur.clone();
                    self.stmt(&mut c, body, &blk.stmts[i].kind, fr).map(|fl| (fl, c))
                } else {
                    let c = cur.clone();
                    self.term(c, f, body, &blk.term, fr)
                };
                match r {
                    Ok((Flow::Next, c)) => { cur = c; i += 1; }
                    Ok((Flow::Jump(t), c)) => { out.push((Some(t), c)); break 'run; }
                    Ok((Flow::Multi(v), _)) => { for (t, c) in v { out.push((Some(t), c)); } break 'run; }
                    Ok((Flow::Ret, c)) => { out.push((None, c)); break 'run; }
                    Ok((Flow::Dead, _)) => break 'run,
                    Err(Stop::Split(t)) => {
                        let parts = self.split(&cur.doms, &t)?;
                        if parts.len() == 1 && parts[0].d == cur.doms.d { return fail(format!("split made no progress in {} on {:?}", self.fname(f), t.sup)); }
                        for d in parts { todo.push((cur.with(d), i)); }
                        break 'run;
                    }
                    Err(Stop::Fail(e)) => {
                        if e.contains(" @ ") { return Err(Stop::Fail(e)); }
                        let line = if i < blk.stmts.len() { blk.stmts[i].line } else { blk.line };
                        let st: Vec<&str> = self.stack.iter().map(|x| self.fname(*x)).collect();
                        return fail(format!("{} @ {} bb{} line {} [{}]", e, self.fname(f), b, line, st.join(" > ")));
                    }
                }
            }
        }
        Ok(out)
    }
    fn stmt(&mut self, st: &mut St, body: &'p Body, k: &'p StmtKind, fr: u32) -> R<Flow> {
        match k {
            StmtKind::Assign(p, r) => {
                let dty = self.place_ty(body, p);
                let v = self.rvalue(st, fr, body, r, dty)?;
                if p.proj.is_empty() {
                    Rc::make_mut(&mut st.frames[fr as usize])[p.local as usize] = v;
                } else {
                    let (b, path, _) = self.resolve(st, fr, p)?;
                    self.write(st, b, &path, v)?;
                }
            }
            StmtKind::SetDiscr(p, i) => {
                let (b, path, _) = self.resolve(st, fr, p)?;
                let v = self.read(st, b, &path)?;
                if let V::Enum(_, pay) = v { self.write(st, b, &path, V::Enum(Sc::C(*i as u128), pay))?; } else { return fail("set discriminant"); }
            }
            StmtKind::Live(l) | StmtKind::Dead(l) => {
                if st.frames[fr as usize][*l as usize] != V::Uninit { Rc::make_mut(&mut st.frames[fr as usize])[*l as usize] = V::Uninit; }
            }
            StmtKind::Assume(_) | StmtKind::Nop => {}
            StmtKind::Copy(a, b, n) => {
                let (a, b, n) = (self.op(st, fr, a)?, self.op(st, fr, b)?, self.op(st, fr, n)?);
                let n = self.usz(st, &n)?;
                self.copy_seq(st, &a, &b, n)?;
            }
        }
        Ok(Flow::Next)
    }
    fn branch(&mut self, st: St, t: &Rc<Tab>, g: &dyn Fn(u128) -> u32) -> R<Vec<(u32, St)>> {
        let m = match self.d.value_sym(&st.doms, t)? {
            Sc::T(t) => self.d.map1(&st.doms, &t, |x| g(x) as u128),
            Sc::C(c) => Sc::C(g(c) as u128),
            _ => unreachable!(),
        };
        match m {
            Sc::C(c) => Ok(vec![(c as u32, st)]),
            Sc::T(m) => {
                let parts = self.partition(&st.doms, &m)?;
                if parts.len() == 1 { return Ok(vec![(parts[0].0 as u32, st)]); }
                Ok(parts.into_iter().map(|(v, d)| (v as u32, st.with(d))).collect())
            }
            _ => unreachable!(),
        }
    }
    fn term(&mut self, st: St, f: FnId, body: &'p Body, t: &'p MTerm, fr: u32) -> R<(Flow, St)> {
        match t {
            MTerm::Goto(b) => Ok((Flow::Jump(*b), st)),
            MTerm::Return => Ok((Flow::Ret, st)),
            MTerm::Drop { target, .. } => Ok((Flow::Jump(*target), st)),
            MTerm::Unreachable => {
                self.panic_at(f, "unreachable".into(), st.doms.clone());
                Ok((Flow::Dead, st))
            }
            MTerm::Resume | MTerm::Abort => Ok((Flow::Dead, st)),
            MTerm::Asm => fail("inline assembly"),
            MTerm::Switch { op, targets, otherwise, .. } => {
                let v = self.op(&st, fr, op)?;
                let (s, ty) = match v { V::S(s, t) => (self.d.resimp(&st.doms, &s), t), _ => return fail("switch operand") };
                match &s {
                    Sc::C(c) => {
                        let b = targets.iter().find(|x| (x.0 & ty.mask()) == *c).map_or(*otherwise, |x| x.1);
                        Ok((Flow::Jump(b), st))
                    }
                    Sc::T(t) => {
                        let g = |x: u128| targets.iter().find(|y| (y.0 & ty.mask()) == x).map_or(*otherwise, |y| y.1);
                        let v = self.branch(st.clone(), t, &g)?;
                        Ok((Flow::Multi(v), st))
                    }
                    _ => {
                        for (x, b) in targets {
                            let e = self.d.cmp(&st.doms, "Eq", &s, &Sc::C(*x & ty.mask()), ty)?;
                            match e {
                                Sc::C(1) => return Ok((Flow::Jump(*b), st)),
                                Sc::C(_) => continue,
                                Sc::T(t) => return Err(Stop::Split(t)),
                                _ => return fail("switch comparison"),
                            }
                        }
                        Ok((Flow::Jump(*otherwise), st))
                    }
                }
            }
            MTerm::Assert { cond, expected, msg, target, .. } => {
                let v = self.op(&st, fr, cond)?;
                let s = match v { V::S(s, _) => self.d.resimp(&st.doms, &s), _ => return fail("assert operand") };
                let e = *expected as u128;
                match &s {
                    Sc::C(c) => {
                        if *c == e { Ok((Flow::Jump(*target), st)) } else { self.panic_at(f, msg.clone(), st.doms.clone()); Ok((Flow::Dead, st)) }
                    }
                    Sc::T(t) => {
                        let v = self.branch(st.clone(), t, &|x| (x == e) as u32)?;
                        let mut out = vec![];
                        for (ok, s) in v {
                            if ok == 1 { out.push((*target, s)); } else { self.panic_at(f, msg.clone(), s.doms.clone()); }
                        }
                        Ok((Flow::Multi(out), st))
                    }
                    _ => fail("assert condition"),
                }
            }
            MTerm::Call { func, callee, args, dest, target } => {
                let p = self.p;
                let target_f = match callee {
                    Some(c) => *c,
                    None => match self.op(&st, fr, func)? { V::Fn(x) => x, _ => return fail("indirect call") },
                };
                let fdef = &p.funcs[target_f as usize];
                let never = matches!(p.types[fdef.output as usize].kind, TypeKind::Never);
                if never || target.is_none() {
                    self.panic_at(f, format!("call to {}", fdef.def), st.doms.clone());
                    return Ok((Flow::Dead, st));
                }
                let mut vals = vec![];
                for a in args { vals.push(self.op(&st, fr, a)?); }
                if fdef.def.contains("{closure#") && vals.len() == 2 {
                    if let (Some(b), V::Agg(t)) = (&fdef.body, &vals[1]) {
                        if b.spread_arg.is_none() && b.arg_count as usize == 1 + t.len() {
                            let t = t.clone();
                            vals.truncate(1);
                            vals.extend(t.iter().cloned());
                        }
                    }
                } else if let Some(b) = &fdef.body {
                    if b.arg_count as usize > vals.len() && vals.len() == 2 {
                        if let V::Agg(t) = &vals[1] { let t = t.clone(); vals.truncate(1); vals.extend(t.iter().cloned()); }
                    }
                }
                let rs = self.run_fn(st.clone(), target_f, vals)?;
                let mut out = vec![];
                let tgt = target.unwrap();
                for (mut s, v) in rs {
                    if dest.proj.is_empty() {
                        Rc::make_mut(&mut s.frames[fr as usize])[dest.local as usize] = v;
                    } else {
                        let (b, path, _) = self.resolve(&s, fr, dest)?;
                        self.write(&mut s, b, &path, v)?;
                    }
                    out.push((tgt, s));
                }
                Ok((Flow::Multi(out), st))
            }
        }
    }

    // ---------- printing ----------
    pub fn showv(&self, v: &V) -> String {
        match v {
            V::S(s, t) => if let (Sc::C(c), true) = (s, t.float) { format!("{}", f64::from_bits(*c as u64)) } else if let Sc::C(c) = s { format!("{}", t.to_i(*c)) } else { self.d.show(s) },
            V::Agg(a) => format!("({})", a.iter().map(|x| self.showv(x)).collect::<Vec<_>>().join(", ")),
            V::Vec(a) => format!("[{}]", a.iter().map(|x| self.showv(x)).collect::<Vec<_>>().join(", ")),
            V::Enum(i, p) => format!("enum#{}{}", self.d.show(i), p.iter().enumerate().filter_map(|(i, x)| x.as_ref().map(|x| format!("<{}:{}>", i, x.iter().map(|y| self.showv(y)).collect::<Vec<_>>().join(",")))).collect::<Vec<_>>().join("")),
            V::Ptr(p) => format!("&{:?}{:?}", p.base, p.path.len()),
            V::It(_) => "iterator".into(),
            V::Fn(f) => format!("fn {}", self.fname(*f)),
            V::Uninit => "uninit".into(),
            V::Top(s) => format!("top({})", s),
        }
    }
    pub fn show_doms(&self, d: &Doms) -> String {
        d.d.iter().map(|(s, m)| {
            let i = &self.d.syms[*s as usize];
            let vals: Vec<String> = (0..i.size).filter(|k| (m >> k) & 1 == 1).map(|k| format!("{}", i.vals[k as usize])).collect();
            let n = if let Some(p) = &i.pred { format!("{}{:?}", i.name, match p { Pred::Ge(l) => format!("{}>=0", self.d.show(&Sc::L(l.clone()))), Pred::Gt(l) => format!("{}>0", self.d.show(&Sc::L(l.clone()))), Pred::Eq(l) => format!("{}==0", self.d.show(&Sc::L(l.clone()))), Pred::Op(n, a) => format!("{}({})", n, a.iter().map(|x| self.d.show(x)).collect::<Vec<_>>().join(",")) }) } else { i.name.clone() };
            format!("{}={{{}}}", n, if vals.len() > 10 { format!("{} values", vals.len()) } else { vals.join(",") })
        }).collect::<Vec<_>>().join(" ")
    }
}

pub fn has_ptr(v: &V) -> bool {
    match v {
        V::Ptr(_) | V::It(_) | V::Uninit | V::Top(_) => true,
        V::Agg(a) | V::Vec(a) => a.iter().any(has_ptr),
        V::Enum(_, p) => p.iter().flatten().any(|a| a.iter().any(has_ptr)),
        _ => false,
    }
}
