// Obligations: symbolic cases, comparison of abstract results, and confirmation
// of every alarm on a concrete member of the offending abstract state.
use crate::dom::*;
use crate::interp::*;
use crate::ir::{FnId, Program, TyId, TypeKind};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

/// a case that takes longer is undecided
const CASE_SECONDS: u64 = 150;
pub const FUEL: u64 = 40_000_000;
pub type Obs = Vec<(Sc, ITy)>;
pub type Run<'a> = &'a dyn Fn(&mut Interp, St, &[V]) -> R<Vec<(St, Obs)>>;

#[derive(Clone, Debug, Default)]
pub struct Asg {
    pub fin: BTreeMap<Sym, u32>,
    pub unb: BTreeMap<USym, i128>,
}

pub struct Finding {
    pub key: String,
    pub text: String,
}

pub struct Ctx<'p> {
    pub code: Interp<'p>,
    pub spec: Interp<'p>,
    pub tier: String,
    pub findings: Vec<Finding>,
    pub inconclusive: Vec<String>,
    pub obligations: u64,
    pub discharged: u64,
    pub cases: u64,
    pub leaves: u64,
    pub comparisons: u64,
    pub infeasible: u64,
    pub anchors: BTreeSet<String>,
    pub rules: Vec<String>,
    pub notes: Vec<String>,
    pub samples: Vec<String>,
    pub verbose: bool,
    pub max_findings: usize,
    /// first question of the current case that stayed open
    pub pending: Option<String>,
    /// time for one case; whether undecided cases are searched for violations
    pub limit: u64,
    pub searching: bool,
}

pub enum Arg {
    V(V),
    R(V),
}

impl<'p> Interp<'p> {
    /// call a function; reference arguments live in a scratch frame and are read back
    pub fn call(&mut self, st: St, f: FnId, args: Vec<Arg>) -> R<Vec<(St, Vec<V>)>> {
        let mut st = st;
        let fr = st.frames.len() as u32;
        let mut cells = vec![];
        let mut av = vec![];
        for a in args {
            match a {
                Arg::V(v) => av.push(v),
                Arg::R(v) => {
                    let meta = match &v { V::Agg(a) if self.arg_is_slice(f, av.len()) => Some(vc(a.len() as i128, U64)), _ => None };
                    av.push(V::Ptr(Rc::new(Ptr { base: Base::Local(fr, cells.len() as u32), path: vec![], meta })));
                    cells.push(v);
                }
            }
        }
        st.frames.push(Rc::new(cells));
        let r = self.run_fn(st, f, av)?;
        Ok(r.into_iter().map(|(mut s, v)| {
            let cells = s.frames.pop().unwrap();
            let mut o = vec![v];
            o.extend(cells.iter().cloned());
            (s, o)
        }).collect())
    }
    fn arg_is_slice(&self, f: FnId, i: usize) -> bool {
        let t = self.p.funcs[f as usize].inputs[i];
        match &self.p.types[t as usize].kind {
            TypeKind::Ref { ty, .. } | TypeKind::Ptr { ty, .. } => matches!(self.p.types[*ty as usize].kind, TypeKind::Slice(_)),
            _ => false,
        }
    }
    /// split a state on a scalar until it is constant there
    pub fn cases_of(&mut self, st: &St, s: &Sc) -> R<Vec<(St, u128)>> {
        match self.d.resimp(&st.doms, s) {
            Sc::C(c) => Ok(vec![(st.clone(), c)]),
            Sc::T(t) => Ok(self.partition(&st.doms, &t)?.into_iter().map(|(v, d)| (st.with(d), v)).collect()),
            _ => fail("case split on an unbounded value"),
        }
    }
    /// flatten a value into scalars, splitting on discriminants of enums that carry data
    pub fn flatten(&mut self, st: St, v: &V, err_code: &dyn Fn(&Interp, TyId, u128) -> Option<u128>, ty: TyId) -> R<Vec<(St, Obs)>> {
        let kind = self.p.types[ty as usize].kind.clone();
        match (v, &kind) {
            (V::S(s, t), _) => { let s = self.d.resimp(&st.doms, s); Ok(vec![(st, vec![(s, *t)])]) }
            (V::Enum(i, _), TypeKind::Adt { variants, .. }) if variants.iter().all(|v| v.fields.is_empty()) => {
                // plain enums are seen through their discriminants (errors through their kind)
                let i = self.d.resimp(&st.doms, i);
                let vs: Vec<u128> = variants.iter().enumerate().map(|(k, v)| err_code(self, ty, k as u128).unwrap_or(v.discr & 0xffff_ffff)).collect();
                let s = match i {
                    Sc::C(c) => Sc::C(vs[c as usize]),
                    Sc::T(t) => self.d.map1(&st.doms, &t, |x| vs.get(x as usize).cloned().unwrap_or(0)),
                    _ => return fail("enum discriminant"),
                };
                Ok(vec![(st, vec![(s, ITy::I32)])])
            }
            (V::Enum(i, pay), TypeKind::Adt { name, variants, args, .. }) => {
                let is_res = name.ends_with("Result");
                let mut out = vec![];
                for (s, k) in self.cases_of(&st, i)? {
                    let p = match &pay[k as usize] { Some(p) => p.clone(), None => Rc::new(vec![]) };
                    let fts: Vec<TyId> = variants[k as usize].fields.iter().map(|f| f.ty).collect();
                    let _ = args;
                    let mut acc: Vec<(St, Obs)> = vec![(s, if is_res { if k == 0 { vec![(Sc::C(0), ITy::I32)] } else { vec![] } } else { vec![(Sc::C(k), ITy::I32)] })];
                    for (x, ft) in p.iter().zip(&fts) {
                        let mut next = vec![];
                        for (s, o) in acc {
                            for (s2, o2) in self.flatten(s, x, err_code, *ft)? { let mut o = o.clone(); o.extend(o2); next.push((s2, o)); }
                        }
                        acc = next;
                    }
                    out.extend(acc);
                }
                Ok(out)
            }
            (V::Agg(a), k) => {
                let tys: Vec<TyId> = match k {
                    TypeKind::Tuple(t) => t.clone(),
                    TypeKind::Array(t, n) => vec![*t; *n as usize],
                    TypeKind::Adt { variants, .. } if variants.len() == 1 => variants[0].fields.iter().map(|f| f.ty).collect(),
                    _ => if a.is_empty() { vec![] } else { return fail(format!("flatten {:?}", k)); },
                };
                let mut acc: Vec<(St, Obs)> = vec![(st, vec![])];
                for (x, t) in a.iter().zip(&tys) {
                    let mut next = vec![];
                    for (s, o) in acc {
                        for (s2, o2) in self.flatten(s, x, err_code, *t)? { let mut o = o.clone(); o.extend(o2); next.push((s2, o)); }
                    }
                    acc = next;
                }
                Ok(acc)
            }
            (V::Vec(a), TypeKind::Adt { args, .. }) => {
                let t = *args.first().unwrap_or(&ty);
                let mut acc: Vec<(St, Obs)> = vec![(st, vec![(Sc::C(a.len() as u128), U64)])];
                for x in a.iter() {
                    let mut next = vec![];
                    for (s, o) in acc {
                        for (s2, o2) in self.flatten(s, x, err_code, t)? { let mut o = o.clone(); o.extend(o2); next.push((s2, o)); }
                    }
                    acc = next;
                }
                Ok(acc)
            }
            _ => fail(format!("flatten {}", self.showv(v))),
        }
    }
    pub fn flat(&mut self, st: St, v: &V, ty: TyId) -> R<Vec<(St, Obs)>> {
        self.flatten(st, v, &err_kind, ty)
    }
    /// call and flatten the result and the reference arguments
    pub fn call_flat(&mut self, st: St, f: FnId, args: Vec<Arg>) -> R<Vec<(St, Obs)>> {
        let p = self.p;
        let func = &p.funcs[f as usize];
        let mut rt: Vec<TyId> = vec![func.output];
        for (a, t) in args.iter().zip(&func.inputs) {
            if let Arg::R(_) = a {
                match &p.types[*t as usize].kind { TypeKind::Ref { ty, .. } | TypeKind::Ptr { ty, .. } => rt.push(*ty), _ => return fail("reference argument expected") }
            }
        }
        let mut out = vec![];
        for (s, vs) in self.call(st, f, args)? {
            let mut acc: Vec<(St, Obs)> = vec![(s, vec![])];
            for (v, t) in vs.iter().zip(&rt) {
                let mut next = vec![];
                for (s, o) in acc {
                    for (s2, o2) in self.flat(s, v, *t)? { let mut o = o.clone(); o.extend(o2); next.push((s2, o)); }
                }
                acc = next;
            }
            out.extend(acc);
        }
        Ok(out)
    }
    /// run something that may ask for case splits
    pub fn splitting<T>(&mut self, st: St, f: &mut dyn FnMut(&mut Interp, &St) -> R<T>) -> R<Vec<(St, T)>> {
        let mut todo = vec![st];
        let mut out = vec![];
        while let Some(s) = todo.pop() {
            match f(self, &s) {
                Ok(x) => out.push((s, x)),
                Err(Stop::Split(t)) => {
                    let parts = self.split(&s.doms, &t)?;
                    if parts.len() == 1 && parts[0].d == s.doms.d {
                        return fail(format!("split made no progress: {} in [{}]", self.d.show(&Sc::T(t.clone())), self.show_doms(&s.doms))); }
                    for d in parts { todo.push(s.with(d)); }
                }
                Err(e) => return Err(e),
            }
        }
        Ok(out)
    }
    // ---------- concretisation ----------
    pub fn eval_sym(&self, s: Sym, a: &Asg) -> Option<u32> {
        if let Some(v) = a.fin.get(&s) { return Some(*v); }
        let i = &self.d.syms[s as usize];
        if let Some(def) = &i.def {
            let mut k = 0usize;
            for (x, n) in def.sup.iter().zip(&def.dims) { k = k * *n as usize + self.eval_sym(*x, a)? as usize; }
            return Some(def.data[k] as u32);
        }
        match &i.pred {
            Some(Pred::Ge(l)) => Some((self.eval_lin(l, a)?.0 >= 0) as u32),
            Some(Pred::Gt(l)) => Some((self.eval_lin(l, a)?.0 > 0) as u32),
            Some(Pred::Eq(l)) => Some((self.eval_lin(l, a)?.0 == 0) as u32),
            Some(Pred::Op(o, v)) if v.len() == 2 && v.iter().any(|x| matches!(x, Sc::B(_))) => {
                let (x, y) = (self.eval_sc(&v[0], U64, a)?, self.eval_sc(&v[1], U64, a)?);
                Some(match o.as_str() { "eq" => x == y, "Lt" => x < y, "Le" => x <= y, "Gt" => x > y, "Ge" => x >= y, _ => return None } as u32)
            }
            _ => None,
        }
    }
    pub fn eval_usym(&self, u: USym, a: &Asg) -> Option<i128> {
        if let Some(v) = a.unb.get(&u) { return Some(*v); }
        match &self.d.usyms[u as usize].term {
            Term::Bits(w, o, n) => { let x = self.eval_usym(*w, a)?; Some(((x as u128 >> o) & ((1u128 << n) - 1)) as i128) }
            Term::Prod(p, q) => self.eval_usym(*p, a)?.checked_mul(self.eval_usym(*q, a)?),
            Term::Norm(p, q) => {
                let (x, d1) = self.eval_lin(p, a)?;
                let (y, d2) = self.eval_lin(q, a)?;
                if d1 != 1 || d2 != 1 { return None; }
                Some(0.max(-x).max(-y))
            }
            _ => None,
        }
    }
    pub fn eval_lin(&self, l: &Lin, a: &Asg) -> Option<(i128, i128)> {
        let mut v = l.c;
        for (s, t) in &l.tabs {
            let mut k = 0usize;
            for x in s { k = k * self.d.syms[*x as usize].size as usize + self.eval_sym(*x, a)? as usize; }
            v += t[k];
        }
        for (u, c) in &l.unb { v += c * self.eval_usym(*u, a)?; }
        Some((v, l.den))
    }
    pub fn eval_tab(&self, t: &Tab, a: &Asg) -> Option<u128> {
        let mut k = 0usize;
        for (x, n) in t.sup.iter().zip(&t.dims) { k = k * *n as usize + self.eval_sym(*x, a)? as usize; }
        Some(t.data[k])
    }
    pub fn eval_sc(&self, s: &Sc, ty: ITy, a: &Asg) -> Option<u128> {
        match s {
            Sc::C(c) => Some(*c),
            Sc::T(t) => self.eval_tab(t, a),
            Sc::B(b) => {
                let mut v = 0u128;
                let mut o = 0u32;
                for g in b.iter() {
                    let x = match &g.k { SegK::C(c) => *c as u128, SegK::T(t) => self.eval_tab(t, a)?, SegK::Op(u, f) => (self.eval_usym(*u, a)? as u128 >> f) & ((1u128 << g.len) - 1) };
                    v |= x << o;
                    o += g.len as u32;
                }
                Some(v)
            }
            Sc::L(l) => {
                let (n, d) = self.eval_lin(l, a)?;
                if ty.float { return Some((n as f64 / d as f64).to_bits() as u128); }
                if d != 1 && n % d != 0 { return None; }
                Some(ty.wrap(n / d))
            }
        }
    }
    pub fn eval_v(&self, v: &V, a: &Asg) -> Option<V> {
        Some(match v {
            V::S(s, t) => V::S(Sc::C(self.eval_sc(s, *t, a)?), *t),
            V::Agg(x) => vagg(x.iter().map(|y| self.eval_v(y, a)).collect::<Option<Vec<_>>>()?),
            V::Vec(x) => V::Vec(Rc::new(x.iter().map(|y| self.eval_v(y, a)).collect::<Option<Vec<_>>>()?)),
            V::Enum(i, p) => {
                let mut o = vec![];
                for q in p.iter() { o.push(match q { Some(q) => Some(Rc::new(q.iter().map(|y| self.eval_v(y, a)).collect::<Option<Vec<_>>>()?)), None => None }); }
                V::Enum(Sc::C(self.eval_sc(i, U64, a)?), Rc::new(o))
            }
            v => v.clone(),
        })
    }
    fn base_syms(&self, s: Sym, out: &mut BTreeSet<Sym>, uo: &mut BTreeSet<USym>, seen: &mut BTreeSet<Sym>) {
        if !seen.insert(s) { return; }
        let i = &self.d.syms[s as usize];
        if let Some(def) = &i.def { for x in def.sup.clone() { self.base_syms(x, out, uo, seen); } }
        else if let Some(p) = &i.pred {
            match p { Pred::Ge(l) | Pred::Gt(l) | Pred::Eq(l) => { let l = l.clone(); self.base_lin(&l, out, uo, seen); } _ => {} }
        } else { out.insert(s); }
    }
    fn base_lin(&self, l: &Lin, out: &mut BTreeSet<Sym>, uo: &mut BTreeSet<USym>, seen: &mut BTreeSet<Sym>) {
        for (s, _) in &l.tabs { for x in s { self.base_syms(*x, out, uo, seen); } }
        for (u, _) in &l.unb { self.base_u(*u, out, uo, seen); }
    }
    fn base_u(&self, u: USym, out: &mut BTreeSet<Sym>, uo: &mut BTreeSet<USym>, seen: &mut BTreeSet<Sym>) {
        match &self.d.usyms[u as usize].term {
            Term::Bits(w, _, _) => self.base_u(*w, out, uo, seen),
            Term::Prod(a, b) => { self.base_u(*a, out, uo, seen); self.base_u(*b, out, uo, seen); }
            Term::Norm(a, b) => { self.base_lin(&a.clone(), out, uo, seen); self.base_lin(&b.clone(), out, uo, seen); }
            _ => { uo.insert(u); }
        }
    }
    fn base_sc(&self, s: &Sc, out: &mut BTreeSet<Sym>, uo: &mut BTreeSet<USym>, seen: &mut BTreeSet<Sym>) {
        match s {
            Sc::C(_) => {}
            Sc::T(t) => for x in &t.sup { self.base_syms(*x, out, uo, seen); },
            Sc::B(b) => for g in b.iter() { match &g.k { SegK::T(t) => for x in &t.sup { self.base_syms(*x, out, uo, seen); }, SegK::Op(u, _) => self.base_u(*u, out, uo, seen), _ => {} } },
            Sc::L(l) => self.base_lin(l, out, uo, seen),
        }
    }
    fn base_v(&self, v: &V, out: &mut BTreeSet<Sym>, uo: &mut BTreeSet<USym>, seen: &mut BTreeSet<Sym>) {
        match v {
            V::S(s, _) => self.base_sc(s, out, uo, seen),
            V::Agg(a) | V::Vec(a) => for x in a.iter() { self.base_v(x, out, uo, seen); },
            V::Enum(i, p) => { self.base_sc(i, out, uo, seen); for q in p.iter().flatten() { for x in q.iter() { self.base_v(x, out, uo, seen); } } }
            _ => {}
        }
    }
    /// a concrete assignment of all base symbols of the inputs that satisfies the state; Err = gave up
    pub fn solve(&mut self, doms: &Rc<Doms>, inputs: &[V]) -> Result<Option<Asg>, String> {
        let mut fin = BTreeSet::new();
        let mut unb = BTreeSet::new();
        let mut seen = BTreeSet::new();
        for (s, _) in &doms.d { self.base_syms(*s, &mut fin, &mut unb, &mut seen); }
        for v in inputs { self.base_v(v, &mut fin, &mut unb, &mut seen); }
        let fin: Vec<Sym> = fin.into_iter().collect();
        let mut unb: Vec<USym> = unb.into_iter().collect();
        unb.sort_by_key(|u| { let i = &self.d.usyms[*u as usize]; match (i.lo, i.hi) { (Some(l), Some(h)) => h - l, _ => i128::MAX } });
        match self.d.joint(doms, &fin) {
            Some(None) => return Ok(None),
            Some(Some(w)) => {
                let mut a = Asg::default();
                for s in &fin { a.fin.insert(*s, w[s]); }
                let mut nodes = 0u32;
                let mut d = doms.clone();
                for s in &fin { d = d.with(*s, 1u128 << w[s]); }
                if let Some(a) = self.solve_unb(&d, a, &unb, &mut nodes) { return Ok(Some(a)); }
            }
            None => {}
        }
        if self.d.no_point(doms) { return Ok(None); }
        let mut nodes = 0u32;
        let r = self.solve_rec(doms, &fin, 0, &unb, &mut nodes);
        if r.is_none() && self.d.poly && self.no_pattern(doms, &seen.iter().cloned().filter(|s| matches!(self.d.syms[*s as usize].pred, Some(Pred::Ge(_) | Pred::Gt(_) | Pred::Eq(_)))).collect::<Vec<_>>(), &mut 0) { return Ok(None); }
        if r.is_none() && (nodes > 20000 || !unb.is_empty()) && !self.d.empty(doms) { return Err(format!("no witness found in [{}]", self.show_doms(doms))); }
        Ok(r)
    }
    /// every combination of the linear conditions of a state is contradictory
    fn no_pattern(&mut self, doms: &Rc<Doms>, preds: &[Sym], nodes: &mut u32) -> bool {
        *nodes += 1;
        if *nodes > 4000 { return false; }
        if self.d.empty(doms) { return true; }
        let s = match preds.iter().find(|s| self.d.fwd(doms, **s).count_ones() > 1) { Some(s) => *s, None => {
            let _ = nodes; return self.d.empty(&self.fix_preds(doms, preds)); } };
        (0..2).all(|v| { let d = doms.with(s, 1 << v); self.no_pattern(&d, preds, nodes) })
    }
    fn fix_preds(&self, doms: &Rc<Doms>, preds: &[Sym]) -> Rc<Doms> {
        let mut d = doms.clone();
        for s in preds { let m = self.d.fwd(doms, *s); if m != 0 { d = d.with(*s, m); } }
        d
    }
    /// some member of a state, different ones for different seeds
    pub fn member(&mut self, doms: &Rc<Doms>, inputs: &[V], k: u32, seed: &mut u64) -> Option<Asg> {
        let mut rnd = || { *seed ^= *seed << 13; *seed ^= *seed >> 7; *seed ^= *seed << 17; *seed };
        let mut fin = BTreeSet::new();
        let mut unb = BTreeSet::new();
        let mut seen = BTreeSet::new();
        for (s, _) in &doms.d { self.base_syms(*s, &mut fin, &mut unb, &mut seen); }
        for v in inputs { self.base_v(v, &mut fin, &mut unb, &mut seen); }
        let fin: Vec<Sym> = fin.into_iter().collect();
        let mut d = doms.clone();
        for s in &fin {
            if k % 4 == 0 && rnd() % 2 == 0 { continue; }
            let m = self.d.fwd(&d, *s);
            let vals: Vec<u32> = (0..128).filter(|v| (m >> v) & 1 == 1).collect();
            if vals.is_empty() { return None; }
            let v = match (k + 1) % 3 { 0 => vals[rnd() as usize % vals.len()], 1 => if rnd() % 3 == 0 { vals[rnd() as usize % vals.len()] } else { vals[vals.len() - 1] }, _ => if rnd() % 3 == 0 { vals[rnd() as usize % vals.len()] } else { vals[0] } };
            let nd = d.with(*s, 1u128 << v);
            if !self.d.empty(&nd) { d = nd; }
        }
        let mut a = Asg::default();
        match self.d.joint(&d, &fin) { Some(Some(w)) => for s in &fin { a.fin.insert(*s, w[s]); }, _ => return None }
        for u in unb {
            let i = &self.d.usyms[u as usize];
            let (lo, hi) = (i.lo.unwrap_or(-(1 << 40)), i.hi.unwrap_or(1 << 40));
            let span = (hi - lo).max(0) as u128 + 1;
            let v = match rnd() % 4 { 0 => lo + (rnd() as u128 % span.min(20)) as i128, 1 => hi - (rnd() as u128 % span.min(20)) as i128, 2 => lo + (rnd() as u128 % span) as i128, _ => { let b = rnd() % 63; (rnd() & ((1 << b) - 1)) as i128 * if rnd() % 2 == 0 { 1 } else { -1 } } };
            if v < lo || v > hi { return None; }
            a.unb.insert(u, v);
        }
        for (s, m) in doms.d.iter() {
            match self.eval_sym(*s, &a) { Some(v) => if (m >> v) & 1 == 0 { return None; }, None => return None }
        }
        Some(a)
    }
    fn solve_rec(&mut self, doms: &Rc<Doms>, fin: &[Sym], i: usize, unb: &[USym], nodes: &mut u32) -> Option<Asg> {
        *nodes += if self.d.late() { 20001 } else { 1 };
        if *nodes > 20000 { return None; }
        if i == fin.len() {
            let mut a = Asg::default();
            for s in fin { a.fin.insert(*s, self.d.base_dom(doms, *s).trailing_zeros()); }
            return self.solve_unb(doms, a, unb, nodes);
        }
        let m = self.d.fwd(doms, fin[i]);
        for v in 0..128 {
            if (m >> v) & 1 == 0 { continue; }
            let nd = doms.with(fin[i], 1u128 << v);
            if self.d.empty(&nd) { continue; }
            if let Some(a) = self.solve_rec(&nd, fin, i + 1, unb, nodes) { return Some(a); }
        }
        None
    }
    fn solve_unb(&mut self, doms: &Rc<Doms>, a: Asg, unb: &[USym], nodes: &mut u32) -> Option<Asg> {
        let ok = |me: &Interp, a: &Asg, full: bool| doms.d.iter().all(|(s, m)| match me.eval_sym(*s, a) { Some(v) => (m >> v) & 1 == 1, None => !full || matches!(me.d.syms[*s as usize].pred, Some(Pred::Op(..))) });
        if unb.is_empty() { return if ok(self, &a, true) { Some(a) } else { None }; }
        *nodes += if self.d.late() { 20001 } else { 1 };
        if *nodes > 20000 { return None; }
        let u = unb[0];
        let l = Lin { den: 1, c: 0, tabs: vec![], unb: vec![(u, 1)] };
        let (lo, hi) = self.d.interval(doms, &l);
        let mut cand: Vec<i128> = vec![];
        // real symbols: away from the borders first
        let step = match (self.d.usyms[u as usize].is_int, lo, hi) { (false, Some(a), Some(b)) => ((b - a) / 97).max(1), _ => 0 };
        if step > 0 { cand.extend([lo.unwrap() + 17 * step, lo.unwrap() + 50 * step, lo.unwrap() + 83 * step]); }
        for x in [lo, hi].into_iter().flatten() { cand.extend([x, x + 1, x - 1]); }
        let near: Vec<i128> = a.unb.values().cloned().collect();
        for x in near { cand.push(x); for k in [0, 3, 45, 52, 56, 59, 63] { cand.push(x ^ (1 << k)); } }
        cand.extend([0, 1, -1, 2, 3, 7]);
        // roots of the recorded linear facts whose other terms are known
        for (s, _) in &doms.d {
            if let Some(Pred::Ge(f) | Pred::Gt(f) | Pred::Eq(f)) = &self.d.syms[*s as usize].pred {
                let k = match f.unb.iter().find(|x| x.0 == u) { Some(x) => x.1, None => continue };
                let rest = Lin { den: 1, c: f.c, tabs: f.tabs.clone(), unb: f.unb.iter().cloned().filter(|x| x.0 != u).collect() };
                if let Some((c, _)) = self.eval_lin(&rest, &a) { let r = (-c).div_euclid(k); if step > 0 { cand.splice(0..0, [r + step, r - step, r + 1 + step / 8, r - 1 - step / 8, r + 2, r - 1]); } cand.extend([r, r + 1, r - 1]); }
            }
        }
        let info = (self.d.usyms[u as usize].lo, self.d.usyms[u as usize].hi);
        let mut seen = BTreeSet::new();
        for c in cand {
            if info.0.map_or(false, |x| c < x) || info.1.map_or(false, |x| c > x) || !seen.insert(c) { continue; }
            let mut b = a.clone();
            b.unb.insert(u, c);
            if !ok(self, &b, unb.len() == 1) { continue; }
            if let Some(r) = self.solve_unb(doms, b, &unb[1..], nodes) { return Some(r); }
        }
        None
    }
}

/// kinds of failure, by name
pub const KINDS: [&str; 15] = ["Failed", "Domain", "LatLngDomain", "ResDomain", "CellInvalid", "DirectedEdgeInvalid", "UndirectedEdgeInvalid", "VertexInvalid", "Pentagon", "DuplicateInput", "NotNeighbors", "ResMismatch", "Memory", "MemoryBounds", "OptionInvalid"];
pub fn err_kind(it: &Interp, ty: TyId, k: u128) -> Option<u128> {
    match &it.p.types[ty as usize].kind {
        TypeKind::Adt { name, variants, .. } if name.ends_with("Error") => {
            let n = &variants[k as usize].name;
            Some(KINDS.iter().position(|x| x == n).map_or(99, |p| p as u128 + 1))
        }
        _ => None,
    }
}

use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
/// progress shared by all parts of a check
static FOUND: AtomicUsize = AtomicUsize::new(0);
static OPEN: AtomicUsize = AtomicUsize::new(0);
static PROBES: AtomicUsize = AtomicUsize::new(0);
static START: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();

impl<'p> Ctx<'p> {
    pub fn new(code: &'p Program, spec: &'p Program, tier: &str) -> Ctx<'p> {
        Ctx {
            code: Interp::new(code), spec: Interp::new(spec), tier: tier.into(), findings: vec![], inconclusive: vec![], obligations: 0, discharged: 0,
            cases: 0, leaves: 0, comparisons: 0, infeasible: 0, anchors: BTreeSet::new(), rules: vec![], notes: vec![], samples: vec![],
            verbose: std::env::var("VERBOSE").is_ok(), max_findings: 8, pending: None, limit: CASE_SECONDS, searching: true,
        }
    }
    pub fn f(&mut self, n: &str) -> FnId {
        match self.code.find(n) {
            Some(f) => { self.anchors.insert(self.code.fname(f).to_string()); f }
            None => { self.inconclusive.push(format!("anchor {} not found", n)); FnId::MAX }
        }
    }
    pub fn s(&self, n: &str) -> FnId { self.spec.find(n).unwrap_or_else(|| panic!("spec function {}", n)) }
    /// the resolutions to cover (RESS=a-b limits them while debugging)
    pub fn ress(&self) -> std::ops::RangeInclusive<u32> {
        match std::env::var("RESS") { Ok(s) => { let mut i = s.split('-').map(|x| x.parse().unwrap()); let a = i.next().unwrap(); a..=i.next().unwrap_or(a) } _ => 0..=15 }
    }
    pub fn swap(&mut self) { std::mem::swap(&mut self.code.d, &mut self.spec.d); }

    /// `code` and `spec` agree on every member of every case, and `code` never panics
    pub fn equal(&mut self, ob: &str, anchor: FnId, cases: Vec<(String, Rc<Doms>)>, inputs: &[(&str, V)], code: Run, spec: Run) {
        if anchor == FnId::MAX { self.obligations += 1; return; }
        let ins: Vec<V> = inputs.iter().map(|x| x.1.clone()).collect();
        for (cn, doms) in cases {
            self.obligations += 1;
            self.cases += 1;
            // a violation is in hand, or too much is undecided: no answer will change by going on
            let (found, open) = (FOUND.load(SeqCst), OPEN.load(SeqCst));
            let age = START.get_or_init(std::time::Instant::now).elapsed().as_secs();
            if found > 0 && age > 60 { return; }
            if open > 400 || age > 800 { self.inconclusive.push(format!("{} [{}]: not analysed", ob, cn)); return; }
            let t0 = std::time::Instant::now();
            let l0 = self.leaves;
            if self.d_empty(&doms) { self.discharged += 1; continue; }
            let n0 = self.findings.len();
            let d0 = doms.clone();
            self.code.d.deadline = Some(t0 + std::time::Duration::from_secs(self.limit));
            let r = self.equal_case(ob, anchor, &cn, doms, inputs, &ins, code, spec);
            self.code.d.deadline = None;
            match r {
                Ok(()) => { if self.findings.len() == n0 { self.discharged += 1; } }
                Err(e) => {
                    // undecided: look for members of the case that break the property
                    if !self.searching || !self.probe(ob, anchor, &cn, &d0, inputs, &ins, code, spec) {
                        OPEN.fetch_add(1, SeqCst);
                        self.inconclusive.push(match e { Stop::Fail(e) => format!("{} [{}]: {}", ob, cn, e), Stop::Split(_) => format!("{} [{}]: unresolved split", ob, cn) });
                    }
                }
            }
            if self.verbose { eprintln!("{} [{}]: {} leaves {:?} findings {} inconclusive {}", ob, cn, self.leaves - l0, t0.elapsed(), self.findings.len(), self.inconclusive.len()); }
            if self.findings.len() >= self.max_findings { return; }
        }
    }
    /// try to settle an undecided case by a member that is analysed on its own
    fn probe(&mut self, ob: &str, anchor: FnId, cn: &str, doms: &Rc<Doms>, inputs: &[(&str, V)], ins: &[V], code: Run, spec: Run) -> bool {
        let t0 = std::time::Instant::now();
        let mut seed = 0x2545f4914f6cdd1du64 ^ (ob.len() as u64) << 7;
        if PROBES.fetch_add(1, SeqCst) > 160 || std::env::var("NOPROBE").is_ok() { return false; }
        for k in 0..400 {
            if t0.elapsed().as_secs() >= 6 || (FOUND.load(SeqCst) > 0 && START.get_or_init(std::time::Instant::now).elapsed().as_secs() > 60) { break; }
            let a = match self.code.member(doms, ins, k, &mut seed) { Some(a) => a, None => continue };
            self.code.fuel = self.code.steps + FUEL;
            self.spec.fuel = self.spec.steps + FUEL;
            if let Ok(Some(t)) = self.confirm(&a, inputs, ins, code, spec) {
                self.report(ob, anchor, cn, &a, inputs, &t);
                return true;
            }
        }
        false
    }
    fn d_empty(&mut self, d: &Rc<Doms>) -> bool { self.code.d.empty(d) }

    fn equal_case(&mut self, ob: &str, anchor: FnId, cn: &str, doms: Rc<Doms>, inputs: &[(&str, V)], ins: &[V], code: Run, spec: Run) -> R<()> {
        let mut st = St::new();
        st.doms = doms;
        self.pending = None;
        self.code.panics.clear();
        self.code.fuel = self.code.steps + FUEL;
        self.spec.fuel = self.spec.steps + 10 * FUEL;
        self.code.stack.clear();
        let rins: Vec<V> = ins.iter().map(|v| self.code.resimp_v(&st.doms, v)).collect();
        let t0 = std::time::Instant::now();
        let leaves = code(&mut self.code, st, &rins)?;
        if self.verbose { eprintln!("  code: {} leaves {:?}", leaves.len(), t0.elapsed()); }
        let panics = std::mem::take(&mut self.code.panics);
        for p in panics {
            match self.code.solve(&p.doms, ins) {
                Err(e) => { self.pending.get_or_insert(e); }
                Ok(None) => { self.infeasible += 1; }
                Ok(Some(a)) => {
                    let cf = match self.confirm(&a, inputs, ins, code, spec) { Ok(x) => x, Err(Stop::Fail(e)) => { self.pending.get_or_insert(e); continue; } Err(e) => return Err(e) };
                    if let Some(t) = cf {
                        let fnm = self.code.fname(p.func).to_string();
                        self.report(ob, anchor, cn, &a, inputs, &format!("panic in {}: {} ({})", fnm, p.msg, t));
                        return Ok(());
                    } else { let m = format!("unconfirmed panic in {}: {}", self.code.fname(p.func), p.msg); self.pending.get_or_insert(m); }
                }
            }
        }
        for (s, o) in leaves {
            self.leaves += 1;
            self.swap();
            self.spec.stack.clear();
            self.spec.panics.clear();
            let sins: Vec<V> = ins.iter().map(|v| self.spec.resimp_v(&s.doms, v)).collect();
            let mut s0 = St::new();
            s0.doms = s.doms.clone();
            let t0 = std::time::Instant::now();
            let r = spec(&mut self.spec, s0, &sins);
            self.swap();
            let r = r?;
            let t1 = t0.elapsed();
            let t0 = std::time::Instant::now();
            let nr = r.len();
            if !self.spec.panics.is_empty() {
                let p = self.spec.panics[0].clone();
                if self.code.solve(&p.doms, ins).map_err(Stop::Fail)?.is_some() { return fail(format!("reference panics: {} in {}", p.msg, self.spec.fname(p.func))); }
            }
            for (s2, o2) in r {
                self.comparisons += 1;
                if let Some((a, what)) = self.differ(&s2, &o, &o2, ins)? {
                    let cf = match self.confirm(&a, inputs, ins, code, spec) { Ok(x) => x, Err(Stop::Fail(e)) => { self.pending.get_or_insert(e); continue; } Err(e) => return Err(e) };
                    if let Some(t) = cf {
                        self.report(ob, anchor, cn, &a, inputs, &t);
                        return Ok(());
                    } else { let m = format!("unconfirmed difference {} in [{}]", what, self.code.show_doms(&s2.doms)); self.pending.get_or_insert(m); }
                }
            }
            if self.verbose && t1.as_millis() + t0.elapsed().as_millis() > 500 { eprintln!("  leaf [{}] spec {} {:?} compare {:?}", self.code.show_doms(&s.doms), nr, t1, t0.elapsed()); }
        }
        match self.pending.take() { Some(e) => fail(e), None => Ok(()) }
    }
    /// a member of the state where the observations differ (None: they provably agree)
    fn differ(&mut self, st: &St, a: &Obs, b: &Obs, ins: &[V]) -> R<Option<(Asg, String)>> {
        let n = a.len().min(b.len());
        let mut cur = vec![st.clone()];
        for i in 0..n {
            let mut next = vec![];
            for s in cur {
                let (x, y, ty) = (a[i].0.clone(), b[i].0.clone(), a[i].1);
                if a[i].1.bits != b[i].1.bits || a[i].1.float != b[i].1.float { return fail(format!("observation {} has a different type: {:?} {:?}", i, a[i].1, b[i].1)); }
                // finite differences are decided one condition at a time, without splitting
                let (p, q) = (self.code.d.resimp(&s.doms, &x), self.code.d.resimp(&s.doms, &y));
                if p == q { next.push(s); continue; }
                if self.verbose { eprintln!("    #{}: {} vs {}", i, self.code.d.show(&p), self.code.d.show(&q)); }
                let fin = if ty.float { None } else { match self.code.d.differing(&s.doms, &p, &q, ty) { Ok(v) => v, Err(Stop::Split(_)) => None, Err(e) => return Err(e) } };
                if let Some(conds) = fin {
                    for cnd in conds {
                        for (s2, v) in self.code.cases_of(&s, &cnd)? {
                            if v == 0 { continue; }
                            match self.code.solve(&s2.doms, ins) {
                                Ok(None) => { self.infeasible += 1; }
                                Ok(Some(a)) => return Ok(Some((a, format!("#{}: {} vs {}", i, self.code.d.show(&p), self.code.d.show(&q))))),
                                Err(e) => { self.pending.get_or_insert(e); }
                            }
                        }
                    }
                    next.push(s);
                    continue;
                }
                let r = self.code.splitting(s, &mut |it, s| {
                    let p = it.d.resimp(&s.doms, &x);
                    let q = it.d.resimp(&s.doms, &y);
                    if p == q { return Ok(Sc::C(0)); }
                    it.d.cmp(&s.doms, "Ne", &p, &q, ITy { signed: false, ..ty })
                })?;
                for (s, ne) in r {
                    match ne {
                        Sc::C(0) => next.push(s),
                        Sc::C(_) => match self.code.solve(&s.doms, ins) {
                            Ok(None) => { self.infeasible += 1; }
                            Ok(Some(a)) => return Ok(Some((a, format!("#{}: {} vs {}", i, self.code.d.show(&x), self.code.d.show(&y))))),
                            Err(e) => { self.pending.get_or_insert(e); }
                        },
                        ne => {
                            for (s2, v) in self.code.cases_of(&s, &ne)? {
                                if v == 0 { next.push(s2); continue; }
                                let (p, q) = (self.code.d.resimp(&s2.doms, &x), self.code.d.resimp(&s2.doms, &y));
                                if p == q { next.push(s2); continue; }
                                match self.code.solve(&s2.doms, ins) {
                                    Ok(None) => { self.infeasible += 1; }
                                    Ok(Some(a)) => return Ok(Some((a, format!("#{}: {} vs {}", i, self.code.d.show(&p), self.code.d.show(&q))))),
                                    Err(e) => { self.pending.get_or_insert(e); }
                                }
                            }
                        }
                    }
                }
            }
            cur = next;
        }
        if a.len() != b.len() {
            for s in cur {
                match self.code.solve(&s.doms, ins) {
                    Ok(None) => { self.infeasible += 1; }
                    Ok(Some(w)) => return Ok(Some((w, format!("{} vs {} observations", a.len(), b.len())))),
                    Err(e) => { self.pending.get_or_insert(e); }
                }
            }
        }
        Ok(None)
    }
    /// re-analyse with the inputs fixed to one member of the state
    fn confirm(&mut self, a: &Asg, _inputs: &[(&str, V)], ins: &[V], code: Run, spec: Run) -> R<Option<String>> {
        let vals: Vec<V> = match ins.iter().map(|v| self.code.eval_v(v, a)).collect::<Option<Vec<_>>>() { Some(v) => v, None => return fail("input of the witness not representable") };
        self.code.panics.clear();
        self.code.stack.clear();
        let c = code(&mut self.code, St::new(), &vals)?;
        if let Some(p) = self.code.panics.first() {
            let m = format!("panics: {} in {}", p.msg, self.code.fname(p.func));
            self.code.panics.clear();
            return Ok(Some(m));
        }
        self.swap();
        self.spec.stack.clear();
        let s = spec(&mut self.spec, St::new(), &vals);
        self.swap();
        let s = s?;
        if c.len() != 1 || s.len() != 1 { return fail(format!("witness run is not deterministic ({} / {})", c.len(), s.len())); }
        let show = |o: &Obs| o.iter().map(|(x, t)| match x { Sc::C(c) => if t.float { format!("{}", f64::from_bits(*c as u64)) } else if t.bits == 64 && !t.signed && *c > 1 << 32 { format!("{:#x}", c) } else { format!("{}", t.to_i(*c)) }, _ => "?".into() }).collect::<Vec<_>>().join(", ");
        if c[0].1.len() == s[0].1.len() && c[0].1.iter().zip(&s[0].1).all(|(x, y)| x.0 == y.0) { return Ok(None); }
        Ok(Some(format!("result ({}) where ({}) is required", show(&c[0].1), show(&s[0].1))))
    }
    fn report(&mut self, ob: &str, anchor: FnId, cn: &str, a: &Asg, inputs: &[(&str, V)], what: &str) {
        let mut w = vec![];
        for (n, v) in inputs {
            let v = self.code.eval_v(v, a).map_or("?".into(), |v| self.show_const(&v));
            w.push(format!("{}={}", n, v));
        }
        let f = &self.code.p.funcs[anchor as usize];
        let text = format!("{}: {} ({}:{}) on {} [{}]: {}", ob, f.name, f.file, f.line, w.join(" "), cn, what);
        if self.verbose { eprintln!("FINDING {}", text); }
        FOUND.fetch_add(1, SeqCst);
        self.findings.push(Finding { key: format!("{} {} {}", ob, f.name, w.join(" ")), text });
    }
    pub fn show_const(&self, v: &V) -> String {
        match v {
            V::S(Sc::C(c), t) => if t.float { format!("{}", f64::from_bits(*c as u64)) } else if t.bits == 64 && !t.signed { format!("{:#x}", c) } else { format!("{}", t.to_i(*c)) },
            V::Enum(Sc::C(i), _) => format!("#{}", i),
            V::Agg(a) | V::Vec(a) => format!("({})", a.iter().map(|x| self.show_const(x)).collect::<Vec<_>>().join(",")),
            _ => "?".into(),
        }
    }
    pub fn violate(&mut self, key: String, text: String) { self.findings.push(Finding { key, text }); }
}
#[derive(Default)]
struct Part {
    findings: Vec<(String, String)>,
    inconclusive: Vec<String>,
    counts: [u64; 6],
    anchors: BTreeSet<String>,
    rules: Vec<String>,
    notes: Vec<String>,
    samples: Vec<String>,
    visited: BTreeSet<(FnId, u32)>,
    called: BTreeSet<FnId>,
    steps: u64,
    merges: u64,
}
impl<'p> Ctx<'p> {
    /// independent parts of a check, on all cores; every part has its own symbols
    /// does that obligation hold?  Decided apart, reported nowhere.
    pub fn holds(&self, f: &dyn Fn(&mut Ctx)) -> bool {
        let (found, open) = (FOUND.load(SeqCst), OPEN.load(SeqCst));
        let mut s = Ctx::new(self.code.p, self.spec.p, &self.tier);
        s.limit = 60;
        s.searching = false;
        f(&mut s);
        FOUND.store(found, SeqCst);
        OPEN.store(open, SeqCst);
        s.obligations > 0 && s.discharged == s.obligations && s.findings.is_empty() && s.inconclusive.is_empty()
    }
    pub fn par(&mut self, n: usize, f: &(dyn Fn(&mut Ctx, usize) + Sync)) {
        let jobs = std::env::var("JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or(8usize).min(n.max(1));
        let next = std::sync::atomic::AtomicUsize::new(0);
        let bad = std::sync::atomic::AtomicUsize::new(0);
        let parts = std::sync::Mutex::new(BTreeMap::<usize, Part>::new());
        let (code, spec, tier, max) = (self.code.p, self.spec.p, self.tier.clone(), self.max_findings);
        std::thread::scope(|sc| {
            for _ in 0..jobs {
                let _ = std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if k >= n { return; }
                    if bad.load(std::sync::atomic::Ordering::SeqCst) >= max { parts.lock().unwrap().insert(k, Part::default()); continue; }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let mut c = Ctx::new(code, spec, &tier);
                        f(&mut c, k);
                        Part {
                            findings: c.findings.into_iter().map(|f| (f.key, f.text)).collect(), inconclusive: c.inconclusive,
                            counts: [c.obligations, c.discharged, c.cases, c.leaves, c.comparisons, c.infeasible],
                            anchors: c.anchors, rules: c.rules, notes: c.notes, samples: c.samples,
                            visited: c.code.visited, called: c.code.called, steps: c.code.steps, merges: c.code.merges,
                        }
                    }));
                    let p = r.unwrap_or_else(|_| Part { inconclusive: vec![format!("part {}: internal failure", k)], counts: [1, 0, 0, 0, 0, 0], ..Part::default() });
                    bad.fetch_add(p.findings.len(), std::sync::atomic::Ordering::SeqCst);
                    parts.lock().unwrap().insert(k, p);
                });
            }
        });
        let parts = parts.into_inner().unwrap();
        if parts.len() != n { self.inconclusive.push("a part did not run".into()); }
        for (_, p) in parts {
            for (key, text) in p.findings { if self.findings.len() < max { self.findings.push(Finding { key, text }); } }
            self.inconclusive.extend(p.inconclusive);
            self.obligations += p.counts[0];
            self.discharged += p.counts[1];
            self.cases += p.counts[2];
            self.leaves += p.counts[3];
            self.comparisons += p.counts[4];
            self.infeasible += p.counts[5];
            self.anchors.extend(p.anchors);
            for (to, from) in [(&mut self.rules, p.rules), (&mut self.notes, p.notes), (&mut self.samples, p.samples)] { for x in from { if !to.contains(&x) && to.len() < 200 { to.push(x); } } }
            self.code.visited.extend(p.visited);
            self.code.called.extend(p.called);
            self.code.steps += p.steps;
            self.code.merges += p.merges;
        }
    }
    /// one part per resolution, the most expensive first
    pub fn par_res(&mut self, f: &(dyn Fn(&mut Ctx, u32) + Sync)) {
        let v: Vec<u32> = self.ress().rev().collect();
        self.par(v.len(), &|c, k| f(c, v[k]));
    }
}
#[allow(dead_code)]
pub type Map<K, T> = HashMap<K, T>;
impl<'p> Ctx<'p> {
    /// divide cases by the value of a reference function of the inputs
    pub fn split_by(&mut self, cases: Vec<(String, Rc<Doms>)>, inputs: &[V], spec: Run) -> Vec<(String, Rc<Doms>)> {
        let mut out = vec![];
        for (n, d) in cases {
            let mut st = St::new();
            st.doms = d.clone();
            let ins: Vec<V> = inputs.iter().map(|v| self.code.resimp_v(&d, v)).collect();
            self.swap();
            self.spec.stack.clear();
            self.spec.panics.clear();
            let r = spec(&mut self.spec, st, &ins);
            let mut ok = vec![];
            let r = r.and_then(|leaves| {
                for (s, o) in leaves { for (s2, v) in self.spec.cases_of(&s, &o[0].0)? { ok.push((s2, v)); } }
                Ok(())
            });
            self.swap();
            match r {
                Ok(()) => {
                    for (k, (s, v)) in ok.into_iter().enumerate() {
                        if self.code.d.joint(&s.doms, &[]) == Some(None) { continue; }
                        out.push((format!("{}, shape {}.{}", n, v, k), s.doms.clone()));
                    }
                }
                Err(_) => out.push((n, d)),
            }
        }
        out
    }
}
