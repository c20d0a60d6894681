// Properties of the real-valued part: projection between the sphere and the faces,
// and the helpers on angles.  Every computation is brought to a normal form over the
// reals; code and reference agree on a path when the normal forms agree.  Where they
// do not, the two terms are told apart by evaluating them (random interpretation), and
// a difference is reported only when re-analysis on that point shows it too.
use crate::checks_geo::fields_of;
use crate::dom::*;
use crate::fterm::*;
use crate::harness::*;
use crate::interp::*;
use crate::ir::{FnId, TyId, TypeKind};
use crate::ops::F64;
use std::collections::HashMap;
use std::f64::consts::PI;
use std::rc::Rc;

#[derive(Clone, Default)]
pub struct Point { pub v: HashMap<AtomId, f64>, pub a: Asg }
/// how results that are not provably equal are told apart: as real terms; as directions
/// (points that only rounding puts in a state count too); by whole runs (answers of other functions are opaque)
#[derive(Clone, Copy, PartialEq)]
pub enum How { Terms, Directions, Whole }
pub type Sampler<'a> = &'a dyn Fn(&mut u64, usize) -> Point;
const SAMPLES: usize = 4000;
const ENOUGH: usize = 48;
const WHOLE: usize = 300;

pub fn rng(s: &mut u64) -> u64 { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; *s }
pub fn unit(s: &mut u64) -> f64 { (rng(s) >> 11) as f64 / (1u64 << 53) as f64 }
pub fn pick<T: Clone>(s: &mut u64, v: &[T]) -> T { v[rng(s) as usize % v.len()].clone() }

impl<'p> Interp<'p> {
    /// a real constant or term out of a structure of the analysed program
    fn at(&self, v: &V, p: &Point) -> Option<V> {
        Some(match v {
            V::S(s, t) if t.float => match s {
                Sc::C(_) => v.clone(),
                _ => { let q = self.d.f_poly(s).ok()?; let mut e = Env { v: &p.v, ints: &p.a.unb, memo: HashMap::new(), noise: None }; V::S(Sc::C(self.d.f_eval(&q, &mut e)?.to_bits() as u128), *t) }
            },
            V::S(s, t) => V::S(Sc::C(self.eval_sc(s, *t, &p.a)?), *t),
            V::Agg(a) => vagg(a.iter().map(|x| self.at(x, p)).collect::<Option<Vec<_>>>()?),
            _ => return self.eval_v(v, &p.a),
        })
    }
    /// does a point lie in a state, whatever the rounding
    fn inside(&self, d: &Rc<Doms>, p: &Point) -> bool {
        for noise in [None, Some(0x9e3779b97f4a7c15u64), Some(0xd1b54a32d192ed03), Some(0x94d049bb133111eb)] {
            let mut e = Env { v: &p.v, ints: &p.a.unb, memo: HashMap::new(), noise };
            for (s, m) in d.d.iter() {
                let i = &self.d.syms[*s as usize];
                let v = match &i.pred {
                    Some(q @ Pred::Op(o, _)) if o.starts_with('f') => match self.d.f_holds(q, &mut e) { Some(b) => b as u32, None => return false },
                    _ => match self.eval_sym(*s, &p.a) { Some(v) => v, None => return false },
                };
                if (m >> v) & 1 == 0 { return false; }
            }
        }
        true
    }
    /// the point with the outcomes of comparisons of reals (those that rounding cannot turn)
    fn with_tests(&self, p: &Point) -> Asg {
        let mut a = p.a.clone();
        for (k, i) in self.d.syms.iter().enumerate() {
            if let Some(q @ Pred::Op(o, _)) = &i.pred {
                if !o.starts_with('f') { continue; }
                let r: Vec<Option<bool>> = [None, Some(0x9e3779b97f4a7c15u64), Some(0xd1b54a32d192ed03)].iter().map(|n| { let mut e = Env { v: &p.v, ints: &p.a.unb, memo: HashMap::new(), noise: *n }; self.d.f_holds(q, &mut e) }).collect();
                if let Some(b) = r[0] { if r.iter().all(|x| *x == Some(b)) { a.fin.insert(k as Sym, b as u32); } }
            }
        }
        a
    }
    /// how far a point is from satisfying the conditions of a state (0: inside)
    fn miss(&self, d: &Rc<Doms>, p: &Point) -> f64 {
        let mut e = Env { v: &p.v, ints: &p.a.unb, memo: HashMap::new(), noise: None };
        let mut r = 0.0;
        for (s, m) in d.d.iter() {
            let i = &self.d.syms[*s as usize];
            if let Some(Pred::Op(o, v)) = &i.pred {
                if o.starts_with('f') && v.len() == 2 {
                    if let (Ok(q), Sc::C(c)) = (self.d.f_poly(&v[0]), &v[1]) {
                        let (x, t) = (self.d.f_eval(&q, &mut e).unwrap_or(f64::NAN), f64::from_bits(*c as u64));
                        let b = match o.as_str() { "flt" => x < t, "fgt" => x > t, _ => x == t };
                        if (m >> b as u32) & 1 == 0 { let w = (x - t).abs() / (x.abs() + t.abs() + 1e-9); r += if w.is_nan() { 10.0 } else { 1e-3 + w }; }
                        continue;
                    }
                }
            }
            match self.eval_sym(*s, &p.a) { Some(v) if (m >> v) & 1 == 1 => {} _ => r += 10.0 }
        }
        r
    }
    /// look for a point of a state that the samples missed
    fn hunt(&self, d: &Rc<Doms>, points: &[Point], seed: &mut u64) -> Option<Point> {
        // the ends of the ranges of single inputs
        let ends: Vec<(AtomId, f64)> = d.d.iter().filter_map(|(s, _)| self.d.f_bound(*s)).collect();
        for p in points.iter().take(if ends.is_empty() { 0 } else { 100 }) {
            for (a, t) in &ends { for t in [*t, t.next_up(), t.next_down()] {
                let mut p = p.clone();
                if p.v.insert(*a, t).is_some() && self.inside(d, &p) { return Some(p); }
            } }
        }
        let mut best: Vec<(f64, usize)> = points.iter().take(800).enumerate().map(|(k, p)| (self.miss(d, p), k)).collect();
        best.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
        for (m, k) in best.into_iter().take(5) {
            let (mut m, mut p) = (m, points[k].clone());
            let mut step = 0.1;
            for _ in 0..160 {
                if m == 0.0 { break; }
                let mut q = p.clone();
                for x in q.v.values_mut() { *x += (unit(seed) + unit(seed) - 1.0) * step * (1.0 + x.abs()); }
                for x in q.a.unb.values_mut() { *x += ((unit(seed) + unit(seed) - 1.0) * step * (1.0 + (*x as f64).abs())).round() as i128; }
                let n = self.miss(d, &q);
                if n < m { m = n; p = q; step *= 1.6; } else { step *= 0.92; }
            }
            if m == 0.0 && self.inside(d, &p) { return Some(p); }
        }
        None
    }
    fn value(&self, s: &Sc, ty: ITy, p: &Point, noise: Option<u64>) -> Option<f64> {
        if !ty.float { return self.eval_sc(s, ty, &p.a).map(|c| ty.to_i(c) as f64); }
        let q = self.d.f_poly(s).ok()?;
        let mut e = Env { v: &p.v, ints: &p.a.unb, memo: HashMap::new(), noise };
        self.d.f_eval(&q, &mut e)
    }
}
fn off(a: f64, b: f64, tol: f64) -> bool { if a.is_nan() || b.is_nan() { a.is_nan() != b.is_nan() } else if a.is_infinite() || b.is_infinite() { a != b } else { (a - b).abs() > tol } }

impl<'p> Ctx<'p> {
    pub fn equal_real(&mut self, ob: &str, anchor: FnId, cn: &str, doms: Rc<Doms>, inputs: &[(&str, V)], sampler: Sampler, code: Run, spec: Run) {
        self.equal_how(How::Terms, ob, anchor, cn, doms, inputs, sampler, code, spec)
    }
    pub fn equal_how(&mut self, how: How, ob: &str, anchor: FnId, cn: &str, doms: Rc<Doms>, inputs: &[(&str, V)], sampler: Sampler, code: Run, spec: Run) {
        self.obligations += 1;
        if anchor == FnId::MAX { return; }
        self.cases += 1;
        if self.findings.len() >= self.max_findings { return; }
        let ins: Vec<V> = inputs.iter().map(|x| x.1.clone()).collect();
        let t0 = std::time::Instant::now();
        self.code.d.deadline = Some(t0 + std::time::Duration::from_secs(150));
        let l0 = self.leaves;
        let r = self.real_case(how, ob, anchor, cn, doms, inputs, &ins, sampler, code, spec);
        self.code.d.deadline = None;
        match r {
            Ok(true) => self.discharged += 1,
            Ok(false) => {}
            Err(e) => {
                let e = match e { Stop::Fail(e) => e, Stop::Split(_) => "unresolved split".into() };
                self.inconclusive.push(format!("{} [{}]: {}", ob, cn, e));
            }
        }
        if self.verbose { eprintln!("{} [{}]: {} leaves {:?}", ob, cn, self.leaves - l0, t0.elapsed()); }
    }
    fn real_case(&mut self, how: How, ob: &str, anchor: FnId, cn: &str, doms: Rc<Doms>, inputs: &[(&str, V)], ins: &[V], sampler: Sampler, code: Run, spec: Run) -> R<bool> {
        let mut st = St::new();
        st.doms = doms;
        self.code.panics.clear();
        self.code.stack.clear();
        self.code.fuel = self.code.steps + FUEL;
        self.spec.fuel = self.spec.steps + 10 * FUEL;
        let mut points: Vec<Point> = vec![];
        let mut seed = 0x2545f4914f6cdd1du64;
        let leaves = code(&mut self.code, st, ins)?;
        let panics = std::mem::take(&mut self.code.panics);
        let fill = |points: &mut Vec<Point>, seed: &mut u64| if points.is_empty() { for k in 0..SAMPLES { points.push(sampler(seed, k)); } };
        for p in panics {
            fill(&mut points, &mut seed);
            if let Some(x) = points.iter().find(|x| self.code.inside(&p.doms, x)) {
                let x = x.clone();
                if let Some(t) = self.confirm_real(&x, ins, None, code, spec)? { self.report_real(ob, anchor, cn, &x, inputs, &t); return Ok(false); }
                return fail(format!("unconfirmed panic: {}", p.msg));
            }
            self.infeasible += 1;
        }
        let mut apart = false;
        for (s, o) in leaves {
            self.leaves += 1;
            self.swap();
            self.spec.stack.clear();
            self.spec.panics.clear();
            let mut s0 = St::new();
            s0.doms = s.doms.clone();
            let r = spec(&mut self.spec, s0, ins);
            self.swap();
            let r = r?;
            for (s2, o2) in r {
                self.comparisons += 1;
                if o.len() == o2.len() && o.iter().zip(&o2).all(|(x, y)| self.same_real(&s2.doms, &x.0, &y.0, x.1)) { continue; }
                if how == How::Whole { apart = true; continue; }
                // tell them apart
                fill(&mut points, &mut seed);
                let mut hits = 0;
                let mut unsure = 0;
                let mut found: Vec<Point> = vec![];
                for x in &points { if self.code.inside(&s2.doms, x) { found.push(x.clone()); if found.len() >= ENOUGH { break; } } }
                if found.is_empty() { found.extend(self.code.hunt(&s2.doms, &points, &mut seed)); }
                if found.is_empty() && how == How::Directions {
                    for x in points.iter().filter(|x| self.code.miss(&s2.doms, x) == 0.0).take(4).cloned().collect::<Vec<_>>() {
                        if let Some(t) = self.confirm_real(&x, ins, Some(&[f64::NAN, f64::NAN]), code, spec)? { self.report_real(ob, anchor, cn, &x, inputs, &t); return Ok(false); }
                    }
                }
                for x in &found {
                    hits += 1;
                    let mut bad = o.len() != o2.len();
                    let mut tols = vec![];
                    for (a, b) in o.iter().zip(&o2) {
                        if !a.1.float {
                            let full = self.code.with_tests(x);
                            let (p, q) = (self.code.eval_sc(&a.0, a.1, &full), self.code.eval_sc(&b.0, b.1, &full));
                            if p.is_none() || q.is_none() { if self.code.d.resimp(&s2.doms, &a.0) != self.code.d.resimp(&s2.doms, &b.0) { unsure += 1; } }
                            else if p != q { bad = true; }
                            tols.push(0.0);
                            continue;
                        }
                        let (p, q) = match (self.code.value(&a.0, a.1, x, None), self.code.value(&b.0, b.1, x, None)) { (Some(p), Some(q)) => (p, q), _ => return fail("term cannot be evaluated") };
                        let mut noise = 0.0f64;
                        for k in 1..5u64 {
                            for (z, v) in [(&a.0, p), (&b.0, q)] {
                                if let Some(w) = self.code.value(z, a.1, x, Some(k * 0x9e3779b97f4a7c15)) { if (w - v).is_finite() { noise = noise.max((w - v).abs()); } }
                            }
                        }
                        let tol = 1e-10 * (1.0 + q.abs()) + 100.0 * noise;
                        tols.push(tol);
                        if off(p, q, tol) { bad = true; }
                    }
                    if bad {
                        let x = x.clone();
                        if let Some(t) = self.confirm_real(&x, ins, Some(&tols), code, spec)? { self.report_real(ob, anchor, cn, &x, inputs, &t); return Ok(false); }
                        // the real program agrees there: the difference is one of rounding
                    }
                }
                if self.verbose { eprintln!("  unresolved: {} hits {} unsure in [{}]: {} vs {}", hits, unsure, self.code.show_doms(&s2.doms), self.show_obs(&o), self.show_obs(&o2)); }
                if unsure > 0 { return fail(format!("terms could not be compared in [{}]", self.code.show_doms(&s2.doms))); }
                self.infeasible += (hits == 0) as u64;
                let n = format!("{}: some results have another form than the reference and agree at the points tried", ob);
                if hits > 0 && !self.notes.contains(&n) { self.notes.push(n); }
            }
        }
        if apart {
            for k in 0..WHOLE {
                let x = sampler(&mut seed, k);
                if let Some(t) = self.confirm_real(&x, ins, Some(&[]), code, spec)? { self.report_real(ob, anchor, cn, &x, inputs, &t); return Ok(false); }
            }
            return fail("result not that of the parts");
        }
        Ok(true)
    }
    fn show_obs(&self, o: &Obs) -> String { o.iter().map(|(s, t)| match (s, t.float) { (Sc::C(c), true) => format!("{}", f64::from_bits(*c as u64)), (_, true) => self.code.d.f_poly(s).map_or("?".into(), |p| self.code.d.f_show(&p)), _ => self.code.d.show(s) }).collect::<Vec<_>>().join(" ; ") }
    fn same_real(&mut self, st: &Rc<Doms>, a: &Sc, b: &Sc, ty: ITy) -> bool {
        let (a, b) = (self.code.d.resimp(st, a), self.code.d.resimp(st, b));
        if a == b { return true; }
        if !ty.float { return false; }
        let (p, q) = match (self.code.d.f_poly(&a), self.code.d.f_poly(&b)) { (Ok(p), Ok(q)) => (p, q), _ => return false };
        let near = |x: f64, y: f64| (x - y).abs() <= 1e-12 * x.abs().max(y.abs());
        if p.c.is_nan() || q.c.is_nan() { return false; }
        (p.c == q.c || near(p.c, q.c) || (p.c - q.c).abs() < 1e-15) && p.t.len() == q.t.len() && p.t.iter().zip(&q.t).all(|((m, x), (n, y))| m == n && near(*x, *y))
    }
    fn confirm_real(&mut self, x: &Point, ins: &[V], tols: Option<&[f64]>, code: Run, spec: Run) -> R<Option<String>> {
        let vals: Vec<V> = match ins.iter().map(|v| self.code.at(v, x)).collect::<Option<Vec<_>>>() { Some(v) => v, None => return fail("input of the witness not representable") };
        self.code.panics.clear();
        self.code.stack.clear();
        let c = code(&mut self.code, St::new(), &vals)?;
        if let Some(p) = self.code.panics.first() {
            let m = format!("panics: {} in {}", p.msg, self.code.fname(p.func));
            self.code.panics.clear();
            return Ok(Some(m));
        }
        if tols.is_none() { return Ok(None); }
        self.swap();
        self.spec.stack.clear();
        let s = spec(&mut self.spec, St::new(), &vals);
        self.swap();
        let s = s?;
        if c.len() != 1 || s.len() != 1 { return fail(format!("witness run is not deterministic ({} / {})", c.len(), s.len())); }
        let (c, s) = (&c[0].1, &s[0].1);
        let show = |o: &Obs| o.iter().map(|(x, t)| match x { Sc::C(c) => if t.float { format!("{}", f64::from_bits(*c as u64)) } else { format!("{}", t.to_i(*c)) }, _ => "?".into() }).collect::<Vec<_>>().join(", ");
        let mut bad = c.len() != s.len();
        // directions only
        if let (Some([t, _]), [p, q], [u, v]) = (tols, &c[..], &s[..]) {
            if t.is_nan() {
                let f = |x: &(Sc, ITy)| match x.0 { Sc::C(c) => f64::from_bits(c as u64), _ => f64::NAN };
                let w = |a: f64, b: f64| [a.cos() * b.cos(), a.cos() * b.sin(), a.sin()];
                let (m, n) = (w(f(p), f(q)), w(f(u), f(v)));
                let d = (0..3).map(|k| (m[k] - n[k]).abs()).fold(0.0, |x: f64, y| if y.is_nan() { 9.0 } else { x.max(y) });
                return Ok(if d > 1e-6 || f(p).abs() > PI / 2.0 + 1e-9 || f(q).abs() > PI + 1e-9 { Some(format!("result ({}) where ({}) is required", show(c), show(s))) } else { None });
            }
        }
        for (k, (a, b)) in c.iter().zip(s.iter()).enumerate() {
            match (&a.0, &b.0) {
                (Sc::C(p), Sc::C(q)) => if a.1.float { bad |= off(f64::from_bits(*p as u64), f64::from_bits(*q as u64), 0.5 * tols.and_then(|t| t.get(k)).cloned().unwrap_or(1e-9)); } else { bad |= p != q; },
                (p, q) => bad |= p != q,
            }
        }
        Ok(if bad { Some(format!("result ({}) where ({}) is required", show(c), show(s))) } else { None })
    }
    fn report_real(&mut self, ob: &str, anchor: FnId, cn: &str, x: &Point, inputs: &[(&str, V)], what: &str) {
        let mut w = vec![];
        for (n, v) in inputs { let v = self.code.at(v, x).map_or("?".into(), |v| self.show_const(&v)); w.push(format!("{}={}", n, v)); }
        let f = &self.code.p.funcs[anchor as usize];
        let text = format!("{}: {} ({}:{}) on {} [{}]: {}", ob, f.name, f.file, f.line, w.join(" "), cn, what);
        if self.verbose { eprintln!("FINDING {}", text); }
        self.violate(format!("{} {} {}", ob, f.name, w.join(" ")), text);
    }
}

// ---------- shapes ----------
fn target(it: &Interp, t: TyId) -> TyId { match &it.p.types[t as usize].kind { TypeKind::Ref { ty, .. } | TypeKind::Ptr { ty, .. } => *ty, _ => t } }
fn is_ref(it: &Interp, f: FnId, k: usize) -> bool { matches!(&it.p.types[it.p.funcs[f as usize].inputs[k] as usize].kind, TypeKind::Ref { .. } | TypeKind::Ptr { .. }) }
/// the named values as the structure of that type (nested structures are flattened)
fn build(it: &Interp, ty: TyId, vals: &[(&str, V)]) -> R<V> {
    let fs = fields_of(it, ty);
    if fs.is_empty() { return fail("structure expected"); }
    let mut o = vec![];
    for (n, t) in fs {
        match vals.iter().find(|x| x.0 == n) {
            Some((_, V::S(s, _))) => { let ty = it.ity(t).ok_or(Stop::Fail("scalar field".into()))?; o.push(V::S(s.clone(), ty)); }
            Some((_, v)) => o.push(v.clone()),
            None => o.push(build(it, t, vals)?),
        }
    }
    Ok(vagg(o))
}
/// the named components of a structure
fn part(it: &Interp, ty: TyId, v: &V, names: &[&str]) -> R<Obs> {
    fn walk(it: &Interp, ty: TyId, v: &V, out: &mut Vec<(String, Sc, ITy)>) {
        let fs = fields_of(it, ty);
        if let V::Agg(p) = v { if p.len() == fs.len() { for ((n, t), x) in fs.iter().zip(p.iter()) { if let V::S(s, k) = x { out.push((n.clone(), s.clone(), *k)); } else { walk(it, *t, x, out); } } } }
    }
    let mut all = vec![];
    walk(it, ty, v, &mut all);
    names.iter().map(|n| all.iter().find(|x| x.0 == *n).map(|x| (x.1.clone(), x.2)).ok_or(Stop::Fail(format!("component {} missing", n)))).collect()
}
fn args(it: &Interp, f: FnId, vals: Vec<V>) -> Vec<Arg> { vals.into_iter().enumerate().map(|(k, v)| if is_ref(it, f, k) { Arg::R(v) } else { Arg::V(v) }).collect() }
fn point2(v: &V) -> R<[V; 2]> { match v { V::Agg(a) if a.len() == 2 => Ok([a[0].clone(), a[1].clone()]), _ => fail("pair") } }
fn two(a: Sc, b: Sc) -> V { vagg(vec![vr(a), vr(b)]) }
fn vr(s: Sc) -> V { V::S(s, F64) }
fn vi(n: i128) -> V { vc(n, ITy::I32) }
fn vb(b: bool) -> V { vc(b as i128, ITy::BOOL) }
/// lat/lng structure for parameter k
fn geo_arg(it: &Interp, f: FnId, k: usize, v: &V) -> R<V> { let [a, b] = point2(v)?; build(it, target(it, it.p.funcs[f as usize].inputs[k]), &[("lat", a), ("lng", b)]) }
fn xy_arg(it: &Interp, f: FnId, k: usize, v: &V) -> R<V> { let [a, b] = point2(v)?; build(it, target(it, it.p.funcs[f as usize].inputs[k]), &[("x", a), ("y", b)]) }
/// tuple of reals and integers of a reference function
fn flat_all(it: &mut Interp, st: St, g: FnId, a: Vec<V>) -> R<Vec<(St, Obs)>> { it.call_flat(st, g, a.into_iter().map(Arg::V).collect()) }
fn start(c: &mut Ctx) { c.code.d.ft.on = true; c.code.apart = true; c.spec.apart = true; }
fn doms0() -> Rc<Doms> { Doms::new(vec![]) }

/// directions on the sphere: anywhere, the poles, the meridians, face centres and their surroundings
fn some_geo(s: &mut u64, k: usize) -> (f64, f64) {
    let near = |s: &mut u64| { let e = 10f64.powf(-unit(s) * 6.5); (unit(s) - 0.5) * e };
    match k % 8 {
        0 | 1 | 2 => ((unit(s) * 2.0 - 1.0).asin(), (unit(s) * 2.0 - 1.0) * PI),
        3 => (pick(s, &[PI / 2.0, -PI / 2.0, 0.0, 1.0, -1.0]), pick(s, &[0.0, PI, -PI, PI / 2.0, -PI / 2.0, 1.0])),
        4 => { let f = pick(s, &FACES); (f[0], f[1]) }
        5 => { let f = pick(s, &FACES); (f[0] + near(s), f[1] + near(s)) }
        6 => { let f = pick(s, &FACES); (f[0] + near(s), f[1]) }
        _ => ((unit(s) * 2.0 - 1.0) * 3.0, (unit(s) * 2.0 - 1.0) * 9.0),
    }
}
fn some_xy(s: &mut u64, k: usize, size: f64) -> (f64, f64) {
    let a = (unit(s) * 2.0 - 1.0) * PI;
    let r = match k % 4 { 0 => size * unit(s), 1 => size * 2.0 * unit(s), 2 => size * 10f64.powf(-unit(s) * 18.0), _ => 10f64.powf(9.0 - unit(s) * 27.0) };
    match k % 9 { 0 => (r, 0.0), 1 => (-r, 0.0), 2 => (0.0, r), 3 => (0.0, -r), 4 if k % 2 == 0 => (0.0, 0.0), _ => (r * a.cos(), r * a.sin()) }
}
const FACES: [[f64; 2]; 20] = [
    [0.80358264971899, 1.2483974196173961], [1.3077478834556382, 2.5369450098779214], [1.054751253523952, -1.3475173589003966], [0.6001915955381868, -0.45060390946975576],
    [0.49171542819877384, 0.40198820291130694], [0.1727453274156187, 1.6781468852804338], [0.6059293213715507, 2.9539233298124117], [0.42737051832897965, -1.8888762003362853],
    [-0.07906611854921283, -0.7334295133808677], [-0.23096164445538364, 0.506495587332349], [0.07906611854921283, 2.4081631402089254], [0.23096164445538364, -2.635097066257444],
    [-0.1727453274156187, -1.4634457683093596], [-0.6059293213715507, -0.18766932377738163], [-0.42737051832897965, 1.2527164532535078], [-0.6001915955381868, 2.6909887441200375],
    [-0.49171542819877384, -2.7396044506784865], [-0.80358264971899, -1.8931952339723972], [-1.3077478834556382, -0.6046476437118721], [-1.054751253523952, 1.7940752946893965],
];

// ---------- forward ----------
/// the lattice step at the end of the projection is decided elsewhere: keep the planar point
fn keep_point(c: &mut Ctx) -> bool {
    let f = c.f("_hex2dToCoordIJK");
    if f == FnId::MAX { return false; }
    c.code.overrides.insert(f, Rc::new(|it: &mut Interp, st: St, a: &[V], f: FnId| {
        let ins = it.p.funcs[f as usize].inputs.clone();
        let v = if is_ref(it, f, 0) { it.deref(&st, &a[0])? } else { a[0].clone() };
        let o = part(it, target(it, ins[0]), &v, &["x", "y"])?;
        let key: Vec<Sc> = o.iter().map(|x| it.d.resimp(&st.doms, &x.0)).collect();
        let mut st = st;
        let mut w = vec![];
        for n in ["i", "j", "k"] { let u = it.d.new_usym(Term::App(format!("nearest.{}", n), key.clone()), Some(-(1 << 30)), Some(1 << 30), true); w.push((n, V::S(it.d.unb_sc(u), ITy::I32))); }
        if ins.len() == 2 {
            let q = build(it, target(it, ins[1]), &w)?;
            it.store(&mut st, &a[1], q)?;
            return Ok(vec![(st, vagg(vec![]))]);
        }
        let q = build(it, it.p.funcs[f as usize].output, &w)?;
        Ok(vec![(st, q)])
    }));
    true
}
/// the planar point behind the answer of the lattice step
fn kept(it: &Interp, o: &Obs) -> R<[Sc; 2]> {
    let mut r: Option<[Sc; 2]> = None;
    for (k, n) in ["nearest.i", "nearest.j", "nearest.k"].iter().enumerate() {
        let u = match &o[k].0 { Sc::L(l) if l.den == 1 && l.c == 0 && l.tabs.is_empty() && l.unb.len() == 1 && l.unb[0].1 == 1 => l.unb[0].0, _ => return fail("the lattice point is not that of the planar point") };
        match &it.d.usyms[u as usize].term {
            Term::App(m, a) if m == n => { let p = [a[0].clone(), a[1].clone()]; if r.as_ref().map_or(false, |q| *q != p) { return fail("components of different lattice points"); } r = Some(p); }
            _ => return fail("the lattice point is not that of the planar point"),
        }
    }
    Ok(r.unwrap())
}
pub fn c17(c: &mut Ctx) {
    c.rules.push("forward projection: nearest face, and gnomonic position on it in cells of the resolution, as in the reference, for every direction; an index is the lattice cell of that position".into());
    let work: Vec<u32> = c.ress().rev().chain([100]).collect();
    c.par(work.len(), &|c, k| {
        start(c);
        let res = work[k];
        let (la, ia) = c.code.d.f_input("lat", -10.0, 10.0);
        let (lo, io) = c.code.d.f_input("lng", -10.0, 10.0);
        let geo = two(la, lo);
        let samp = |s: &mut u64, k: usize| { let (a, b) = some_geo(s, k); Point { v: [(ia, a), (io, b)].into(), a: Asg::default() } };
        if res > 15 { index_of_point(c, geo, &samp); return; }
        let f = c.f("_geoToFaceIjk");
        if !keep_point(c) || f == FnId::MAX { c.obligations += 1; return; }
        let g = c.s("locate");
        c.equal_real("position on the nearest face", f, &format!("resolution {}", res), doms0(), &[("geo", geo)], &samp,
            &|it, st, a| {
                let q = geo_arg(it, f, 0, &a[0])?;
                let t = it.p.funcs[f as usize].output;
                let mut out = vec![];
                for (s, vs) in it.call(st, f, args(it, f, vec![q, vi(res as i128)]))? {
                    let o = part(it, t, &vs[0], &["face", "i", "j", "k"])?;
                    let p = kept(it, &o[1..].to_vec())?;
                    out.push((s, vec![o[0].clone(), (p[0].clone(), F64), (p[1].clone(), F64)]));
                }
                Ok(out)
            },
            &|it, st, a| { let [p, q] = point2(&a[0])?; flat_all(it, st, g, vec![p, q, vi(res as i128)]) });
    });
}
/// an answer of a function that is decided elsewhere
fn answer(it: &mut Interp, name: &str, key: &[Sc], lo: i128, hi: i128) -> Sc {
    let u = it.d.new_usym(Term::App(name.into(), key.to_vec()), Some(lo), Some(hi), true);
    it.d.unb_sc(u)
}
fn real_body(it: &mut Interp, st: St, f: FnId, a: &[V]) -> R<Vec<(St, V)>> { let b = it.p.funcs[f as usize].body.as_ref().ok_or(Stop::Fail("no body".into()))?; it.run_body(st, f, b, a.to_vec()) }
fn real_answer(it: &mut Interp, name: &str, key: &[Sc], lo: f64, hi: f64) -> Sc {
    let n = format!("{}[{}]", name, key.iter().map(|k| it.d.show(k)).collect::<Vec<_>>().join(", "));
    if let Some(k) = it.d.ft.atoms.iter().position(|a| matches!(a, Atom::In(m, _, _) if *m == n)) { return it.d.f_sc(Poly::atom(k as AtomId)); }
    it.d.f_input(&n, lo, hi).0
}
/// validation of the arguments, then the cell of the point
fn index_of_point(c: &mut Ctx, geo: V, samp: Sampler) {
    let f = c.f("latLngToCell");
    let (g, h) = (c.f("_geoToFaceIjk"), c.f("_faceIjkToH3"));
    if f == FnId::MAX || g == FnId::MAX || h == FnId::MAX { c.obligations += 1; return; }
    c.code.overrides.insert(g, Rc::new(|it: &mut Interp, st: St, a: &[V], f: FnId| {
        let ins = it.p.funcs[f as usize].inputs.clone();
        let v = if is_ref(it, f, 0) { it.deref(&st, &a[0])? } else { a[0].clone() };
        let mut key: Vec<Sc> = part(it, target(it, ins[0]), &v, &["lat", "lng"])?.iter().map(|x| it.d.resimp(&st.doms, &x.0)).collect();
        match &a[1] { V::S(s, _) => key.push(it.d.resimp(&st.doms, s)), _ => return fail("resolution") }
        if key.iter().all(|k| matches!(k, Sc::C(_))) { return real_body(it, st, f, a); }
        let mut w = vec![("face", V::S(answer(it, "at.face", &key, 0, 19), ITy::I32))];
        for (n, m) in [("i", "at.i"), ("j", "at.j"), ("k", "at.k")] { let x = answer(it, m, &key, 0, 1 << 26); w.push((n, V::S(x, ITy::I32))); }
        let out = it.p.funcs[f as usize].output;
        Ok(vec![(st, build(it, out, &w)?)])
    }));
    c.code.overrides.insert(h, Rc::new(|it: &mut Interp, st: St, a: &[V], f: FnId| {
        let ins = it.p.funcs[f as usize].inputs.clone();
        let v = if is_ref(it, f, 0) { it.deref(&st, &a[0])? } else { a[0].clone() };
        let mut key: Vec<Sc> = part(it, target(it, ins[0]), &v, &["face", "i", "j", "k"])?.iter().map(|x| it.d.resimp(&st.doms, &x.0)).collect();
        match &a[1] { V::S(s, _) => key.push(it.d.resimp(&st.doms, s)), _ => return fail("resolution") }
        if key.iter().all(|k| matches!(k, Sc::C(_))) { return real_body(it, st, f, a); }
        let r = answer(it, "index", &key, 1, (1 << 63) - 1);
        Ok(vec![(st, V::S(r, ITy::U64))])
    }));
    let whole = c.s("index_at");
    let kind = |n: &str| KINDS.iter().position(|x| *x == n).unwrap() as u128 + 1;
    let bad: Vec<f64> = vec![f64::NAN, f64::INFINITY, f64::NEG_INFINITY];
    let cons = |x: f64| vr(Sc::C(x.to_bits() as u128));
    let [la, lo] = point2(&geo).unwrap();
    let mut pts: Vec<(String, V, bool)> = vec![("finite".into(), geo.clone(), true)];
    for b in &bad {
        pts.push((format!("lat {}", b), vagg(vec![cons(*b), lo.clone()]), false));
        pts.push((format!("lng {}", b), vagg(vec![la.clone(), cons(*b)]), false));
        for d in &bad { pts.push((format!("lat {} lng {}", b, d), vagg(vec![cons(*b), cons(*d)]), false)); }
    }
    let out_low = c.code.d.fresh_int("res", i32::MIN as i128, -1);
    let out_high = c.code.d.fresh_int("res", 16, i32::MAX as i128);
    let mut ress: Vec<(String, V, Option<i128>)> = vec![("resolution below 0".into(), V::S(out_low, ITy::I32), None), ("resolution above 15".into(), V::S(out_high, ITy::I32), None)];
    for r in 0..16 { ress.push((format!("resolution {}", r), vi(r), Some(r))); }
    for (rn, rv, r) in &ress {
        for (pn, pv, fine) in &pts {
            let (r, fine) = (*r, *fine);
            let rsym = match rv { V::S(Sc::L(l), _) => { let u = l.unb[0].0; let i = &c.code.d.usyms[u as usize]; Some((u, i.lo.unwrap(), i.hi.unwrap())) } _ => None };
            c.equal_how(How::Whole, "cell of a point", f, &format!("{}, {}", rn, pn), doms0(), &[("geo", pv.clone()), ("res", rv.clone())],
                &|s, k| { let mut p = samp(s, k); if let Some((u, lo, hi)) = rsym { p.a.unb.insert(u, pick(s, &[lo, lo + 1, hi - 1, hi])); } p },
                &|it, st, a| {
                    let q = geo_arg(it, f, 0, &a[0])?;
                    let x = args(it, f, vec![q, a[1].clone()]);
                    let t = it.p.funcs[f as usize].output;
                    let mut out = vec![];
                    for (s, vs) in it.call(st, f, x)? { out.extend(it.flat(s, &vs[0], t)?); }
                    Ok(out)
                },
                &|it, st, a| {
                    let o = match (r, fine) {
                        (None, _) => vec![(Sc::C(kind("ResDomain")), ITy::I32)],
                        (_, false) => vec![(Sc::C(kind("LatLngDomain")), ITy::I32)],
                        (Some(r), true) => {
                            let [p, q] = point2(&a[0])?;
                            if [&p, &q].iter().all(|x| matches!(x, V::S(Sc::C(_), _))) {
                                let mut out = vec![];
                                for (s, o) in flat_all(it, st, whole, vec![p, q, vi(r)])? { let mut w = vec![(Sc::C(0), ITy::I32)]; w.extend(o); out.push((s, w)); }
                                return Ok(out);
                            }
                            let mut key = vec![];
                            for x in [p, q] { match x { V::S(s, _) => key.push(s), _ => return fail("point") } }
                            key.push(Sc::C(r as u128));
                            let mut k2 = vec![answer(it, "at.face", &key, 0, 19)];
                            for m in ["at.i", "at.j", "at.k"] { k2.push(answer(it, m, &key, 0, 1 << 26)); }
                            k2.push(Sc::C(r as u128));
                            vec![(Sc::C(0), ITy::I32), (answer(it, "index", &k2, 1, (1 << 63) - 1), ITy::U64)]
                        }
                    };
                    Ok(vec![(st, o)])
                });
        }
    }
}
// ---------- inverse ----------
pub fn c18(c: &mut Ctx) {
    c.rules.push("inverse projection: the direction under every position on every face, at every resolution, and of the centre of every lattice cell, as in the reference; a cell's centre is that of its face coordinate".into());
    // the finest grid may be one finer than the finest resolution
    let mut work: Vec<(u32, u32)> = vec![];
    for r in c.ress().rev() { for f in 0..20 { work.push((f, r)); } }
    for r in c.ress() { work.push((100, r)); }
    c.par(work.len(), &|c, k| {
        start(c);
        let (face, res) = work[k];
        if face >= 20 { centre_of_cell(c, res); return; }
        let size = 2.0 * 7f64.powf(res as f64 / 2.0);
        let (x, ix) = c.code.d.f_input("x", -1e10, 1e10);
        let (y, iy) = c.code.d.f_input("y", -1e10, 1e10);
        let f = c.f("_hex2dToGeo");
        let g = c.s("unproject");
        for sub in [false, true] {
            let size = if sub { size * 3.0 } else { size };
            let samp = |s: &mut u64, k: usize| { let (a, b) = some_xy(s, k, size); Point { v: [(ix, a), (iy, b)].into(), a: Asg::default() } };
            c.equal_how(How::Directions, "point under a position", f, &format!("face {}, resolution {}, substrate {}", face, res, sub), doms0(), &[("v", two(x.clone(), y.clone()))], &samp,
                &|it, st, a| {
                    let v = xy_arg(it, f, 0, &a[0])?;
                    latlng(it, st, f, vec![v, vi(face as i128), vi(res as i128), vb(sub)])
                },
                &|it, st, a| { let [p, q] = point2(&a[0])?; flat_all(it, st, g, vec![p, q, vi(face as i128), vi(res as i128), vb(sub)]) });
        }
        let f = c.f("_faceIjkToGeo");
        if f == FnId::MAX { c.obligations += 1; return; }
        let b = 1i128 << 27;
        let p: Vec<Sc> = ["i", "j", "k"].iter().map(|n| c.code.d.fresh_int(n, 0, b)).collect();
        let us: Vec<USym> = p.iter().map(|s| match s { Sc::L(l) => l.unb[0].0, _ => unreachable!() }).collect();
        let g = c.s("cell_centre");
        let samp = |s: &mut u64, k: usize| {
            let mut n: Vec<i128> = (0..3).map(|_| (unit(s) * unit(s) * 1.5 * size) as i128 + (k % 3) as i128).collect();
            if k % 5 < 4 { n[k % 3] = 0; }
            if k % 7 == 0 { n[(k + 1) % 3] = 0; }
            if k % 50 == 0 { n = vec![0, 0, 0]; }
            // atoms for the integers, if terms use them
            Point { v: HashMap::new(), a: Asg { fin: Default::default(), unb: us.iter().cloned().zip(n).collect() } }
        };
        let pv = vagg(p.iter().map(|s| V::S(s.clone(), ITy::I32)).collect());
        c.equal_how(How::Directions, "centre of a lattice cell", f, &format!("face {}, resolution {}", face, res), doms0(), &[("ijk", pv)], &samp,
            &|it, st, a| {
                let q = match &a[0] { V::Agg(q) => q.clone(), _ => return fail("coordinate") };
                let t = target(it, it.p.funcs[f as usize].inputs[0]);
                let h = build(it, t, &[("face", vi(face as i128)), ("i", q[0].clone()), ("j", q[1].clone()), ("k", q[2].clone())])?;
                latlng(it, st, f, vec![h, vi(res as i128)])
            },
            &|it, st, a| {
                let q = match &a[0] { V::Agg(q) => q.clone(), _ => return fail("coordinate") };
                flat_all(it, st, g, vec![vi(face as i128), q[0].clone(), q[1].clone(), q[2].clone(), vi(res as i128)])
            });
    });
}
/// call and observe the (lat, lng) of the result, be it returned or written
fn latlng(it: &mut Interp, st: St, f: FnId, mut a: Vec<V>) -> R<Vec<(St, Obs)>> {
    let ins = it.p.funcs[f as usize].inputs.clone();
    let mut t = it.p.funcs[f as usize].output;
    let back = ins.len() == a.len() + 1;
    if back { t = target(it, ins[a.len()]); let z = build(it, t, &[("lat", vr(Sc::C(0))), ("lng", vr(Sc::C(0)))])?; a.push(z); }
    let mut out = vec![];
    for (s, vs) in it.call(st, f, args(it, f, a))? {
        let v = if back { vs.last().unwrap() } else { &vs[0] };
        let o = part(it, t, v, &["lat", "lng"])?;
        let o = o.into_iter().map(|(x, y)| (it.d.resimp(&s.doms, &x), y)).collect();
        out.push((s, o));
    }
    Ok(out)
}
/// the centre of a cell is that of its face coordinate, and errors are passed on
fn centre_of_cell(c: &mut Ctx, res: u32) {
    let f = c.f("cellToLatLng");
    let (g, h) = (c.f("_h3ToFaceIjk"), c.f("_faceIjkToGeo"));
    if f == FnId::MAX || g == FnId::MAX || h == FnId::MAX { c.obligations += 1; return; }
    let whole = c.s("centre_of");
    for fine in [true, false] {
        c.code.overrides.insert(g, Rc::new(move |it: &mut Interp, st: St, a: &[V], f: FnId| {
            let key = match &a[0] { V::S(s, _) => vec![it.d.resimp(&st.doms, s)], _ => return fail("index") };
            let out = it.p.funcs[f as usize].output;
            let (vars, n) = match &it.p.types[out as usize].kind { TypeKind::Adt { variants, .. } if variants.len() == 2 => (variants.clone(), 2), _ => return fail("result") };
            if fine && matches!(key[0], Sc::C(_)) { return real_body(it, st, f, a); }
            if !fine {
                let k = vars[1].fields[0].ty;
                let e = match &it.p.types[k as usize].kind { TypeKind::Adt { variants, .. } => variants.iter().position(|v| v.name == "CellInvalid").unwrap_or(0), _ => return fail("error") };
                let m = it.nvariants(k);
                let e = it.enum_sc(Sc::C(e as u128), m);
                return Ok(vec![(st, venum(1, n, vec![e]))]);
            }
            let mut w = vec![("face", V::S(answer(it, "of.face", &key, 0, 19), ITy::I32))];
            for (n, m) in [("i", "of.i"), ("j", "of.j"), ("k", "of.k")] { let x = answer(it, m, &key, 0, 1 << 26); w.push((n, V::S(x, ITy::I32))); }
            let v = build(it, vars[0].fields[0].ty, &w)?;
            Ok(vec![(st, venum(0, n, vec![v]))])
        }));
        c.code.overrides.insert(h, Rc::new(|it: &mut Interp, st: St, a: &[V], f: FnId| {
            let ins = it.p.funcs[f as usize].inputs.clone();
            let v = if is_ref(it, f, 0) { it.deref(&st, &a[0])? } else { a[0].clone() };
            let mut key: Vec<Sc> = part(it, target(it, ins[0]), &v, &["face", "i", "j", "k"])?.iter().map(|x| it.d.resimp(&st.doms, &x.0)).collect();
            match &a[1] { V::S(s, _) => key.push(it.d.resimp(&st.doms, s)), _ => return fail("resolution") }
        if key.iter().all(|k| matches!(k, Sc::C(_))) { return real_body(it, st, f, a); }
            let (x, y) = (real_answer(it, "geo.lat", &key, -2.0, 2.0), real_answer(it, "geo.lng", &key, -4.0, 4.0));
            let out = it.p.funcs[f as usize].output;
            Ok(vec![(st, build(it, out, &[("lat", vr(x)), ("lng", vr(y))])?)])
        }));
        let cell = c.code.mk_cell("", res);
        let ins = V::S(cell.h.clone(), ITy::U64);
        for (cn, doms) in c.code.valid_cases(&cell) {
            if !fine && cn != "hexagon base cell" { continue; }
            let mut seed = 7;
            let members: Vec<Asg> = (0..WHOLE as u32).filter_map(|k| c.code.member(&doms, &[ins.clone()], k, &mut seed)).collect();
            let samp = |_: &mut u64, k: usize| Point { v: HashMap::new(), a: if members.is_empty() { Asg::default() } else { members[k % members.len()].clone() } };
            c.equal_how(How::Whole, "centre of a cell", f, &format!("resolution {}, {}, {}", res, cn, if fine { "located" } else { "not located" }), doms, &[("cell", ins.clone())], &samp,
                &|it, st, a| {
                    let t = it.p.funcs[f as usize].output;
                    let mut out = vec![];
                    for (s, vs) in it.call(st, f, vec![Arg::V(a[0].clone())])? {
                        let (k, p) = match &vs[0] { V::Enum(k, p) => (it.d.resimp(&s.doms, k), p.clone()), _ => return fail("result") };
                        match k {
                            Sc::C(0) => {
                                let ty = match &it.p.types[t as usize].kind { TypeKind::Adt { variants, .. } => variants[0].fields[0].ty, _ => return fail("result") };
                                let mut o = vec![(Sc::C(0), ITy::I32)];
                                o.extend(part(it, ty, &p[0].as_ref().unwrap()[0], &["lat", "lng"])?);
                                out.push((s, o));
                            }
                            Sc::C(_) => out.extend(it.flat(s, &vs[0], t)?),
                            _ => return fail("undetermined result"),
                        }
                    }
                    Ok(out)
                },
                &|it, st, a| {
                    if !fine { return Ok(vec![(st, vec![(Sc::C(KINDS.iter().position(|x| *x == "CellInvalid").unwrap() as u128 + 1), ITy::I32)])]); }
                    let key = match &a[0] { V::S(s, _) => vec![it.d.resimp(&st.doms, s)], _ => return fail("index") };
                    if matches!(key[0], Sc::C(_)) { return flat_all(it, st, whole, a.to_vec()); }
                    let mut k2 = vec![answer(it, "of.face", &key, 0, 19)];
                    for m in ["of.i", "of.j", "of.k"] { k2.push(answer(it, m, &key, 0, 1 << 26)); }
                    k2.push(Sc::C(res as u128));
                    let o = vec![(Sc::C(0), ITy::I32), (real_answer(it, "geo.lat", &k2, -2.0, 2.0), F64), (real_answer(it, "geo.lng", &k2, -4.0, 4.0), F64)];
                    Ok(vec![(st, o)])
                });
        }
    }
}

// ---------- helpers ----------
pub fn c21(c: &mut Ctx) {
    c.rules.push("angles brought into range, points at a distance and azimuth, azimuths, unit vectors, distances, comparisons and conversions, each as its definition for every argument in range".into());
    let names: Vec<usize> = (0..12).collect();
    c.par(names.len(), &|c, k| {
        start(c);
        let mut ids: Vec<(AtomId, f64, f64)> = vec![];
        let mut inp = |c: &mut Ctx, n: &str, lo: f64, hi: f64| { let (s, a) = c.code.d.f_input(n, lo, hi); ids.push((a, lo, hi)); s };
        // (code, reference, arguments, how: 0 plain, 1 pairs as lat/lng, 2 result lat/lng, ...)
        match k {
            0..=2 => {
                let (cf, sf, lo, hi) = [("_posAngleRads", "pos_angle", -2.0 * PI, 4.0 * PI), ("constrainLat", "wrap_lat", -PI / 2.0, 4.0 * PI), ("constrainLng", "wrap_lng", -6.0 * PI, 6.0 * PI)][k];
                let x = inp(c, "x", lo, hi);
                let (f, g) = (c.f(cf), c.s(sf));
                let id = ids.clone();
                let samp = move |s: &mut u64, k: usize| Point { v: id.iter().map(|(a, lo, hi)| (*a, angle(s, k, *lo, *hi))).collect(), a: Asg::default() };
                c.equal_real(cf, f, "in range", doms0(), &[("x", vr(x))], &samp, &|it, st, a| it.call_flat(st, f, vec![Arg::V(a[0].clone())]), &|it, st, a| flat_all(it, st, g, a.to_vec()));
            }
            3 | 4 => {
                let (cf, sf) = [("geoAlmostEqualThreshold", "close"), ("geoAlmostEqual", "same_point")][k - 3];
                let mut v: Vec<V> = ["lat1", "lng1", "lat2", "lng2"].iter().map(|n| vr(inp(c, n, -10.0, 10.0))).collect();
                if k == 3 { v.push(vr(inp(c, "threshold", 0.0, 10.0))); }
                let (f, g) = (c.f(cf), c.s(sf));
                let id: Vec<AtomId> = ids.iter().map(|x| x.0).collect();
                let samp = move |s: &mut u64, k: usize| {
                    let (a, b) = some_geo(s, k);
                    let th = 10f64.powf(1.0 - unit(s) * 14.0);
                    let th = if id.len() > 4 { th } else { 1.7453292519943295e-11 };
                    let mut off = |s: &mut u64| th * pick(s, &[0.0, 0.5, 0.9, 1.1, 1.5, 3.0, -0.5, -0.9, -1.1, -2.0]);
                    let (c, d) = (a + off(s), b + off(s));
                    Point { v: id.iter().cloned().zip([a, b, c, d, th]).collect(), a: Asg::default() }
                };
                let names: Vec<(&str, V)> = ["lat1", "lng1", "lat2", "lng2", "threshold"].iter().cloned().zip(v).collect();
                c.equal_real(cf, f, "every pair", doms0(), &names, &samp,
                    &|it, st, a| {
                        let p = geo_arg(it, f, 0, &vagg(a[0..2].to_vec()))?;
                        let q = geo_arg(it, f, 1, &vagg(a[2..4].to_vec()))?;
                        let mut w = vec![p, q];
                        w.extend(a[4..].iter().cloned());
                        plain(it, st, f, w)
                    },
                    &|it, st, a| flat_all(it, st, g, a.to_vec()));
            }
            5 => {
                let (x, y) = (inp(c, "lat", -1000.0, 1000.0), inp(c, "lng", -1000.0, 1000.0));
                let id = ids.clone();
                let samp = move |s: &mut u64, k: usize| Point { v: id.iter().map(|(a, lo, hi)| (*a, angle(s, k, *lo, *hi))).collect(), a: Asg::default() };
                for (cf, sf) in [("setGeoDegs", "from_degrees"), ("_setGeoRads", "")] {
                    let f = c.f(cf);
                    let g = if sf.is_empty() { FnId::MAX } else { c.s(sf) };
                    c.equal_real(cf, f, "every pair", doms0(), &[("lat", vr(x.clone())), ("lng", vr(y.clone()))], &samp,
                        &|it, st, a| {
                            let z = geo_arg(it, f, 0, &two(Sc::C(1.0f64.to_bits() as u128), Sc::C(2.0f64.to_bits() as u128)))?;
                            let t = target(it, it.p.funcs[f as usize].inputs[0]);
                            let mut out = vec![];
                            for (s, vs) in it.call(st, f, args(it, f, vec![z, a[0].clone(), a[1].clone()]))? { let o = part(it, t, &vs[1], &["lat", "lng"])?; out.push((s, o)); }
                            Ok(out)
                        },
                        &|it, st, a| if g == FnId::MAX { Ok(vec![(st, a.iter().map(|v| match v { V::S(s, t) => (s.clone(), *t), _ => unreachable!() }).collect())]) } else { flat_all(it, st, g, a.to_vec()) });
                }
            }
            6 => {
                let v: Vec<V> = ["lat1", "lng1", "lat2", "lng2"].iter().map(|n| vr(inp(c, n, -10.0, 10.0))).collect();
                let id: Vec<AtomId> = ids.iter().map(|x| x.0).collect();
                let samp = move |s: &mut u64, k: usize| { let (a, b) = some_geo(s, k); let (c, d) = some_geo(s, k / 8); Point { v: id.iter().cloned().zip([a, b, c, d]).collect(), a: Asg::default() } };
                let (f, g) = (c.f("_geoAzimuthRads"), c.s("azimuth"));
                let names: Vec<(&str, V)> = ["lat1", "lng1", "lat2", "lng2"].iter().cloned().zip(v).collect();
                c.equal_real("azimuth", f, "every pair", doms0(), &names, &samp,
                    &|it, st, a| { let p = geo_arg(it, f, 0, &vagg(a[0..2].to_vec()))?; let q = geo_arg(it, f, 1, &vagg(a[2..4].to_vec()))?; plain(it, st, f, vec![p, q]) },
                    &|it, st, a| flat_all(it, st, g, a.to_vec()));
            }
            7 => {
                let v: Vec<V> = [("lat", -PI / 2.0, PI / 2.0), ("lng", -3.0 * PI, 3.0 * PI), ("azimuth", -2.0 * PI, 4.0 * PI), ("distance", 0.0, PI)].iter().map(|(n, lo, hi)| vr(inp(c, n, *lo, *hi))).collect();
                let id: Vec<AtomId> = ids.iter().map(|x| x.0).collect();
                let samp = move |s: &mut u64, k: usize| {
                    let (a, b) = loop { let w = rng(s) as usize % 8; let (a, b) = some_geo(s, w); if a.abs() <= PI / 2.0 && b.abs() <= 3.0 * PI { break (a, b); } };
                    let az = match k % 3 { 0 => unit(s) * 2.0 * PI, 1 => pick(s, &[0.0, PI, 2.0 * PI, PI / 2.0, -PI, 3.0 * PI, 1.5 * PI]), _ => (unit(s) * 6.0 - 2.0) * PI };
                    let d = match k % 4 { 0 => unit(s) * PI, 1 => 0.0, 2 => pick(s, &[PI / 2.0 - a, PI / 2.0 + a, PI / 2.0]).min(PI), _ => 10f64.powf(-unit(s) * 6.0) };
                    Point { v: id.iter().cloned().zip([a, b, az, d]).collect(), a: Asg::default() }
                };
                let (f, g) = (c.f("_geoAzDistanceRads"), c.s("destination"));
                let names: Vec<(&str, V)> = ["lat", "lng", "azimuth", "distance"].iter().cloned().zip(v).collect();
                c.equal_how(How::Directions, "point at a distance", f, "in range", doms0(), &names, &samp,
                    &|it, st, a| { let p = geo_arg(it, f, 0, &vagg(a[0..2].to_vec()))?; latlng(it, st, f, vec![p, a[2].clone(), a[3].clone()]) },
                    &|it, st, a| flat_all(it, st, g, a.to_vec()));
            }
            8 => {
                let v: Vec<V> = ["lat", "lng"].iter().map(|n| vr(inp(c, n, -10.0, 10.0))).collect();
                let id: Vec<AtomId> = ids.iter().map(|x| x.0).collect();
                let samp = move |s: &mut u64, k: usize| { let (a, b) = some_geo(s, k); Point { v: id.iter().cloned().zip([a, b]).collect(), a: Asg::default() } };
                let (f, g) = (c.f("_geoToVec3d"), c.s("to_vec"));
                let names: Vec<(&str, V)> = ["lat", "lng"].iter().cloned().zip(v).collect();
                c.equal_real("unit vector", f, "every direction", doms0(), &names, &samp,
                    &|it, st, a| {
                        let p = geo_arg(it, f, 0, &vagg(a.to_vec()))?;
                        let ins = it.p.funcs[f as usize].inputs.clone();
                        let mut w = vec![p];
                        let back = ins.len() == 2;
                        let t = if back { target(it, ins[1]) } else { it.p.funcs[f as usize].output };
                        if back { let z = vr(Sc::C(0)); w.push(build(it, t, &[("x", z.clone()), ("y", z.clone()), ("z", z)])?); }
                        let mut out = vec![];
                        for (s, vs) in it.call(st, f, args(it, f, w))? { let o = part(it, t, if back { vs.last().unwrap() } else { &vs[0] }, &["x", "y", "z"])?; out.push((s, o)); }
                        Ok(out)
                    },
                    &|it, st, a| flat_all(it, st, g, a.to_vec()));
            }
            9 => {
                let v: Vec<V> = ["x1", "y1", "z1", "x2", "y2", "z2"].iter().map(|n| vr(inp(c, n, -10.0, 10.0))).collect();
                let id = ids.clone();
                let samp = move |s: &mut u64, _: usize| Point { v: id.iter().map(|(a, lo, hi)| (*a, angle(s, 0, *lo, *hi))).collect(), a: Asg::default() };
                let (f, g) = (c.f("_pointSquareDist"), c.s("sq_dist"));
                let names: Vec<(&str, V)> = ["x1", "y1", "z1", "x2", "y2", "z2"].iter().cloned().zip(v).collect();
                c.equal_real("squared distance", f, "every pair", doms0(), &names, &samp,
                    &|it, st, a| {
                        let mut w = vec![];
                        for k in 0..2 { let t = target(it, it.p.funcs[f as usize].inputs[k]); w.push(build(it, t, &[("x", a[3 * k].clone()), ("y", a[3 * k + 1].clone()), ("z", a[3 * k + 2].clone())])?); }
                        plain(it, st, f, w)
                    },
                    &|it, st, a| flat_all(it, st, g, vec![vagg(a[..3].to_vec()), vagg(a[3..].to_vec())]));
            }
            10 => {
                let (x, y) = (inp(c, "x", -1e10, 1e10), inp(c, "y", -1e10, 1e10));
                let id: Vec<AtomId> = ids.iter().map(|x| x.0).collect();
                let samp = move |s: &mut u64, k: usize| { let (a, b) = some_xy(s, k, 1e5); Point { v: id.iter().cloned().zip([a, b]).collect(), a: Asg::default() } };
                let (f, g) = (c.f("_v2dMag"), c.s("length"));
                c.equal_real("length", f, "every vector", doms0(), &[("v", two(x, y))], &samp,
                    &|it, st, a| { let v = xy_arg(it, f, 0, &a[0])?; plain(it, st, f, vec![v]) },
                    &|it, st, a| { let [p, q] = point2(&a[0])?; flat_all(it, st, g, vec![p, q]) });
            }
            _ => {}
        }
    });
}
fn plain(it: &mut Interp, st: St, f: FnId, a: Vec<V>) -> R<Vec<(St, Obs)>> {
    let t = it.p.funcs[f as usize].output;
    let mut out = vec![];
    for (s, vs) in it.call(st, f, args(it, f, a))? { out.extend(it.flat(s, &vs[0], t)?); }
    Ok(out)
}
/// a number of a range: anywhere, or around a multiple of a quarter turn
fn angle(s: &mut u64, k: usize, lo: f64, hi: f64) -> f64 {
    let x = match k % 3 { 0 => lo + unit(s) * (hi - lo), 1 => (rng(s) % 40) as f64 * PI / 2.0 - 10.0 * PI, _ => ((rng(s) % 40) as f64 * PI / 2.0 - 10.0 * PI) + (unit(s) - 0.5) * 10f64.powf(-unit(s) * 12.0) };
    if x < lo || x > hi { lo + unit(s) * (hi - lo) } else { x }
}
