// Real-valued terms: every floating-point value is a polynomial over atoms
// (inputs, integer symbols, elementary functions of such polynomials), kept in a
// normal form, so that algebraically equal computations get the same symbol.
// Conditions compare a normalised polynomial with a constant.
use crate::dom::*;
use crate::ops::F64;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

pub type AtomId = u32;
pub type Mono = Vec<(AtomId, i32)>;
#[derive(Clone, Debug, Default)]
pub struct Poly { pub c: f64, pub t: BTreeMap<Mono, f64> }
#[derive(Clone, Debug)]
pub enum Atom {
    In(String, f64, f64),
    Int(USym),
    Fn(String, Vec<Poly>),
}
#[derive(Default)]
pub struct FStore {
    pub on: bool,
    pub atoms: Vec<Atom>,
    aix: HashMap<(String, Vec<PKey>), AtomId>,
    pix: HashMap<PKey, USym>,
    pub polys: HashMap<USym, Rc<Poly>>,
    /// thresholds that come from comparing with a very small number
    meant: std::collections::HashSet<(PKey, u64)>,
}
type PKey = (u64, Vec<(Mono, u64)>);
const MAXMONO: usize = 400;

fn rnd(x: f64) -> u64 { if x == 0.0 { 0 } else { x.to_bits().wrapping_add(1 << 15) >> 16 } }
/// sum without the dust of a cancellation
fn sum(a: f64, b: f64) -> f64 { let s = a + b; if s.abs() <= 4e-15 * a.abs().max(b.abs()) { 0.0 } else { s } }
impl Poly {
    pub fn con(c: f64) -> Poly { Poly { c, t: BTreeMap::new() } }
    pub fn atom(a: AtomId) -> Poly { Poly { c: 0.0, t: [(vec![(a, 1)], 1.0)].into() } }
    pub fn is_con(&self) -> bool { self.t.is_empty() }
    fn key(&self) -> PKey { (rnd(self.c), self.t.iter().map(|(m, k)| (m.clone(), rnd(*k))).collect()) }
    pub fn add(&self, o: &Poly, k: f64) -> Poly {
        let mut r = self.clone();
        r.c = sum(r.c, k * o.c);
        for (m, x) in &o.t {
            let e = r.t.entry(m.clone()).or_insert(0.0);
            *e = sum(*e, k * x);
            if *e == 0.0 { r.t.remove(m); }
        }
        r
    }
    pub fn scale(&self, k: f64) -> Poly { if k == 0.0 { return Poly::con(0.0); } Poly { c: self.c * k, t: self.t.iter().map(|(m, x)| (m.clone(), x * k)).collect() } }
    pub fn mul(&self, o: &Poly) -> Poly {
        let mut r = o.scale(self.c);
        for (m, x) in &self.t {
            let mut p = Poly::default();
            if o.c != 0.0 { p.t.insert(m.clone(), x * o.c); }
            for (n, y) in &o.t {
                let q = join(m, n);
                if q.is_empty() { p.c = sum(p.c, x * y); continue; }
                let e = p.t.entry(q.clone()).or_insert(0.0);
                *e = sum(*e, x * y);
                if *e == 0.0 { p.t.remove(&q); }
            }
            r = r.add(&p, 1.0);
        }
        r
    }
    /// without the constant, leading coefficient 1
    fn lead(&self) -> f64 { self.t.values().next().cloned().unwrap_or(1.0) }
}
fn join(a: &Mono, b: &Mono) -> Mono {
    let mut m: BTreeMap<AtomId, i32> = a.iter().cloned().collect();
    for (x, e) in b { *m.entry(*x).or_insert(0) += e; }
    m.into_iter().filter(|x| x.1 != 0).collect()
}
pub fn apply(f: &str, a: &[f64]) -> Option<f64> {
    let x = *a.first()?;
    Some(match (f, a.len()) {
        ("sin", 1) => x.sin(), ("cos", 1) => x.cos(), ("tan", 1) => x.tan(), ("asin", 1) => x.asin(), ("acos", 1) => x.acos(), ("atan", 1) => x.atan(),
        ("sqrt", 1) => x.sqrt(), ("fabs", 1) | ("abs", 1) => x.abs(), ("recip", 1) => 1.0 / x, ("exp", 1) => x.exp(), ("ln", 1) => x.ln(), ("cbrt", 1) => x.cbrt(),
        ("exp2", 1) => x.exp2(), ("log10", 1) => x.log10(), ("log2", 1) => x.log2(), ("sinh", 1) => x.sinh(), ("cosh", 1) => x.cosh(), ("tanh", 1) => x.tanh(),
        ("floor", 1) => x.floor(), ("ceil", 1) => x.ceil(), ("round", 1) => x.round(), ("trunc", 1) => x.trunc(), ("signum", 1) => x.signum(), ("exp_m1", 1) => x.exp_m1(), ("ln_1p", 1) => x.ln_1p(),
        ("fract", 1) => x.fract(),
        ("atan2", 2) => x.atan2(a[1]), ("hypot", 2) => x.hypot(a[1]), ("pow" | "powf", 2) => x.powf(a[1]), ("copysign", 2) => x.copysign(a[1]), ("rem", 2) => x % a[1],
        ("rem_euclid", 2) => x.rem_euclid(a[1]), ("div_euclid", 2) => x.div_euclid(a[1]),
        ("max", 2) => x.max(a[1]), ("min", 2) => x.min(a[1]),
        _ => return None,
    })
}
pub struct Env<'a> {
    pub v: &'a HashMap<AtomId, f64>,
    pub ints: &'a BTreeMap<USym, i128>,
    pub memo: HashMap<AtomId, f64>,
    /// random relative disturbance of every operation
    pub noise: Option<u64>,
}
impl<'a> Env<'a> {
    fn dirt(&mut self, x: f64) -> f64 {
        match &mut self.noise {
            Some(s) => { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; x * (1.0 + ((*s >> 11) as f64 / (1u64 << 53) as f64 - 0.5) * 4.5e-16) }
            None => x,
        }
    }
}

impl Dom {
    pub fn f_on(&self) -> bool { self.ft.on }
    pub fn f_input(&mut self, name: &str, lo: f64, hi: f64) -> (Sc, AtomId) {
        let a = self.ft.atoms.len() as AtomId;
        self.ft.atoms.push(Atom::In(name.into(), lo, hi));
        (self.f_sc(Poly::atom(a)), a)
    }
    pub fn f_int(&mut self, u: USym) -> AtomId {
        if let Some(k) = self.ft.atoms.iter().position(|a| matches!(a, Atom::Int(v) if *v == u)) { return k as AtomId; }
        self.ft.atoms.push(Atom::Int(u));
        self.ft.atoms.len() as AtomId - 1
    }
    pub fn f_sc(&mut self, p: Poly) -> Sc {
        if p.is_con() { return Sc::C(p.c.to_bits() as u128); }
        let k = p.key();
        if let Some(u) = self.ft.pix.get(&k) { let u = *u; return self.unb_sc(u); }
        let u = self.new_usym(Term::App(format!("real{}", self.ft.pix.len()), vec![]), None, None, false);
        self.ft.pix.insert(k, u);
        self.ft.polys.insert(u, Rc::new(p));
        self.unb_sc(u)
    }
    pub fn f_poly(&self, s: &Sc) -> R<Poly> {
        match s {
            Sc::C(c) => Ok(Poly::con(f64::from_bits(*c as u64))),
            Sc::T(t) => Err(Stop::Split(t.clone())),
            Sc::L(l) if l.den == 1 && l.c == 0 && l.tabs.is_empty() && l.unb.len() == 1 && l.unb[0].1 == 1 => match self.ft.polys.get(&l.unb[0].0) { Some(p) => Ok((**p).clone()), None => fail("not a real term") },
            _ => fail("not a real term"),
        }
    }
    /// integer to real
    pub fn f_from_int(&mut self, st: &Rc<Doms>, s: &Sc, ty: ITy) -> R<Sc> {
        match s {
            Sc::C(c) => Ok(Sc::C((ty.to_i(*c) as f64).to_bits() as u128)),
            Sc::T(t) => Err(Stop::Split(t.clone())),
            _ => {
                let l = self.to_lin(st, s, ty)?;
                if let Some((sy, _)) = l.tabs.first() { let t = self.sym_tab(sy[0]); return Err(Stop::Split(Rc::new(t))); }
                let mut p = Poly::con(l.c as f64 / l.den as f64);
                for (u, k) in l.unb.clone() { let a = self.f_int(u); p = p.add(&Poly::atom(a), k as f64 / l.den as f64); }
                Ok(self.f_sc(p))
            }
        }
    }
    fn f_atom(&mut self, f: &str, args: Vec<Poly>) -> Poly {
        let k = (f.to_string(), args.iter().map(|p| p.key()).collect::<Vec<_>>());
        if let Some(a) = self.ft.aix.get(&k) { return Poly::atom(*a); }
        let a = self.ft.atoms.len() as AtomId;
        self.ft.atoms.push(Atom::Fn(f.into(), args));
        self.ft.aix.insert(k, a);
        Poly::atom(a)
    }
    pub fn f_fn(&mut self, f: &str, a: Vec<Poly>) -> R<Poly> {
        if a.iter().all(|p| p.is_con()) {
            let v: Vec<f64> = a.iter().map(|p| p.c).collect();
            return match apply(f, &v) { Some(x) => Ok(Poly::con(x)), None => fail(format!("function {}", f)) };
        }
        if apply(f, &vec![0.5; a.len()]).is_none() { return fail(format!("function {}", f)); }
        let neg = a[0].lead() < 0.0;
        Ok(match f {
            "sin" | "tan" | "asin" | "atan" if neg => self.f_atom(f, vec![a[0].scale(-1.0)]).scale(-1.0),
            "cos" if neg => self.f_atom(f, vec![a[0].scale(-1.0)]),
            "abs" | "fabs" => {
                let (lo, hi) = self.f_range(&a[0], 0);
                if lo >= 0.0 { return Ok(a[0].clone()); }
                if hi <= 0.0 { return Ok(a[0].scale(-1.0)); }
                let k = a[0].lead();
                self.f_atom("abs", vec![a[0].scale(1.0 / k)]).scale(k.abs())
            }
            "recip" => {
                if a[0].c == 0.0 && a[0].t.len() == 1 {
                    let (m, k) = a[0].t.iter().next().unwrap();
                    return Ok(Poly { c: 0.0, t: [(m.iter().map(|(x, e)| (*x, -e)).collect::<Mono>(), 1.0 / k)].into() });
                }
                let k = a[0].lead();
                self.f_atom("recip", vec![a[0].scale(1.0 / k)]).scale(1.0 / k)
            }
            _ => self.f_atom(f, a),
        })
    }
    pub fn f_call(&mut self, f: &str, a: &[Sc]) -> R<Sc> {
        let p: Vec<Poly> = a.iter().map(|s| self.f_poly(s)).collect::<R<_>>()?;
        let r = self.f_fn(f, p)?;
        Ok(self.f_sc(r))
    }
    pub fn f_bin(&mut self, st: &Rc<Doms>, op: &str, a: &Sc, b: &Sc) -> R<Sc> {
        let (p, q) = (self.f_poly(a)?, self.f_poly(b)?);
        let r = match op {
            "Add" => p.add(&q, 1.0),
            "Sub" => p.add(&q, -1.0),
            "Mul" => { if (p.t.len() + 1) * (q.t.len() + 1) > MAXMONO { return fail("polynomial too large"); } p.mul(&q) }
            "Div" => if q.is_con() { p.scale(1.0 / q.c) } else { let i = self.f_fn("recip", vec![q])?; if (p.t.len() + 1) * (i.t.len() + 1) > MAXMONO { return fail("polynomial too large"); } p.mul(&i) },
            "Rem" => self.f_fn("rem", vec![p, q])?,
            "Lt" => return Ok(self.f_less(st, &p, &q)),
            "Gt" => return Ok(self.f_less(st, &q, &p)),
            "Le" => { let x = self.f_less(st, &q, &p); return self.bool_not(st, &x); }
            "Ge" => { let x = self.f_less(st, &p, &q); return self.bool_not(st, &x); }
            "Eq" => return Ok(self.f_equal(st, &p, &q)),
            "Ne" => { let x = self.f_equal(st, &p, &q); return self.bool_not(st, &x); }
            _ => return fail(format!("float op {}", op)),
        };
        Ok(self.f_sc(r))
    }
    /// normalised difference of a and b: (sign, polynomial without constant, threshold): a < b iff sign * q < threshold
    fn f_split(a: &Poly, b: &Poly) -> (f64, Poly, f64) {
        let mut d = Poly::con(0.0).add(a, 1.0);
        let t = b.c - a.c;
        // what rounding took from the threshold
        let bb = t + a.c;
        let err = (b.c - bb) + (bb - t - a.c);
        d.c = 0.0;
        let mut e = b.clone();
        e.c = 0.0;
        let d = d.add(&e, -1.0);
        let k = d.lead();
        let mut t = t / k;
        let err = err / k;
        // a strict bound keeps the numbers it admits
        if k > 0.0 && err > 0.0 { t = t.next_up(); }
        if k < 0.0 && err < 0.0 { t = t.next_down(); }
        (k, d.scale(1.0 / k), t)
    }
    fn f_less(&mut self, st: &Rc<Doms>, a: &Poly, b: &Poly) -> Sc {
        let (k, q, t) = Dom::f_split(a, b);
        if q.is_con() { return Sc::C((0.0 < b.c - a.c) as u128); }
        let op = if k > 0.0 { "flt" } else { "fgt" };
        let tiny = |p: &Poly| p.is_con() && p.c != 0.0 && p.c.abs() < 1e-9;
        if tiny(a) || tiny(b) { let k = (q.key(), t.to_bits()); self.ft.meant.insert(k); }
        self.f_pred(st, op, q, t)
    }
    fn f_equal(&mut self, st: &Rc<Doms>, a: &Poly, b: &Poly) -> Sc {
        let (_, q, t) = Dom::f_split(a, b);
        if q.is_con() { return Sc::C((b.c == a.c) as u128); }
        self.f_pred(st, "feq", q, t)
    }
    /// what the path conditions say about q: (low, strict), (high, strict)
    fn f_known(&self, st: &Rc<Doms>, q: &Sc) -> ((f64, bool), (f64, bool)) {
        let (mut lo, mut hi) = ((f64::NEG_INFINITY, false), (f64::INFINITY, false));
        let mut low = |v: f64, s: bool| if v > lo.0 || (v == lo.0 && s) { lo = (v, s); };
        let mut high = |v: f64, s: bool| if v < hi.0 || (v == hi.0 && s) { hi = (v, s); };
        for (s, m) in &st.d {
            if let Some(Pred::Op(o, v)) = &self.syms[*s as usize].pred {
                if v.len() != 2 || v[0] != *q { continue; }
                let t = match &v[1] { Sc::C(c) => f64::from_bits(*c as u64), _ => continue };
                match (o.as_str(), *m) {
                    ("flt", 2) => high(t, true), ("flt", 1) => low(t, false),
                    ("fgt", 2) => low(t, true), ("fgt", 1) => high(t, false),
                    ("feq", 2) => { low(t, false); high(t, false); }
                    _ => {}
                }
            }
        }
        (lo, hi)
    }
    fn f_pred(&mut self, st: &Rc<Doms>, op: &str, q: Poly, t: f64) -> Sc {
        let (rl, rh) = self.f_range(&q, 0);
        let s = self.f_sc(q.clone());
        let (mut lo, mut hi) = self.f_known(st, &s);
        // bounds that only rounding keeps apart are one
        let k = q.key();
        let same = |b: f64| b != t && (b - t).abs() <= 1e-15 * t.abs().max(1.0) && !self.ft.meant.contains(&(k.clone(), t.to_bits())) && !self.ft.meant.contains(&(k.clone(), b.to_bits()));
        if same(lo.0) { lo.0 = t; lo.1 = true; }
        if same(hi.0) { hi.0 = t; hi.1 = true; }
        if rl > lo.0 { lo = (rl, false); }
        if rh < hi.0 { hi = (rh, false); }
        let r = match op {
            "flt" => if hi.0 < t || (hi.0 == t && hi.1) { Some(true) } else if lo.0 >= t { Some(false) } else { None },
            "fgt" => if lo.0 > t || (lo.0 == t && lo.1) { Some(true) } else if hi.0 <= t { Some(false) } else { None },
            _ => if lo.0 == t && hi.0 == t { Some(true) } else if hi.0 < t || lo.0 > t || (hi.0 == t && hi.1) || (lo.0 == t && lo.1) { Some(false) } else { None },
        };
        if let Some(b) = r { return Sc::C(b as u128); }
        if q.t.len() > 1 {
            if self.f_contradicts(st, op, &q, t, true) { return Sc::C(0); }
            if self.f_contradicts(st, op, &q, t, false) { return Sc::C(1); }
        }
        self.pred_sc(st, Pred::Op(op.into(), vec![s, Sc::C(t.to_bits() as u128)]))
    }
    /// the linear relaxation (monomials as independent variables in their ranges) excludes that truth value, up to ties
    fn f_contradicts(&self, st: &Rc<Doms>, op: &str, q: &Poly, t: f64, truth: bool) -> bool {
        // rows: sum a.x <= b; narrow bands of comparisons with a very small number are widened
        let mut bands: Vec<(Poly, f64, f64)> = vec![];
        let mut push = |q: &Poly, op: &str, t: f64, truth: bool| {
            let (lo, hi) = match (op, truth) { ("flt", true) | ("fgt", false) => (f64::NEG_INFINITY, t), ("flt", false) | ("fgt", true) => (t, f64::INFINITY), _ => return };
            let k = q.key();
            match bands.iter_mut().find(|b| b.0.key() == k) { Some(b) => { b.1 = b.1.max(lo); b.2 = b.2.min(hi); } None => bands.push((q.clone(), lo, hi)) }
        };
        push(q, op, t, truth);
        for (s, m) in &st.d {
            if let Some(Pred::Op(o, v)) = &self.syms[*s as usize].pred {
                if v.len() != 2 || (*m != 1 && *m != 2) { continue; }
                if let (Ok(p), Sc::C(c)) = (self.f_poly(&v[0]), &v[1]) { if p.t.len() > 1 { push(&p, o, f64::from_bits(*c as u64), *m == 2); } }
            }
        }
        let mut rows: Vec<(Poly, f64)> = vec![];
        for (q, mut lo, mut hi) in bands {
            let m = |t: f64| self.ft.meant.contains(&(q.key(), t.to_bits()));
            if hi > lo && hi - lo < 1e-9 && (m(lo) || m(hi)) { lo -= 1e-9; hi += 1e-9; }
            if hi.is_finite() { rows.push((q.clone(), hi)); }
            if lo.is_finite() { rows.push((q.scale(-1.0), -lo)); }
        }
        if rows.len() < 2 { return false; }
        let mut vars: Vec<Mono> = vec![];
        for (p, _) in &rows { for m in p.t.keys() { if !vars.contains(m) { vars.push(m.clone()); } } }
        if vars.len() > 8 { return false; }
        let mut box_ = vec![];
        for m in &vars { let (l, h) = self.f_mono(m, 0); if !l.is_finite() || !h.is_finite() { return false; } box_.push((l, h)); }
        let a: Vec<Vec<f64>> = rows.iter().map(|(p, _)| { let n = p.t.values().map(|x| x.abs()).fold(0.0, f64::max); vars.iter().map(|m| p.t.get(m).cloned().unwrap_or(0.0) / n).collect() }).collect();
        let b: Vec<f64> = rows.iter().map(|(p, t)| { let n = p.t.values().map(|x| x.abs()).fold(0.0, f64::max); t / n }).collect();
        slack(&a, &b, &box_) <= 1e-12
    }
    pub fn f_mono(&self, m: &Mono, depth: u32) -> (f64, f64) {
        let mut r = (1.0f64, 1.0f64);
        for (a, e) in m {
            let (l, h) = self.f_arange(*a, depth);
            let p = if *e < 0 || !l.is_finite() || !h.is_finite() && l < 0.0 {
                if *e < 0 && l > 0.0 && h.is_finite() { (h.powi(*e), l.powi(*e)) } else { (f64::NEG_INFINITY, f64::INFINITY) }
            } else if *e % 2 == 0 {
                let x = l.powi(*e); let y = h.powi(*e);
                (if l <= 0.0 && h >= 0.0 { 0.0 } else { x.min(y) }, x.max(y))
            } else { (l.powi(*e), h.powi(*e)) };
            r = imul(r, p);
        }
        r
    }
    fn f_arange(&self, a: AtomId, depth: u32) -> (f64, f64) {
        use std::f64::consts::PI;
        if depth > 6 { return (f64::NEG_INFINITY, f64::INFINITY); }
        match &self.ft.atoms[a as usize] {
            Atom::In(_, l, h) => (*l, *h),
            Atom::Int(u) => { let i = &self.usyms[*u as usize]; (i.lo.map_or(f64::NEG_INFINITY, |x| x as f64), i.hi.map_or(f64::INFINITY, |x| x as f64)) }
            Atom::Fn(f, _) => match f.as_str() {
                "sin" | "cos" | "signum" => (-1.0, 1.0),
                "asin" | "atan" => (-PI / 2.0, PI / 2.0),
                "acos" => (0.0, PI),
                "atan2" => (-PI, PI),
                "sqrt" | "abs" | "hypot" | "exp" => (0.0, f64::INFINITY),
                _ => (f64::NEG_INFINITY, f64::INFINITY),
            },
        }
    }
    pub fn f_range(&self, p: &Poly, depth: u32) -> (f64, f64) {
        let mut r = (p.c, p.c);
        for (m, k) in &p.t { let x = imul((*k, *k), self.f_mono(m, depth)); r = (r.0 + x.0, r.1 + x.1); }
        if r.0.is_nan() { r.0 = f64::NEG_INFINITY; }
        if r.1.is_nan() { r.1 = f64::INFINITY; }
        r
    }
    // ---------- evaluation ----------
    pub fn f_eval(&self, p: &Poly, e: &mut Env) -> Option<f64> {
        let mut r = p.c;
        for (m, k) in &p.t {
            let mut x = *k;
            for (a, n) in m { let v = self.f_eval_atom(*a, e)?; x *= v.powi(*n); if !(m.len() == 1 && *n == 1 && k.abs() == 1.0) { x = e.dirt(x); } }
            let plain = r == 0.0;
            r += x;
            if !plain { r = e.dirt(r); }
        }
        Some(r)
    }
    /// an input by itself compared with a number: (input, number)
    pub fn f_bound(&self, s: Sym) -> Option<(AtomId, f64)> {
        if let Some(Pred::Op(o, v)) = &self.syms[s as usize].pred {
            if o.starts_with('f') && v.len() == 2 {
                if let (Ok(q), Sc::C(c)) = (self.f_poly(&v[0]), &v[1]) {
                    if q.c == 0.0 && q.t.len() == 1 { let m = q.t.keys().next().unwrap(); if m.len() == 1 && m[0].1 == 1 && matches!(self.ft.atoms[m[0].0 as usize], Atom::In(..)) { return Some((m[0].0, f64::from_bits(*c as u64) / q.t[m])); } }
                }
            }
        }
        None
    }
    fn f_eval_atom(&self, a: AtomId, e: &mut Env) -> Option<f64> {
        if let Some(v) = e.v.get(&a) { return Some(*v); }
        if let Some(v) = e.memo.get(&a) { return Some(*v); }
        let v = match &self.ft.atoms[a as usize] {
            Atom::Fn(f, args) => {
                let mut x = vec![];
                for p in args { x.push(self.f_eval(p, e)?); }
                let v = apply(f, &x)?;
                e.dirt(v)
            }
            Atom::Int(u) => return e.ints.get(u).map(|x| *x as f64),
            _ => return None,
        };
        e.memo.insert(a, v);
        Some(v)
    }
    pub fn f_holds(&self, p: &Pred, e: &mut Env) -> Option<bool> {
        if let Pred::Op(o, v) = p {
            if v.len() == 2 {
                if let (Ok(q), Sc::C(c)) = (self.f_poly(&v[0]), &v[1]) {
                    let (x, t) = (self.f_eval(&q, e)?, f64::from_bits(*c as u64));
                    return Some(match o.as_str() { "flt" => x < t, "fgt" => x > t, "feq" => x == t, _ => return None });
                }
            }
        }
        None
    }
    pub fn f_show(&self, p: &Poly) -> String {
        let mut s = vec![];
        if p.c != 0.0 || p.t.is_empty() { s.push(format!("{}", p.c)); }
        for (m, k) in &p.t {
            let f: Vec<String> = m.iter().map(|(a, e)| format!("{}{}", match &self.ft.atoms[*a as usize] { Atom::In(n, _, _) => n.clone(), Atom::Int(u) => self.show_u(*u), Atom::Fn(f, x) => format!("{}({})", f, x.iter().map(|y| self.f_show(y)).collect::<Vec<_>>().join(", ")) }, if *e == 1 { String::new() } else { format!("^{}", e) })).collect();
            s.push(if *k == 1.0 { f.join("*") } else { format!("{}*{}", k, f.join("*")) });
        }
        s.join(" + ")
    }
}
fn imul(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let v = [a.0 * b.0, a.0 * b.1, a.1 * b.0, a.1 * b.1].map(|x| if x.is_nan() { 0.0 } else { x });
    let (mut l, mut h) = (v.iter().cloned().fold(f64::INFINITY, f64::min), v.iter().cloned().fold(f64::NEG_INFINITY, f64::max));
    if a.0.is_infinite() && b.1.is_infinite() { l = l.min(f64::NEG_INFINITY); h = f64::INFINITY; }
    (l, h)
}
/// largest s with a.x + s <= b and x in the box (dense simplex on the dual-free form, Bland's rule)
pub fn slack(a: &[Vec<f64>], b: &[f64], bx: &[(f64, f64)]) -> f64 { slack_to(a, b, bx, f64::INFINITY) }
/// the same, but any value found above `enough` will do
pub fn slack_to(a: &[Vec<f64>], b: &[f64], bx: &[(f64, f64)], enough: f64) -> f64 {
    // y = x - lo >= 0; s = s1 - M, s1 >= 0: rows a.y + s1 <= b - a.lo + M with M large enough to make the origin feasible
    let n = bx.len();
    let rhs0: Vec<f64> = a.iter().zip(b).map(|(r, b)| b - r.iter().zip(bx).map(|(k, l)| k * l.0).sum::<f64>()).collect();
    let m0 = rhs0.iter().cloned().fold(0.0, |x: f64, y| x.max(-y)) + 1.0;
    let mut t: Vec<Vec<f64>> = vec![];
    for (r, b) in a.iter().zip(&rhs0) { let mut v = r.clone(); v.push(1.0); v.push(b + m0); t.push(v); }
    for (k, l) in bx.iter().enumerate() { let mut v = vec![0.0; n + 2]; v[k] = 1.0; v[n + 1] = l.1 - l.0; t.push(v); }
    { let mut v = vec![0.0; n + 2]; v[n] = 1.0; v[n + 1] = m0 + 8.0; t.push(v); }
    let m = t.len();
    // tableau with slack variables
    let w = n + 1 + m;
    let mut tab: Vec<Vec<f64>> = t.iter().enumerate().map(|(i, r)| { let mut v = vec![0.0; w + 1]; v[..n + 1].copy_from_slice(&r[..n + 1]); v[n + 1 + i] = 1.0; v[w] = r[n + 1]; v }).collect();
    let mut z = vec![0.0f64; w + 1];
    z[n] = -1.0;
    let mut basis: Vec<usize> = (0..m).map(|i| n + 1 + i).collect();
    for _ in 0..500 {
        let j = match (0..w).find(|j| z[*j] < -1e-11) { Some(j) => j, None => break };
        let mut best: Option<(usize, f64)> = None;
        for i in 0..m { if tab[i][j] > 1e-11 { let r = tab[i][w] / tab[i][j]; match best { Some((bi, br)) if r > br + 1e-15 || (r >= br - 1e-15 && basis[bi] < basis[i]) => {} _ => best = Some((i, r)) } } }
        let i = match best { Some((i, _)) => i, None => return f64::INFINITY };
        let p = tab[i][j];
        for x in tab[i].iter_mut() { *x /= p; }
        let row = tab[i].clone();
        let nz: Vec<usize> = (0..=w).filter(|c| row[*c] != 0.0).collect();
        for k in 0..m { if k != i && tab[k][j] != 0.0 { let f = tab[k][j]; let t = &mut tab[k]; for c in &nz { t[*c] -= f * row[*c]; } t[j] = 0.0; } }
        let f = z[j];
        for c in &nz { z[*c] -= f * row[*c]; }
        z[j] = 0.0;
        basis[i] = j;
        if z[w] - m0 > enough { return z[w] - m0; }
    }
    if (0..w).any(|j| z[j] < -1e-9) { return f64::INFINITY; }
    z[w] - m0
}
#[allow(dead_code)]
pub fn f64_ty() -> ITy { F64 }

// ---------- library functions on reals ----------
use crate::interp::*;
use crate::ir::FnId;
fn vf(s: Sc) -> V { V::S(s, F64) }
impl<'p> Interp<'p> {
    /// the mathematical functions of the standard library (and of libm wrappers), as functions on reals
    pub fn fnative(&mut self, st: &St, f: FnId, args: &[V]) -> R<Option<Vec<(St, V)>>> {
        let func = &self.p.funcs[f as usize];
        if func.local { return Ok(None); }
        let def = &func.def;
        let name: String = match &func.intrinsic {
            Some(i) => i.trim_end_matches("f64").trim_end_matches('_').to_string(),
            None => {
                let l = def.rsplit("::").next().unwrap_or("").to_string();
                let known = def.contains("<impl f64>") || def.contains("cmath") || def.contains("libm") || def.contains("num_traits::Float") || def.contains("num::Float") || def.contains("float::Float");
                if !known { return Ok(None); }
                l
            }
        };
        let name = name.trim_start_matches("float_").to_string();
        let name = name.as_str();
        let mut x: Vec<(Sc, ITy)> = vec![];
        for a in args {
            match a {
                V::S(s, t) => { let s = self.d.resimp(&st.doms, s); x.push((s, *t)); }
                _ => return Ok(None),
            }
        }
        if x.is_empty() || !x[0].1.float { return Ok(None); }
        for (s, _) in &x { if let Sc::T(t) = s { return Err(Stop::Split(t.clone())); } }
        let one = |v: V| Ok(Some(vec![(st.clone(), v)]));
        let con = |k: usize| match &x[k].0 { Sc::C(c) => Some(f64::from_bits(*c as u64)), _ => None };
        let allc = x.iter().all(|a| matches!(a.0, Sc::C(_)));
        let b = |v: bool| V::S(Sc::C(v as u128), ITy::BOOL);
        match (name, x.len()) {
            ("is_finite", 1) => return one(b(con(0).map_or(true, |v| v.is_finite()))),
            ("is_nan", 1) => return one(b(con(0).map_or(false, |v| v.is_nan()))),
            ("is_infinite", 1) => return one(b(con(0).map_or(false, |v| v.is_infinite()))),
            ("is_sign_negative", 1) | ("is_sign_positive", 1) if con(0).is_none() => {
                let r = self.d.f_bin(&st.doms, "Lt", &x[0].0, &Sc::C(0))?;
                let r = if name == "is_sign_negative" { r } else { self.d.bool_not(&st.doms, &r)? };
                return one(V::S(r, ITy::BOOL));
            }
            ("sin_cos", 1) => {
                let (s, c) = (self.d.f_call("sin", &[x[0].0.clone()])?, self.d.f_call("cos", &[x[0].0.clone()])?);
                return one(vagg(vec![vf(s), vf(c)]));
            }
            ("mul_add", 3) | ("fma", 3) | ("fmuladd", 3) => {
                if let (Some(p), Some(q), Some(r)) = (con(0), con(1), con(2)) { return one(vf(Sc::C(p.mul_add(q, r).to_bits() as u128))); }
                let p = self.d.fbin_any(&st.doms, "Mul", &x[0].0, &x[1].0)?;
                let r = self.d.fbin_any(&st.doms, "Add", &p, &x[2].0)?;
                return one(vf(r));
            }
            ("powi", 2) | ("powf", 2) | ("pow", 2) => {
                let n = match &x[1] { (Sc::C(c), t) => if t.float { let v = f64::from_bits(*c as u64); if v.fract() == 0.0 && v.abs() < 100.0 { Some(v as i32) } else { None } } else { Some(t.to_i(*c) as i32) }, _ => None };
                if let (Some(v), Some(n)) = (con(0), n) { return one(vf(Sc::C(v.powi(n).to_bits() as u128))); }
                if let (Some(n), None) = (n, con(0)) {
                    if n.abs() > 60 { return fail("power"); }
                    let mut p = Sc::C(1.0f64.to_bits() as u128);
                    for _ in 0..n.abs() { p = self.d.fbin_any(&st.doms, "Mul", &p, &x[0].0)?; }
                    if n < 0 { p = self.d.fbin_any(&st.doms, "Div", &Sc::C(1.0f64.to_bits() as u128), &p)?; }
                    return one(vf(p));
                }
                if let (Some(v), (s, t)) = (con(0), &x[1]) {
                    // constant base, integer exponent symbol
                    let e = if t.float { s.clone() } else { self.d.f_from_int(&st.doms, s, *t)? };
                    if let Sc::C(c) = e { return one(vf(Sc::C(v.powf(f64::from_bits(c as u64)).to_bits() as u128))); }
                    let r = self.d.f_call("powf", &[x[0].0.clone(), e])?;
                    return one(vf(r));
                }
                if let Some(v) = con(1) { if v == 0.5 { let r = self.d.f_call("sqrt", &[x[0].0.clone()])?; return one(vf(r)); } }
                let r = self.d.f_call("powf", &[x[0].0.clone(), x[1].0.clone()])?;
                return one(vf(r));
            }
            ("sqrt", 1) if !allc => { let r = self.d.f_call("sqrt", &[x[0].0.clone()])?; return one(vf(r)); }
            ("hypot", 2) if !allc => {
                let p = self.d.fbin_any(&st.doms, "Mul", &x[0].0, &x[0].0)?;
                let q = self.d.fbin_any(&st.doms, "Mul", &x[1].0, &x[1].0)?;
                let s = self.d.fbin_any(&st.doms, "Add", &p, &q)?;
                let r = self.d.f_call("sqrt", &[s])?;
                return one(vf(r));
            }
            ("recip", 1) => { let r = self.d.fbin_any(&st.doms, "Div", &Sc::C(1.0f64.to_bits() as u128), &x[0].0)?; return one(vf(r)); }
            ("max" | "min" | "maxnum" | "minnum" | "maximum" | "minimum" | "maximum_number_nsz" | "minimum_number_nsz", 2) => {
                if let (Some(p), Some(q)) = (con(0), con(1)) { return one(vf(Sc::C(if name.starts_with("max") { p.max(q) } else { p.min(q) }.to_bits() as u128))); }
                let less = self.d.f_bin(&st.doms, "Lt", &x[0].0, &x[1].0)?;
                let l = match less { Sc::C(c) => c == 1, Sc::T(t) => return Err(Stop::Split(t)), _ => return fail("comparison") };
                return one(vf(x[if l == name.starts_with("max") { 1 } else { 0 }].0.clone()));
            }
            ("abs" | "fabs", 1) if !allc => {
                // the sign decides, so that |x| < t and -t < x < t read the same
                let less = self.d.f_bin(&st.doms, "Lt", &x[0].0, &Sc::C(0))?;
                let l = match less { Sc::C(c) => c == 1, Sc::T(t) => return Err(Stop::Split(t)), _ => return fail("comparison") };
                let p = self.d.f_poly(&x[0].0)?;
                let r = self.d.f_sc(if l { p.scale(-1.0) } else { p });
                return one(vf(r));
            }
            _ => {}
        }
        if x.iter().all(|a| a.1.float) && apply(name, &vec![0.5; x.len()]).is_some() && !name.contains("euclid") {
            let a: Vec<Sc> = x.iter().map(|v| v.0.clone()).collect();
            let r = self.d.f_call(name, &a)?;
            return one(vf(r));
        }
        Ok(None)
    }
}
impl Dom {
    /// arithmetic that folds constants exactly
    pub fn fbin_any(&mut self, st: &Rc<Doms>, op: &str, a: &Sc, b: &Sc) -> R<Sc> {
        if let (Sc::C(x), Sc::C(y)) = (a, b) {
            let (x, y) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64));
            let r = match op { "Add" => x + y, "Sub" => x - y, "Mul" => x * y, _ => x / y };
            return Ok(Sc::C(r.to_bits() as u128));
        }
        self.f_bin(st, op, a, b)
    }
}
