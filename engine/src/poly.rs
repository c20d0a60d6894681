// Convex polyhedra: emptiness of the set of points that satisfy the linear facts
// of a state, by Fourier-Motzkin elimination with integer tightening.
use crate::dom::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum Var {
    U(USym),
    T(Vec<Sym>, Vec<i128>),
}

/// sum of coefficients times variables, plus c, is >= 0 (or > 0)
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Row {
    k: BTreeMap<usize, i128>,
    c: i128,
    strict: bool,
}

fn gcd(mut a: i128, mut b: i128) -> i128 { while b != 0 { let t = a % b; a = b; b = t; } a.abs() }

const MAXROWS: usize = 600;
const FEW: usize = 14;

struct Sys<'a> {
    d: &'a Dom,
    vars: Vec<Var>,
    ix: BTreeMap<Var, usize>,
    int: Vec<bool>,
    rows: Vec<Row>,
    norms: Vec<USym>,
}

impl<'a> Sys<'a> {
    fn var(&mut self, v: Var) -> usize {
        if let Some(i) = self.ix.get(&v) { return *i; }
        let i = self.vars.len();
        let int = match &v { Var::U(u) => self.d.usyms[*u as usize].is_int, Var::T(..) => true };
        if let Var::U(u) = &v { if let Term::Norm(..) = self.d.usyms[*u as usize].term { self.norms.push(*u); } }
        self.vars.push(v.clone());
        self.ix.insert(v, i);
        self.int.push(int);
        i
    }
    fn add(&mut self, l: &Lin, strict: bool) {
        let mut k = BTreeMap::new();
        for (s, t) in &l.tabs { let i = self.var(Var::T(s.clone(), t.to_vec())); *k.entry(i).or_insert(0) += 1; }
        for (u, c) in &l.unb { let i = self.var(Var::U(*u)); *k.entry(i).or_insert(0) += *c; }
        k.retain(|_, v| *v != 0);
        let r = Row { k, c: l.c, strict };
        if let Some(r) = self.tidy(r) { self.rows.push(r); }
    }
    /// canonical row; None when it says nothing
    fn tidy(&self, mut r: Row) -> Option<Row> {
        if r.k.is_empty() {
            if r.c > 0 || (r.c == 0 && !r.strict) { return None; }
            return Some(r);
        }
        let all_int = r.k.keys().all(|i| self.int[*i]);
        if all_int && r.strict { r.c -= 1; r.strict = false; }
        let mut g = 0;
        for v in r.k.values() { g = gcd(g, *v); }
        if g > 1 {
            if all_int {
                for v in r.k.values_mut() { *v /= g; }
                r.c = r.c.div_euclid(g);
            } else {
                let g = gcd(g, r.c);
                if g > 1 { for v in r.k.values_mut() { *v /= g; } r.c /= g; }
            }
        }
        Some(r)
    }
    fn unsat(mut self) -> bool {
        loop {
            if self.rows.iter().any(|r| r.k.is_empty()) { return true; }
            // strongest row per direction
            let mut best: BTreeMap<Vec<(usize, i128)>, (i128, bool)> = BTreeMap::new();
            for r in &self.rows {
                let key: Vec<(usize, i128)> = r.k.iter().map(|(a, b)| (*a, *b)).collect();
                let e = best.entry(key).or_insert((r.c, r.strict));
                if r.c < e.0 || (r.c == e.0 && r.strict) { *e = (r.c, r.strict); }
            }
            self.rows = best.into_iter().map(|(k, (c, strict))| Row { k: k.into_iter().collect(), c, strict }).collect();
            let mut pn: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
            for r in &self.rows { for (i, v) in &r.k { let e = pn.entry(*i).or_insert((0, 0)); if *v > 0 { e.0 += 1 } else { e.1 += 1 } } }
            let x = match pn.iter().min_by_key(|(_, (p, n))| (p * n) as i64 - (p + n) as i64) { Some((x, _)) => *x, None => return false };
            let (mut pos, mut neg, mut rest) = (vec![], vec![], vec![]);
            for r in std::mem::take(&mut self.rows) {
                match r.k.get(&x) { Some(v) if *v > 0 => pos.push(r), Some(_) => neg.push(r), None => rest.push(r) }
            }
            if pos.len() * neg.len() + rest.len() > MAXROWS { return false; }
            for p in &pos {
                for n in &neg {
                    let (a, b) = (p.k[&x], -n.k[&x]);
                    let g = gcd(a, b);
                    let (fp, fn_) = (b / g, a / g);
                    let mut k = BTreeMap::new();
                    let mut ok = true;
                    for (i, v) in &p.k { match v.checked_mul(fp) { Some(w) => { k.insert(*i, w); } None => ok = false } }
                    for (i, v) in &n.k {
                        match v.checked_mul(fn_).and_then(|w| k.get(i).copied().unwrap_or(0).checked_add(w)) { Some(w) => { k.insert(*i, w); } None => ok = false }
                    }
                    let c = p.c.checked_mul(fp).and_then(|u| n.c.checked_mul(fn_).and_then(|v| u.checked_add(v)));
                    let c = match c { Some(c) if ok => c, _ => continue };
                    k.retain(|_, v| *v != 0);
                    if let Some(r) = self.tidy(Row { k, c, strict: p.strict || n.strict }) { rest.push(r); }
                }
            }
            self.rows = rest;
        }
    }
}

/// the tables of the variables: what one value of a symbol gives to several of them
struct Hull {
    /// every variable as constant plus combination of the reduced variables
    expr: Vec<(f64, Vec<(usize, f64)>)>,
    bx: Vec<(f64, f64)>,
    /// coefficients over reduced variables <= bound
    rows: Vec<(Vec<(usize, f64)>, f64)>,
}
impl<'a> Sys<'a> {
    fn hull(&self, st: &Rc<Doms>, bounds: &[(Option<i128>, Option<i128>)]) -> Hull {
        let mut h = Hull { expr: vec![(0.0, vec![]); self.vars.len()], bx: vec![], rows: vec![] };
        let mut groups: BTreeMap<Vec<Sym>, Vec<usize>> = BTreeMap::new();
        for (i, v) in self.vars.iter().enumerate() {
            match v { Var::T(s, _) if s.len() == 1 => groups.entry(s.clone()).or_default().push(i), _ => { h.expr[i].1.push((h.bx.len(), 1.0)); h.bx.push((bounds[i].0.unwrap() as f64, bounds[i].1.unwrap() as f64)); } }
        }
        for (s, g) in groups {
            let m = self.d.base_dom(st, s[0]);
            let tab = |i: usize| match &self.vars[i] { Var::T(_, t) => t.iter().enumerate().filter(|(x, _)| m >> x & 1 == 1).map(|(_, v)| *v).collect::<Vec<i128>>(), _ => unreachable!() };
            let ts: Vec<Vec<i128>> = g.iter().map(|i| tab(*i)).collect();
            let mut basis: Vec<usize> = vec![];
            for (n, t) in ts.iter().enumerate() {
                // constant plus combination of at most two basis tables
                let e = fit(&basis.iter().map(|b| &ts[*b]).collect::<Vec<_>>(), t);
                match e {
                    Some((c, w)) => { let k = w.iter().zip(&basis).map(|(x, b)| (h.expr[g[*b]].1[0].0, *x)).collect(); h.expr[g[n]] = (c, k); }
                    None => {
                        h.expr[g[n]] = (0.0, vec![(h.bx.len(), 1.0)]);
                        h.bx.push((*t.iter().min().unwrap_or(&0) as f64, *t.iter().max().unwrap_or(&0) as f64));
                        if basis.len() < 2 { basis.push(n); }
                    }
                }
            }
            if basis.len() == 2 {
                let (x, y) = (h.expr[g[basis[0]]].1[0].0, h.expr[g[basis[1]]].1[0].0);
                let p: Vec<(i128, i128)> = ts[basis[0]].iter().copied().zip(ts[basis[1]].iter().copied()).collect();
                for a in &p { for b in &p {
                    if a == b { continue; }
                    let (nx, ny) = (b.1 - a.1, a.0 - b.0);
                    if nx == 0 || ny == 0 { continue; }
                    let c = nx * a.0 + ny * a.1;
                    if p.iter().all(|q| nx * q.0 + ny * q.1 <= c) {
                        let sc = nx.abs().max(ny.abs()) as f64 / 1000.0;
                        h.rows.push((vec![(x, nx as f64 / sc), (y, ny as f64 / sc)], c as f64 / sc));
                    }
                } }
            }
        }
        h
    }
}
/// t as constant plus combination of the basis (none, one or two tables)
fn fit(b: &[&Vec<i128>], t: &Vec<i128>) -> Option<(f64, Vec<f64>)> {
    if t.is_empty() { return Some((0.0, vec![0.0; b.len()])); }
    let d = |v: &Vec<i128>, k: usize| (v[k] - v[0]) as f64;
    let n = t.len();
    let ok = |w: &[f64]| (0..n).all(|k| (b.iter().zip(w).map(|(v, x)| d(v, k) * x).sum::<f64>() - d(t, k)).abs() < 1e-6);
    let w: Vec<f64> = match b.len() {
        0 => vec![],
        1 => { let k = (0..n).find(|k| d(b[0], *k) != 0.0)?; vec![d(t, k) / d(b[0], k)] }
        _ => {
            let mut r = None;
            'o: for k in 0..n { for l in 0..k { let q = d(b[0], k) * d(b[1], l) - d(b[0], l) * d(b[1], k); if q != 0.0 { r = Some(vec![(d(t, k) * d(b[1], l) - d(t, l) * d(b[1], k)) / q, (d(b[0], k) * d(t, l) - d(b[0], l) * d(t, k)) / q]); break 'o; } } }
            r?
        }
    };
    if !ok(&w) { return None; }
    Some((t[0] as f64 - b.iter().zip(&w).map(|(v, x)| v[0] as f64 * x).sum::<f64>(), w))
}
impl Hull {
    fn empty(&self, rows: &[&Row]) -> bool {
        let n = self.bx.len();
        if self.bx.iter().any(|b| b.0 > b.1) { return true; }
        let (mut a, mut b) = (vec![], vec![]);
        for r in rows {
            let (mut v, mut c) = (vec![0.0; n], r.c as f64);
            for (i, k) in &r.k { let (e, w) = &self.expr[*i]; c += *k as f64 * e; for (x, y) in w { v[*x] -= *k as f64 * y; } }
            a.push(v);
            b.push(c);
        }
        // the shape of the tables binds exactly: no slack is asked of it beyond a trifle
        for (w, c) in &self.rows { let mut v = vec![0.0; n]; for (x, y) in w { v[*x] += y; } a.push(v); b.push(*c); }
        crate::fterm::slack_to(&a, &b, &self.bx, 0.0) < -0.05
    }
}

impl Dom {
    /// no point of the state satisfies numerator >= 0 (> 0 when strict) for all extra forms
    pub fn refuted(&self, st: &Rc<Doms>, extra: &[(Lin, bool)], skip: Option<Sym>) -> bool {
        if self.late() { return false; }
        if self.refuted_convex(st, extra, skip) { return true; }
        // a recorded inequality divides the polyhedron in two
        let mut ne = vec![];
        for (y, m) in &st.d {
            if Some(*y) == skip || *m != 1 { continue; }
            if let Some(Pred::Eq(l)) = &self.syms[*y as usize].pred { ne.push(l.clone()); }
        }
        let vars: std::collections::BTreeSet<USym> = extra.iter().flat_map(|x| x.0.unb.iter().map(|y| y.0)).collect();
        ne.retain(|l| l.unb.iter().all(|(u, _)| vars.contains(u)));
        if ne.len() > 3 { ne.truncate(3); }
        if ne.is_empty() { return false; }
        (0..1u32 << ne.len()).all(|m| {
            let mut e = extra.to_vec();
            for (k, l) in ne.iter().enumerate() { e.push((if m >> k & 1 == 1 { l.as_ref().clone() } else { self.lin_scale(l, -1, 1) }, true)); }
            self.refuted_convex(st, &e, skip)
        })
    }
    fn refuted_convex(&self, st: &Rc<Doms>, extra: &[(Lin, bool)], skip: Option<Sym>) -> bool {
        let mut s = Sys { d: self, vars: vec![], ix: BTreeMap::new(), int: vec![], rows: vec![], norms: vec![] };
        for (l, strict) in extra { s.add(l, *strict); }
        // facts that share variables with the question, transitively
        let mut facts: Vec<(Lin, bool)> = vec![];
        for (y, m) in &st.d {
            if Some(*y) == skip || m.count_ones() != 1 { continue; }
            let p = match &self.syms[*y as usize].pred { Some(p) => p, None => continue };
            let neg = |l: &Lin| self.lin_scale(l, -1, 1);
            match (p, *m == 2) {
                (Pred::Ge(l), true) => facts.push((l.as_ref().clone(), false)),
                (Pred::Ge(l), false) => facts.push((neg(l), true)),
                (Pred::Gt(l), true) => facts.push((l.as_ref().clone(), true)),
                (Pred::Gt(l), false) => facts.push((neg(l), false)),
                (Pred::Eq(l), true) => { facts.push((l.as_ref().clone(), false)); facts.push((neg(l), false)); }
                _ => {}
            }
        }
        let mut done_norm = 0;
        loop {
            let mut grew = false;
            let mut later = vec![];
            for (l, strict) in facts {
                let touches = extra.is_empty() || l.unb.iter().any(|(u, _)| s.ix.contains_key(&Var::U(*u))) || l.tabs.iter().any(|(a, b)| s.ix.contains_key(&Var::T(a.clone(), b.to_vec())));
                if touches { s.add(&l, strict); grew = true; } else { later.push((l, strict)); }
            }
            facts = later;
            while done_norm < s.norms.len() {
                let u = s.norms[done_norm];
                done_norm += 1;
                if let Term::Norm(a, b) = &self.usyms[u as usize].term {
                    let n = Lin { den: 1, c: 0, tabs: vec![], unb: vec![(u, 1)] };
                    s.add(&n, false);
                    // added by hand: tidying tables would ask this question again
                    for x in [a, b] { let mut l = x.as_ref().clone(); l.unb.push((u, l.den)); l.den = 1; s.add(&l, false); }
                    grew = true;
                }
            }
            if !grew { break; }
        }
        let asked = s.rows.len();
        let mut bounds: Vec<(Option<i128>, Option<i128>)> = vec![];
        for i in 0..s.vars.len() {
            let (lo, hi) = match &s.vars[i] {
                Var::U(u) => {
                    let x = &self.usyms[*u as usize];
                    match &x.term {
                        Term::Norm(a, b) => {
                            let low = |l: &Lin| self.bounds_of(l).map(|x| x.0);
                            (Some(0), low(a).and_then(|p| low(b).map(|q| 0.max(-p).max(-q))))
                        }
                        _ => (x.lo, x.hi),
                    }
                }
                Var::T(sup, t) => {
                    // conditions are not decided here: that would ask this question again
                    let ok = if sup.iter().any(|y| self.syms[*y as usize].pred.is_some()) {
                        let ms: Vec<u128> = sup.iter().map(|y| self.base_dom(st, *y)).collect();
                        let mut v = vec![];
                        idx_iter(&self.dims(sup), |_, ix| v.push(ix.iter().zip(&ms).all(|(a, m)| m >> a & 1 == 1)));
                        Rc::new(v)
                    } else { self.combos(st, sup) };
                    let it = || t.iter().zip(ok.iter()).filter(|x| *x.1).map(|x| *x.0);
                    (it().min(), it().max())
                }
            };
            bounds.push((lo, hi));
            if let Some(x) = lo { s.rows.push(Row { k: [(i, 1)].into_iter().collect(), c: -x, strict: false }); }
            if let Some(x) = hi { s.rows.push(Row { k: [(i, -1)].into_iter().collect(), c: x, strict: false }); }
        }
        // elimination explodes on many variables; there a linear programme decides
        if (s.vars.len() > FEW || !s.norms.is_empty()) && bounds.iter().all(|b| b.0.map_or(false, |x| x.abs() < 1 << 40) && b.1.map_or(false, |x| x.abs() < 1 << 40)) {
            s.rows.truncate(asked);
            // a normal form is 0 or the negation of one of its two components
            let forms: Vec<(usize, Vec<Row>)> = s.norms.clone().into_iter().take(3).filter_map(|u| {
                let i = *s.ix.get(&Var::U(u))?;
                let (a, b) = match &self.usyms[u as usize].term { Term::Norm(a, b) => (a.clone(), b.clone()), _ => return None };
                let one = |s: &mut Sys, l: &Lin| { if l.den != 1 { return None; } let n0 = s.rows.len(); let v0 = s.vars.len(); s.add(l, false); let r = s.rows.get(n0).cloned(); s.rows.truncate(n0); if s.vars.len() > v0 { None } else { r } };
                let (ra, rb) = (one(&mut s, &a), one(&mut s, &b));
                // n <= 0; a + n <= 0; b + n <= 0
                let mut v = vec![Row { k: [(i, -1)].into_iter().collect(), c: 0, strict: false }];
                for r in [ra, rb] {
                    let r = r?;
                    let mut k: BTreeMap<usize, i128> = r.k.iter().map(|(x, y)| (*x, -*y)).collect();
                    *k.entry(i).or_insert(0) -= 1;
                    k.retain(|_, v| *v != 0);
                    v.push(Row { k, c: -r.c, strict: false });
                }
                Some((i, v))
            }).collect();
            let hull = s.hull(st, &bounds);
            return (0..3usize.pow(forms.len() as u32)).all(|m| {
                let mut rows: Vec<&Row> = s.rows.iter().collect();
                let mut m = m;
                for (_, v) in &forms { rows.push(&v[m % 3]); m /= 3; }
                hull.empty(&rows)
            });
        }
        s.unsat()
    }
    /// bounds that hold in every state
    fn bounds_of(&self, l: &Lin) -> Option<(i128, i128)> {
        if l.den != 1 { return None; }
        let (mut a, mut b) = (l.c, l.c);
        for (_, t) in &l.tabs { a += t.iter().min()?; b += t.iter().max()?; }
        for (u, k) in &l.unb { let x = &self.usyms[*u as usize]; let (p, q) = (x.lo? * k, x.hi? * k); a += p.min(q); b += p.max(q); }
        Some((a, b))
    }
    /// the linear facts of the state contradict each other
    pub fn no_point(&self, st: &Rc<Doms>) -> bool { self.poly && !self.late() && self.refuted_convex(st, &[], None) }
    /// numerator >= k decided on the polyhedron of the state's facts
    pub fn sign_poly(&self, st: &Rc<Doms>, l: &Lin, k: i128, skip: Option<Sym>) -> Option<bool> {
        // k is 0 (>= 0) or 1 (> 0)
        // negation of >= 0 is -l > 0; negation of > 0 is -l >= 0
        let lt = self.lin_scale(l, -1, 1);
        if self.refuted(st, &[(lt, k == 0)], skip) { return Some(true); }
        if self.refuted(st, &[(l.clone(), k == 1)], skip) { return Some(false); }
        None
    }
}
