// Abstract value domain.
//
// Scalars are either constants, finite tables over a small set of finite
// symbols (exact relational information), bit-segment strings, linear forms
// over tables and unbounded symbols, or uninterpreted terms.  A state carries a
// domain (set of possible values) for every finite symbol that has been
// restricted; everything else is a function of the symbols.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type Sym = u32;
pub type USym = u32;

pub const KSUP: usize = 2;
pub const MAXTAB: usize = 20000;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Tab {
    pub sup: Vec<Sym>,
    pub dims: Vec<u32>,
    pub data: Vec<u128>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Lin {
    pub den: i128,
    pub c: i128,
    pub tabs: Vec<(Vec<Sym>, Rc<Vec<i128>>)>,
    pub unb: Vec<(USym, i128)>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum SegK {
    C(u64),
    T(Rc<Tab>),
    Op(USym, u8),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Seg {
    pub len: u8,
    pub k: SegK,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Sc {
    C(u128),
    T(Rc<Tab>),
    B(Rc<Vec<Seg>>),
    L(Rc<Lin>),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Pred {
    /// linear form (integer numerators over den) >= 0
    Ge(Rc<Lin>),
    /// linear form > 0 (rational)
    Gt(Rc<Lin>),
    /// linear form == 0
    Eq(Rc<Lin>),
    /// uninterpreted predicate
    Op(String, Vec<Sc>),
}

pub struct SymInfo {
    pub name: String,
    pub size: u32,
    pub vals: Rc<Vec<u128>>,
    pub def: Option<Rc<Tab>>,
    pub pred: Option<Pred>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Term {
    Fresh(String),
    /// bits [off, off+len) of another opaque integer symbol
    Bits(USym, u8, u8),
    App(String, Vec<Sc>),
    /// the k added by lattice normalisation of (u, v, 0): max(0,-u,-v)
    Norm(Rc<Lin>, Rc<Lin>),
    /// product of two integer symbols
    Prod(USym, USym),
}

pub struct USymInfo {
    pub term: Term,
    pub lo: Option<i128>,
    pub hi: Option<i128>,
    pub is_int: bool,
}

/// Ask the interpreter to split the state on the value of this table, or give up.
#[derive(Debug, Clone)]
pub enum Stop {
    Split(Rc<Tab>),
    Fail(String),
}
pub type R<T> = Result<T, Stop>;

pub fn fail<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Fail(s.into()))
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ITy {
    pub bits: u32,
    pub signed: bool,
    pub float: bool,
}
impl ITy {
    pub const BOOL: ITy = ITy { bits: 1, signed: false, float: false };
    pub const U64: ITy = ITy { bits: 64, signed: false, float: false };
    pub const I32: ITy = ITy { bits: 32, signed: true, float: false };
    pub const I64: ITy = ITy { bits: 64, signed: true, float: false };
    pub fn mask(&self) -> u128 {
        if self.bits >= 128 { u128::MAX } else { (1u128 << self.bits) - 1 }
    }
    pub fn to_i(&self, v: u128) -> i128 {
        let v = v & self.mask();
        if self.signed && self.bits < 128 && (v >> (self.bits - 1)) & 1 == 1 {
            v as i128 - (1i128 << self.bits)
        } else {
            v as i128
        }
    }
    pub fn min(&self) -> i128 {
        if self.signed { if self.bits >= 128 { i128::MIN / 4 } else { -(1i128 << (self.bits - 1)) } } else { 0 }
    }
    pub fn max(&self) -> i128 {
        if self.bits >= 126 { return i128::MAX / 4; }
        if self.signed { (1i128 << (self.bits - 1)) - 1 } else { (1i128 << self.bits) - 1 }
    }
    pub fn wrap(&self, v: i128) -> u128 {
        (v as u128) & self.mask()
    }
    pub fn fits(&self, v: i128) -> bool {
        v >= self.min() && v <= self.max()
    }
}

/// Symbol domains of a state: only restricted symbols are listed.
pub struct Doms {
    pub d: Vec<(Sym, u128)>,
    cache: RefCell<HashMap<Vec<Sym>, Rc<Vec<bool>>>>,
    fcache: RefCell<HashMap<Sym, u128>>,
    reduced: RefCell<Option<Rc<Doms>>>,
}
impl Doms {
    pub fn new(d: Vec<(Sym, u128)>) -> Rc<Doms> {
        Rc::new(Doms { d, cache: Default::default(), fcache: Default::default(), reduced: Default::default() })
    }
    pub fn get(&self, s: Sym) -> Option<u128> {
        match self.d.binary_search_by_key(&s, |x| x.0) {
            Ok(i) => Some(self.d[i].1),
            Err(_) => None,
        }
    }
    pub fn with(&self, s: Sym, m: u128) -> Rc<Doms> {
        let mut d = self.d.clone();
        match d.binary_search_by_key(&s, |x| x.0) {
            Ok(i) => d[i].1 = m,
            Err(i) => d.insert(i, (s, m)),
        }
        Doms::new(d)
    }
    pub fn without(&self, s: Sym) -> Rc<Doms> {
        Doms::new(self.d.iter().cloned().filter(|x| x.0 != s).collect())
    }
}

#[derive(Default)]
pub struct Dom {
    pub syms: Vec<SymInfo>,
    pub usyms: Vec<USymInfo>,
    def_ix: HashMap<Rc<Tab>, Sym>,
    pred_ix: HashMap<Pred, Sym>,
    term_ix: HashMap<Term, USym>,
    pub fresh: u32,
    pub n_tab_ops: u64,
    /// bit fields (offset, length) used to group segments of 64-bit words
    pub fields: Vec<(u8, u8)>,
    pub assumed: Vec<String>,
    /// decide linear questions on the polyhedron of the recorded facts
    pub poly: bool,
    /// end of the time given to the current case
    pub deadline: Option<std::time::Instant>,
    /// floating-point values as real terms
    pub ft: crate::fterm::FStore,
}

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        let t = a % b;
        a = b;
        b = t;
    }
    a
}

pub fn full(size: u32) -> u128 {
    if size >= 128 { u128::MAX } else { (1u128 << size) - 1 }
}

pub fn idx_iter(dims: &[u32], mut f: impl FnMut(usize, &[u32])) {
    let n: usize = dims.iter().map(|x| *x as usize).product();
    let mut ix = vec![0u32; dims.len()];
    for i in 0..n {
        f(i, &ix);
        for k in (0..dims.len()).rev() {
            ix[k] += 1;
            if ix[k] < dims[k] { break; }
            ix[k] = 0;
        }
    }
}

/// positions of `sub` inside `sup`
fn positions(sup: &[Sym], sub: &[Sym]) -> Vec<usize> {
    sub.iter().map(|s| sup.iter().position(|x| x == s).unwrap()).collect()
}

fn sub_index(pos: &[usize], dims: &[u32], ix: &[u32]) -> usize {
    let mut k = 0usize;
    for (p, d) in pos.iter().zip(dims) {
        k = k * (*d as usize) + ix[*p] as usize;
    }
    k
}

pub fn union_sup(a: &[Sym], b: &[Sym]) -> Vec<Sym> {
    let mut v: Vec<Sym> = a.to_vec();
    for x in b { if !v.contains(x) { v.push(*x); } }
    v.sort();
    v
}

impl Dom {
    pub fn late(&self) -> bool { self.deadline.map_or(false, |d| std::time::Instant::now() > d) }
    pub fn new_sym(&mut self, name: &str, size: u32) -> Sym {
        assert!(size <= 128 && size > 0);
        let s = self.syms.len() as Sym;
        self.syms.push(SymInfo { name: name.into(), size, vals: Rc::new((0..size as u128).collect()), def: None, pred: None });
        s
    }
    /// a finite symbol ranging over explicit values
    pub fn new_sym_vals(&mut self, name: &str, vals: Vec<u128>) -> Sym {
        let s = self.new_sym(name, vals.len() as u32);
        self.syms[s as usize].vals = Rc::new(vals);
        s
    }
    pub fn sym_sc(&self, s: Sym) -> Sc {
        Sc::T(Rc::new(self.sym_tab(s)))
    }
    pub fn sym_tab(&self, s: Sym) -> Tab {
        Tab { sup: vec![s], dims: vec![self.syms[s as usize].size], data: self.syms[s as usize].vals.to_vec() }
    }
    pub fn new_usym(&mut self, term: Term, lo: Option<i128>, hi: Option<i128>, is_int: bool) -> USym {
        if let Some(u) = self.term_ix.get(&term) { return *u; }
        let u = self.usyms.len() as USym;
        self.usyms.push(USymInfo { term: term.clone(), lo, hi, is_int });
        self.term_ix.insert(term, u);
        u
    }
    pub fn unb_sc(&self, u: USym) -> Sc {
        Sc::L(Rc::new(Lin { den: 1, c: 0, tabs: vec![], unb: vec![(u, 1)] }))
    }
    pub fn opaque(&mut self, op: &str, args: Vec<Sc>, ty: ITy) -> Sc {
        let (lo, hi) = if ty.float { (None, None) } else { (Some(ty.min()), Some(ty.max())) };
        let u = self.new_usym(Term::App(format!("{}:{}{}", op, if ty.float {"f"} else if ty.signed {"i"} else {"u"}, ty.bits), args), lo, hi, !ty.float);
        self.unb_sc(u)
    }
    pub fn fresh_int(&mut self, name: &str, lo: i128, hi: i128) -> Sc {
        self.fresh += 1;
        let n = format!("{}#{}", name, self.fresh);
        let u = self.new_usym(Term::Fresh(n), Some(lo), Some(hi), true);
        self.unb_sc(u)
    }
    pub fn fresh_float(&mut self, name: &str) -> Sc {
        self.fresh += 1;
        let n = format!("{}#{}", name, self.fresh);
        let u = self.new_usym(Term::Fresh(n), None, None, false);
        self.unb_sc(u)
    }
    pub fn dims(&self, sup: &[Sym]) -> Vec<u32> {
        sup.iter().map(|s| self.syms[*s as usize].size).collect()
    }
    pub fn prod(&self, sup: &[Sym]) -> usize {
        sup.iter().map(|s| self.syms[*s as usize].size as usize).product()
    }

    // ---------- feasibility ----------
    pub fn base_dom(&self, st: &Doms, s: Sym) -> u128 {
        st.get(s).unwrap_or_else(|| full(self.syms[s as usize].size))
    }
    pub fn fwd(&self, st: &Rc<Doms>, s: Sym) -> u128 {
        let info = &self.syms[s as usize];
        let m = self.base_dom(st, s);
        if info.def.is_none() && info.pred.is_none() { return m; }
        if let Some(v) = st.fcache.borrow().get(&s) { return *v; }
        let mut r = m;
        if let Some(def) = &info.def {
            let ok = self.combos(st, &def.sup);
            let mut img = 0u128;
            for (i, o) in ok.iter().enumerate() {
                if *o {
                    // def data holds the index of the value
                    img |= 1u128 << def.data[i];
                }
            }
            r &= img;
        } else if let Some(p) = &info.pred {
            // avoid self reference: evaluate without this symbol's own fact
            if m.count_ones() > 1 {
                match self.decide_pred(st, p, Some(s)) {
                    Some(true) => r &= 2,
                    Some(false) => r &= 1,
                    None => {}
                }
            } else if let Some(b) = self.decide_pred(st, p, Some(s)) {
                r &= if b { 2 } else { 1 };
            }
        }
        st.fcache.borrow_mut().insert(s, r);
        r
    }
    pub fn combos(&self, st: &Rc<Doms>, sup: &[Sym]) -> Rc<Vec<bool>> {
        if let Some(c) = st.cache.borrow().get(sup) { return c.clone(); }
        let dims = self.dims(sup);
        let masks: Vec<u128> = sup.iter().map(|s| self.fwd(st, *s)).collect();
        let n: usize = dims.iter().map(|x| *x as usize).product();
        let mut ok = vec![false; n];
        idx_iter(&dims, |i, ix| {
            ok[i] = ix.iter().zip(&masks).all(|(v, m)| (m >> v) & 1 == 1);
        });
        // backward constraints from restricted defined symbols, and
        // consistency of defined symbols inside sup
        let mut cons: Vec<Sym> = vec![];
        for (s, _) in st.d.iter() {
            if self.syms[*s as usize].def.is_some() { cons.push(*s); }
        }
        for s in sup {
            if self.syms[*s as usize].def.is_some() && !cons.contains(s) { cons.push(*s); }
        }
        for n in cons {
            let def = self.syms[n as usize].def.as_ref().unwrap();
            let n_in = sup.contains(&n);
            let over: Vec<Sym> = def.sup.iter().cloned().filter(|x| sup.contains(x)).collect();
            if over.is_empty() { continue; }
            let nd = self.base_dom(st, n);
            if !n_in && nd == full(self.syms[n as usize].size) { continue; }
            // projected allowed set over (over, [n])
            let odims = self.dims(&over);
            let osz: usize = odims.iter().map(|x| *x as usize).product();
            let nsz = self.syms[n as usize].size as usize;
            let mut allowed = vec![false; osz * if n_in { nsz } else { 1 }];
            let pos = positions(&def.sup, &over);
            let dm: Vec<u128> = def.sup.iter().map(|s| if sup.contains(s) { self.fwd_nodef(st, *s) } else { self.base_dom(st, *s) }).collect();
            idx_iter(&def.dims, |i, ix| {
                if !ix.iter().zip(&dm).all(|(v, m)| (m >> v) & 1 == 1) { return; }
                let v = def.data[i];
                if (nd >> v) & 1 == 0 { return; }
                let o = sub_index(&pos, &odims, ix);
                if n_in { allowed[o * nsz + v as usize] = true; } else { allowed[o] = true; }
            });
            let pos2 = positions(sup, &over);
            let npos = sup.iter().position(|x| *x == n);
            idx_iter(&dims, |i, ix| {
                if !ok[i] { return; }
                let o = sub_index(&pos2, &odims, ix);
                let a = if let Some(np) = npos { allowed[o * nsz + ix[np] as usize] } else { allowed[o] };
                if !a { ok[i] = false; }
            });
        }
        let rc = Rc::new(ok);
        st.cache.borrow_mut().insert(sup.to_vec(), rc.clone());
        rc
    }
    fn fwd_nodef(&self, st: &Doms, s: Sym) -> u128 { self.base_dom(st, s) }

    /// is the domain assignment contradictory on any restricted symbol?
    pub fn empty(&self, st: &Rc<Doms>) -> bool {
        for (s, m) in &st.d {
            if *m == 0 { return true; }
            let info = &self.syms[*s as usize];
            if info.def.is_some() || info.pred.is_some() {
                if self.fwd(st, *s) == 0 { return true; }
            }
        }
        for (s, _) in &st.d {
            let info = &self.syms[*s as usize];
            if let Some(def) = &info.def {
                let c = self.combos(st, &def.sup);
                if !c.iter().any(|x| *x) { return true; }
            }
        }
        false
    }

    /// drop restrictions of defined symbols that the other restrictions imply
    pub fn reduce_doms(&self, st: &Rc<Doms>) -> Rc<Doms> {
        let mut cur = st.clone();
        if let Some(r) = st.reduced.borrow().as_ref() { return r.clone(); }
        let cand: Vec<Sym> = st.d.iter().rev().map(|x| x.0).filter(|s| self.syms[*s as usize].def.is_some()).collect();
        for s in cand {
            let m = cur.get(s).unwrap();
            let w = cur.without(s);
            if self.fwd(&w, s) & !m == 0 { cur = w; }
        }
        // restrictions of defined symbols may pin base symbols: keep the masks explicit
        *st.reduced.borrow_mut() = Some(cur.clone());
        cur
    }

    // ---------- tables ----------
    pub fn simp(&self, st: &Rc<Doms>, sup: Vec<Sym>, data: Vec<u128>) -> Sc {
        let ok = self.combos(st, &sup);
        let mut first = None;
        let mut single = true;
        for (i, o) in ok.iter().enumerate() {
            if *o {
                match first {
                    None => first = Some(data[i]),
                    Some(v) => if v != data[i] { single = false; break; }
                }
            }
        }
        if single { return Sc::C(first.unwrap_or(0)); }
        // drop irrelevant symbols
        let dims = self.dims(&sup);
        let mut sup = sup;
        let mut dims = dims;
        let mut data = data;
        let mut ok: Vec<bool> = ok.to_vec();
        let mut k = 0;
        while k < sup.len() && sup.len() > 1 {
            let stride: usize = dims[k + 1..].iter().map(|x| *x as usize).product();
            let dk = dims[k] as usize;
            let outer: usize = dims[..k].iter().map(|x| *x as usize).product();
            let mut irrelevant = true;
            'o: for o in 0..outer {
                for s in 0..stride {
                    let mut v: Option<u128> = None;
                    for j in 0..dk {
                        let p = (o * dk + j) * stride + s;
                        if ok[p] {
                            match v { None => v = Some(data[p]), Some(x) => if x != data[p] { irrelevant = false; break 'o; } }
                        }
                    }
                }
            }
            if irrelevant {
                let mut nd = Vec::with_capacity(outer * stride);
                let mut nok = Vec::with_capacity(outer * stride);
                for o in 0..outer {
                    for s in 0..stride {
                        let mut v = data[(o * dk) * stride + s];
                        let mut any = false;
                        for j in 0..dk {
                            let p = (o * dk + j) * stride + s;
                            if ok[p] { v = data[p]; any = true; break; }
                        }
                        nd.push(v);
                        nok.push(any);
                    }
                }
                data = nd;
                ok = nok;
                sup.remove(k);
                dims.remove(k);
            } else {
                k += 1;
            }
        }
        Sc::T(Rc::new(Tab { sup, dims, data }))
    }
    pub fn resimp(&self, st: &Rc<Doms>, s: &Sc) -> Sc {
        match s {
            Sc::T(t) => self.simp(st, t.sup.clone(), t.data.clone()),
            _ => s.clone(),
        }
    }
    /// the table with its impossible entries cleared
    pub fn only_feasible(&self, st: &Rc<Doms>, t: &Rc<Tab>) -> Rc<Tab> {
        let ok = self.combos(st, &t.sup);
        Rc::new(Tab { sup: t.sup.clone(), dims: t.dims.clone(), data: t.data.iter().zip(ok.iter()).map(|(v, o)| if *o { *v } else { 0 }).collect() })
    }
    /// feasible values of a table
    pub fn values(&self, st: &Rc<Doms>, t: &Tab) -> Vec<u128> {
        let ok = self.combos(st, &t.sup);
        let mut v: Vec<u128> = ok.iter().enumerate().filter(|(_, o)| **o).map(|(i, _)| t.data[i]).collect();
        v.sort();
        v.dedup();
        v
    }
    /// turn a table into a single defined symbol (hash-consed)
    pub fn materialise(&mut self, st: &Rc<Doms>, t: &Rc<Tab>) -> R<Rc<Tab>> {
        if t.sup.len() <= 1 { return Ok(t.clone()); }
        let mut vals: Vec<u128> = t.data.clone();
        vals.sort();
        vals.dedup();
        if vals.len() > 128 {
            return Err(Stop::Split(t.clone()));
        }
        let data: Vec<u128> = t.data.iter().map(|v| vals.binary_search(v).unwrap() as u128).collect();
        let key = Rc::new(Tab { sup: t.sup.clone(), dims: t.dims.clone(), data });
        let s = if let Some(s) = self.def_ix.get(&key) {
            *s
        } else {
            let s = self.syms.len() as Sym;
            self.syms.push(SymInfo { name: format!("def{}", s), size: vals.len() as u32, vals: Rc::new(vals.clone()), def: Some(key.clone()), pred: None });
            self.def_ix.insert(key, s);
            s
        };
        // values may differ although the partition is the same
        Ok(Rc::new(Tab { sup: vec![s], dims: vec![vals.len() as u32], data: vals }))
    }
    pub fn map1(&mut self, st: &Rc<Doms>, a: &Tab, f: impl Fn(u128) -> u128) -> Sc {
        self.n_tab_ops += 1;
        let data = a.data.iter().map(|v| f(*v)).collect();
        self.simp(st, a.sup.clone(), data)
    }
    /// lift an n-ary function over tables/constants; materialise when too wide
    pub fn mapn(&mut self, st: &Rc<Doms>, args: &[&Sc], f: &dyn Fn(&[u128]) -> u128) -> R<Sc> {
        self.n_tab_ops += 1;
        let mut ts: Vec<Sc> = args.iter().map(|x| (*x).clone()).collect();
        for x in &ts { if matches!(x, Sc::B(_) | Sc::L(_)) { return fail("mapn on non-table"); } }
        loop {
            let mut sup: Vec<Sym> = vec![];
            for x in &ts { if let Sc::T(t) = x { sup = union_sup(&sup, &t.sup); } }
            if (sup.len() <= KSUP || ts.iter().filter(|x| matches!(x, Sc::T(_))).count() <= 1) && self.prod(&sup) <= MAXTAB {
                let dims = self.dims(&sup);
                let poss: Vec<Option<(Vec<usize>, Rc<Tab>)>> = ts.iter().map(|x| match x {
                    Sc::T(t) => Some((positions(&sup, &t.sup), t.clone())),
                    _ => None,
                }).collect();
                let mut data = Vec::with_capacity(self.prod(&sup));
                let mut vals = vec![0u128; ts.len()];
                idx_iter(&dims, |_, ix| {
                    for (k, x) in ts.iter().enumerate() {
                        vals[k] = match (x, &poss[k]) {
                            (Sc::C(c), _) => *c,
                            (_, Some((p, t))) => t.data[sub_index(p, &t.dims, ix)],
                            _ => unreachable!(),
                        };
                    }
                    data.push(f(&vals));
                });
                return Ok(self.simp(st, sup, data));
            }
            // materialise the widest operand
            let mut w = None;
            for (k, x) in ts.iter().enumerate() {
                if let Sc::T(t) = x {
                    if t.sup.len() > 1 && w.map_or(true, |(_, n)| t.sup.len() > n) { w = Some((k, t.sup.len())); }
                }
            }
            match w {
                Some((k, _)) => {
                    let t = if let Sc::T(t) = &ts[k] { t.clone() } else { unreachable!() };
                    let m = self.materialise(st, &t)?;
                    let s = self.simp(st, m.sup.clone(), m.data.clone());
                    ts[k] = s;
                }
                None => {
                    // three or more single-symbol operands: split on the smallest
                    let t = ts.iter().filter_map(|x| if let Sc::T(t) = x { Some(t.clone()) } else { None }).min_by_key(|t| t.data.len()).unwrap();
                    return Err(Stop::Split(t));
                }
            }
        }
    }
    pub fn map2(&mut self, st: &Rc<Doms>, a: &Sc, b: &Sc, f: impl Fn(u128, u128) -> u128) -> R<Sc> {
        self.mapn(st, &[a, b], &|v| f(v[0], v[1]))
    }

    /// value selected by symbol x: a where x in m, b elsewhere
    pub fn mux(&mut self, st: &Rc<Doms>, x: Sym, m: u128, a: &Sc, b: &Sc, depth: u32) -> Option<Sc> {
        if a == b { return Some(a.clone()); }
        match (a, b) {
            (Sc::C(_) | Sc::T(_), Sc::C(_) | Sc::T(_)) => {
                let mut sup: Vec<Sym> = vec![];
                for y in [a, b] { if let Sc::T(t) = y { sup = union_sup(&sup, &t.sup); } }
                let sel_def = self.syms[x as usize].def.clone();
                // prefer substituting a defined selector by its definition
                if let Some(def) = &sel_def {
                    let u = union_sup(&sup, &def.sup);
                    if u.len() <= KSUP && self.prod(&u) <= MAXTAB {
                        return Some(self.mux_tab(st, &u, &|ix, s| { (m >> def.data[s(&def.sup, &def.dims, ix)]) & 1 == 1 }, a, b));
                    }
                }
                let u = union_sup(&sup, &[x]);
                if u.len() <= KSUP && self.prod(&u) <= MAXTAB {
                    let xs = vec![x];
                    let xd = vec![self.syms[x as usize].size];
                    return Some(self.mux_tab(st, &u, &|ix, s| { (m >> s(&xs, &xd, ix)) & 1 == 1 }, a, b));
                }
                if depth > 0 { return None; }
                // materialise operands
                let mut a2 = a.clone();
                let mut b2 = b.clone();
                for y in [&mut a2, &mut b2] {
                    if let Sc::T(t) = y {
                        if t.sup.len() > 1 {
                            let mm = match self.materialise(st, t) { Ok(mm) => mm, Err(_) => return None };
                            *y = Sc::T(mm);
                        }
                    }
                }
                self.mux(st, x, m, &a2, &b2, 1)
            }
            (Sc::B(_), _) | (_, Sc::B(_)) => {
                let p = self.to_segs(st, a, 64)?;
                let q = self.to_segs(st, b, 64)?;
                let mut p = self.coarsen(st, p);
                let mut q = self.coarsen(st, q);
                Self::align(&mut p, &mut q);
                let mut out = vec![];
                for (s, t) in p.iter().zip(&q) {
                    if s == t { out.push(s.clone()); continue; }
                    let f = |s: &Seg| match &s.k { SegK::C(c) => Some(Sc::C(*c as u128)), SegK::T(t) => Some(Sc::T(t.clone())), _ => None };
                    let r = self.mux(st, x, m, &f(s)?, &f(t)?, 0)?;
                    out.push(Seg { len: s.len, k: match r { Sc::C(c) => SegK::C(c as u64), Sc::T(t) => SegK::T(t), _ => return None } });
                }
                Some(self.norm_segs(st, out, 64))
            }
            _ => {
                None
            }
        }
    }
    /// mux for linear forms (type supplied by caller)
    pub fn mux_lin(&mut self, st: &Rc<Doms>, x: Sym, m: u128, a: &Lin, b: &Lin) -> Option<Lin> {
        // result = b + [x in m] * (a - b); possible when a - b is a table
        let d = self.lin_add(st, a, &self.lin_scale(b, -1, 1)).ok()?;
        if !d.unb.is_empty() { return None; }
        let mut sup: Vec<Sym> = vec![];
        for (s, _) in &d.tabs { sup = union_sup(&sup, s); }
        let sel = self.syms[x as usize].def.clone();
        let (xs, xd, xdata): (Vec<Sym>, Vec<u32>, Vec<bool>) = {
            let use_def = sel.as_ref().map_or(false, |def| union_sup(&sup, &def.sup).len() <= KSUP);
            if use_def {
                let def = sel.unwrap();
                (def.sup.clone(), def.dims.clone(), def.data.iter().map(|v| (m >> v) & 1 == 1).collect())
            } else {
                let n = self.syms[x as usize].size;
                (vec![x], vec![n], (0..n).map(|v| (m >> v) & 1 == 1).collect())
            }
        };
        let u = union_sup(&sup, &xs);
        if u.len() > KSUP || self.prod(&u) > MAXTAB { return None; }
        let dims = self.dims(&u);
        let px = positions(&u, &xs);
        let pt: Vec<_> = d.tabs.iter().map(|(s, t)| (positions(&u, s), self.dims(s), t.clone())).collect();
        let mut data = vec![];
        idx_iter(&dims, |_, ix| {
            if xdata[sub_index(&px, &xd, ix)] {
                let mut v = d.c;
                for (p, dm, t) in &pt { v += t[sub_index(p, dm, ix)]; }
                data.push(v);
            } else {
                data.push(0);
            }
        });
        let e = Lin { den: d.den, c: 0, tabs: vec![(u, Rc::new(data))], unb: vec![] };
        let r = self.lin_add(st, b, &e).ok()?;
        Some(r)
    }
    fn mux_tab(&mut self, st: &Rc<Doms>, u: &[Sym], sel: &dyn Fn(&[u32], &dyn Fn(&[Sym], &[u32], &[u32]) -> usize) -> bool, a: &Sc, b: &Sc) -> Sc {
        let dims = self.dims(u);
        let get = |y: &Sc| match y { Sc::T(t) => Some((positions(u, &t.sup), t.clone())), _ => None };
        let (pa, pb) = (get(a), get(b));
        let mut data = Vec::with_capacity(self.prod(u));
        let sf = |s: &[Sym], d: &[u32], ix: &[u32]| sub_index(&positions(u, s), d, ix);
        idx_iter(&dims, |_, ix| {
            let (y, p) = if sel(ix, &sf) { (a, &pa) } else { (b, &pb) };
            data.push(match (y, p) {
                (Sc::C(c), _) => *c,
                (_, Some((p, t))) => t.data[sub_index(p, &t.dims, ix)],
                _ => unreachable!(),
            });
        });
        self.simp(st, u.to_vec(), data)
    }

    // ---------- bit segments ----------
    pub fn to_segs(&mut self, st: &Rc<Doms>, a: &Sc, width: u32) -> Option<Vec<Seg>> {
        match a {
            Sc::C(c) => Some(vec![Seg { len: width as u8, k: SegK::C(*c as u64) }]),
            Sc::B(b) => {
                let tot: u32 = b.iter().map(|s| s.len as u32).sum();
                let mut v = b.to_vec();
                if tot < width { v.push(Seg { len: (width - tot) as u8, k: SegK::C(0) }); }
                if tot > width { v = Self::slice(&v, 0, width as u8); }
                Some(v)
            }
            Sc::T(t) => {
                let or = t.data.iter().enumerate().filter(|(i, _)| self.combos(st, &t.sup)[*i]).fold(0u128, |x, (_, v)| x | v);
                if or == 0 { return Some(vec![Seg { len: width as u8, k: SegK::C(0) }]); }
                let tz = or.trailing_zeros();
                let top = 128 - or.leading_zeros();
                let mut v = vec![];
                if tz > 0 { v.push(Seg { len: tz as u8, k: SegK::C(0) }); }
                let len = top - tz;
                if len > 64 { return None; }
                let mk = if len >= 64 { u64::MAX as u128 } else { (1u128 << len) - 1 };
                let data: Vec<u128> = t.data.iter().map(|x| (x >> tz) & mk).collect();
                v.push(Seg { len: len as u8, k: SegK::T(Rc::new(Tab { sup: t.sup.clone(), dims: t.dims.clone(), data })) });
                if top < width { v.push(Seg { len: (width - top) as u8, k: SegK::C(0) }); }
                Some(v)
            }
            Sc::L(l) => {
                if l.den == 1 && l.c == 0 && l.tabs.is_empty() && l.unb.len() == 1 && l.unb[0].1 == 1 {
                    let u = l.unb[0].0;
                    let info = &self.usyms[u as usize];
                    if info.is_int && info.lo.map_or(false, |x| x >= 0) {
                        let hi = info.hi?;
                        let top = 128 - (hi as u128).leading_zeros();
                        let n = top.min(width);
                        let mut v = vec![Seg { len: n as u8, k: SegK::Op(u, 0) }];
                        if n < width { v.push(Seg { len: (width - n) as u8, k: SegK::C(0) }); }
                        return Some(v);
                    }
                }
                None
            }
        }
    }
    pub fn slice(v: &[Seg], off: u8, len: u8) -> Vec<Seg> {
        let mut out = vec![];
        let mut p = 0u16;
        for s in v {
            let a = p.max(off as u16);
            let b = (p + s.len as u16).min(off as u16 + len as u16);
            if a < b {
                let o = (a - p) as u8;
                let n = (b - a) as u8;
                if o == 0 && n == s.len {
                    out.push(s.clone());
                } else {
                    let mk = if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
                    let k = match &s.k {
                        SegK::C(c) => SegK::C((c >> o) & mk),
                        SegK::T(t) => {
                            let data: Vec<u128> = t.data.iter().map(|x| (x >> o) & mk as u128).collect();
                            SegK::T(Rc::new(Tab { sup: t.sup.clone(), dims: t.dims.clone(), data }))
                        }
                        SegK::Op(u, f) => SegK::Op(*u, f + o),
                    };
                    out.push(Seg { len: n, k });
                }
            }
            p += s.len as u16;
        }
        out
    }
    /// recombine pieces of one index field into a single segment
    pub fn coarsen(&mut self, st: &Rc<Doms>, v: Vec<Seg>) -> Vec<Seg> {
        let tot: u16 = v.iter().map(|s| s.len as u16).sum();
        if tot != 64 || self.fields.is_empty() { return v; }
        let mut out = vec![];
        for (off, len) in self.fields.clone() {
            let part = Self::slice(&v, off, len);
            if part.len() == 1 || part.iter().any(|s| matches!(s.k, SegK::Op(..))) { out.extend(part); continue; }
            let mut sup: Vec<Sym> = vec![];
            for s in &part { if let SegK::T(t) = &s.k { sup = union_sup(&sup, &t.sup); } }
            if sup.len() <= KSUP && self.prod(&sup) <= MAXTAB {
                let k = match self.segs_to_tab(st, &part, &sup) { Sc::C(c) => SegK::C(c as u64), Sc::T(t) => SegK::T(t), _ => unreachable!() };
                out.push(Seg { len, k });
            } else {
                out.extend(part);
            }
        }
        out
    }
    fn cuts(v: &[Seg]) -> Vec<u16> {
        let mut c = vec![];
        let mut p = 0u16;
        for s in v { p += s.len as u16; c.push(p); }
        c
    }
    pub fn align(a: &mut Vec<Seg>, b: &mut Vec<Seg>) {
        let mut c = Self::cuts(a);
        c.extend(Self::cuts(b));
        c.sort();
        c.dedup();
        let f = |v: &Vec<Seg>| {
            let mut out = vec![];
            let mut p = 0u16;
            for q in &c {
                let s = Self::slice(v, p as u8, (*q - p) as u8);
                out.extend(s);
                p = *q;
            }
            out
        };
        let x = f(a);
        let y = f(b);
        *a = x;
        *b = y;
    }
    pub fn norm_segs(&mut self, st: &Rc<Doms>, v: Vec<Seg>, width: u32) -> Sc {
        let mut out: Vec<Seg> = vec![];
        // whole words are cut along the fields unless the upper part is empty (a field being shifted around)
        let v = if width == 64 && !matches!(v.last(), Some(Seg { len, k: SegK::C(0) }) if *len > 12) { self.coarsen(st, v) } else { v };
        for s in v {
            let k = match s.k {
                SegK::T(t) => match self.simp(st, t.sup.clone(), t.data.clone()) {
                    Sc::C(c) => SegK::C(c as u64),
                    Sc::T(t) => SegK::T(t),
                    _ => unreachable!(),
                },
                k => k,
            };
            let s = Seg { len: s.len, k };
            if let Some(l) = out.last_mut() {
                match (&l.k, &s.k) {
                    (SegK::C(a), SegK::C(b)) => {
                        let n = SegK::C(a | if l.len >= 64 { 0 } else { b << l.len });
                        l.k = n;
                        l.len += s.len;
                        continue;
                    }
                    (SegK::Op(u, o), SegK::Op(u2, o2)) if u == u2 && *o2 == *o + l.len => {
                        l.len += s.len;
                        continue;
                    }
                    // adjacent slices of the same table are glued back by recombination
                    (SegK::T(a), SegK::T(b)) if a.sup == b.sup && l.len + s.len <= 3 => {
                        let data: Vec<u128> = a.data.iter().zip(&b.data).map(|(x, y)| x | (y << l.len)).collect();
                        let t = Tab { sup: a.sup.clone(), dims: a.dims.clone(), data };
                        l.k = SegK::T(Rc::new(t));
                        l.len += s.len;
                        continue;
                    }
                    _ => {}
                }
            }
            out.push(s);
        }
        // all const
        if out.len() == 1 {
            match &out[0].k {
                SegK::C(c) => return Sc::C(*c as u128),
                SegK::Op(u, 0) => {
                    let hi = self.usyms[*u as usize].hi.unwrap_or(0);
                    let top = 128 - (hi as u128).leading_zeros();
                    if top <= out[0].len as u32 { return self.unb_sc(*u); }
                }
                _ => {}
            }
        }
        if out.len() == 2 {
            if let (SegK::Op(u, 0), SegK::C(0)) = (&out[0].k, &out[1].k) {
                let hi = self.usyms[*u as usize].hi.unwrap_or(0);
                let top = 128 - (hi as u128).leading_zeros();
                if top <= out[0].len as u32 { return self.unb_sc(*u); }
            }
            if let (SegK::Op(u, o), SegK::C(0)) = (&out[0].k, &out[1].k) {
                if out[0].len <= 7 {
                    return self.bits_sym(*u, *o, out[0].len);
                }
                return self.bits_usym(*u, *o, out[0].len);
            }
        }
        // single low table, everything else zero
        let nt = out.iter().filter(|s| !matches!(s.k, SegK::C(_))).count();
        if nt == 1 {
            if let SegK::T(t) = &out[0].k {
                if out[0].len <= 16 && out[1..].iter().all(|s| matches!(s.k, SegK::C(0))) {
                    return Sc::T(t.clone());
                }
            }
        }
        if width <= 32 && out.iter().all(|s| !matches!(s.k, SegK::Op(..))) {
            let mut sup: Vec<Sym> = vec![];
            for s in &out { if let SegK::T(t) = &s.k { sup = union_sup(&sup, &t.sup); } }
            if sup.len() <= KSUP && self.prod(&sup) <= MAXTAB {
                return self.segs_to_tab(st, &out, &sup);
            }
        }
        Sc::B(Rc::new(out))
    }
    pub fn segs_to_tab(&mut self, st: &Rc<Doms>, v: &[Seg], sup: &[Sym]) -> Sc {
        let dims = self.dims(sup);
        let mut data = vec![];
        let ps: Vec<_> = v.iter().map(|s| if let SegK::T(t) = &s.k { Some(positions(sup, &t.sup)) } else { None }).collect();
        idx_iter(&dims, |_, ix| {
            let mut r = 0u128;
            let mut off = 0u32;
            for (s, p) in v.iter().zip(&ps) {
                let x = match &s.k {
                    SegK::C(c) => *c as u128,
                    SegK::T(t) => t.data[sub_index(p.as_ref().unwrap(), &t.dims, ix)],
                    _ => unreachable!(),
                };
                r |= x << off;
                off += s.len as u32;
            }
            data.push(r);
        });
        self.simp(st, sup.to_vec(), data)
    }
    /// a finite symbol for a short bit range of an opaque integer
    pub fn bits_sym(&mut self, u: USym, off: u8, len: u8) -> Sc {
        let p = Pred::Op(format!("bits{}+{}", off, len), vec![self.unb_sc(u)]);
        let s = if let Some(s) = self.pred_ix.get(&p) { *s } else {
            let s = self.new_sym(&format!("bits({},{},{})", u, off, len), 1u32 << len);
            self.pred_ix.insert(p, s);
            s
        };
        self.sym_sc(s)
    }
    fn bits_usym(&mut self, u: USym, off: u8, len: u8) -> Sc {
        let b = self.new_usym(Term::Bits(u, off, len), Some(0), Some((1i128 << len) - 1), true);
        self.unb_sc(b)
    }

    // ---------- linear forms ----------
    pub fn lin_const(c: i128) -> Lin { Lin { den: 1, c, tabs: vec![], unb: vec![] } }
    /// product of two linear forms over integer symbols
    pub fn lin_mul(&mut self, a: &Lin, b: &Lin) -> Option<Lin> {
        if a.den != 1 || b.den != 1 || !a.tabs.is_empty() || !b.tabs.is_empty() || a.unb.len() * b.unb.len() > 16 { return None; }
        if a.unb.iter().chain(&b.unb).any(|(u, _)| !self.usyms[*u as usize].is_int) { return None; }
        let mut unb: std::collections::BTreeMap<USym, i128> = Default::default();
        for (u, k) in &a.unb { *unb.entry(*u).or_insert(0) += k.checked_mul(b.c)?; }
        for (u, k) in &b.unb { *unb.entry(*u).or_insert(0) += k.checked_mul(a.c)?; }
        for (u, k) in &a.unb {
            for (v, m) in &b.unb {
                let t = Term::Prod(*u.min(v), *u.max(v));
                let w = self.new_usym(t, None, None, true);
                *unb.entry(w).or_insert(0) += k.checked_mul(*m)?;
            }
        }
        Some(Lin { den: 1, c: a.c.checked_mul(b.c)?, tabs: vec![], unb: unb.into_iter().filter(|x| x.1 != 0).collect() })
    }
    pub fn lin_norm(&self, st: &Rc<Doms>, mut l: Lin) -> Lin {
        // joint tables keep only what single tables cannot express
        if self.poly && l.tabs.iter().any(|x| x.0.len() == 2) {
            let mut single: Vec<(Vec<Sym>, Vec<i128>)> = vec![];
            let mut add = |s: Sym, t: Vec<i128>| match single.iter_mut().find(|x| x.0[0] == s) {
                Some(x) => { for (p, q) in x.1.iter_mut().zip(&t) { *p += q; } }
                None => single.push((vec![s], t)),
            };
            let mut rest = vec![];
            for (s, t) in std::mem::take(&mut l.tabs) {
                match s.len() {
                    1 => add(s[0], t.to_vec()),
                    2 => {
                        let d = self.dims(&s);
                        let (n, m) = (d[0] as usize, d[1] as usize);
                        add(s[0], (0..n).map(|x| t[x * m]).collect());
                        add(s[1], (0..m).map(|y| t[y] - t[0]).collect());
                        let j: Vec<i128> = (0..n * m).map(|k| t[k] - t[k / m * m] - t[k % m] + t[0]).collect();
                        if j.iter().any(|v| *v != 0) { rest.push((s, Rc::new(j))); }
                    }
                    _ => rest.push((s, t)),
                }
            }
            rest.extend(single.into_iter().filter(|x| x.1.iter().any(|v| *v != 0)).map(|(s, t)| (s, Rc::new(t))));
            l.tabs = rest;
        }
        let mut tabs: Vec<(Vec<Sym>, Rc<Vec<i128>>)> = vec![];
        for (s, t) in l.tabs {
            let ok = self.combos(st, &s);
            let mut first = None;
            let mut constant = true;
            for (i, o) in ok.iter().enumerate() {
                if *o { match first { None => first = Some(t[i]), Some(v) => if v != t[i] { constant = false; } } }
            }
            if constant { l.c += first.unwrap_or(0); continue; }
            let t0 = t[0];
            if t0 != 0 {
                l.c += t0;
                tabs.push((s, Rc::new(t.iter().map(|v| v - t0).collect())));
            } else {
                tabs.push((s, t));
            }
        }
        tabs.sort_by(|a, b| a.0.cmp(&b.0));
        // normal forms of coordinates that agree in this state
        if self.poly && l.unb.len() > 1 {
            for x in 1..l.unb.len() { for y in 0..x {
                if l.unb[x].1 == 0 || l.unb[y].1 == 0 { continue; }
                if let (Term::Norm(a, b), Term::Norm(c, d)) = (&self.usyms[l.unb[x].0 as usize].term, &self.usyms[l.unb[y].0 as usize].term) {
                    let same = |p: &Lin, q: &Lin| self.lin_add(st, p, &self.lin_scale(q, -1, 1)).map_or(false, |z| z.is_zero());
                    if same(a, c) && same(b, d) { l.unb[y].1 += l.unb[x].1; l.unb[x].1 = 0; }
                }
            } }
        }
        l.unb.retain(|x| x.1 != 0);
        let mut g = gcd(l.den, l.c);
        if g != 1 {
            for (_, t) in &tabs { for v in t.iter() { g = gcd(g, *v); if g == 1 { break; } } }
            for (_, c) in &l.unb { g = gcd(g, *c); }
        }
        if g > 1 {
            l.den /= g;
            l.c /= g;
            for (_, t) in tabs.iter_mut() { *t = Rc::new(t.iter().map(|v| v / g).collect()); }
            for (_, c) in l.unb.iter_mut() { *c /= g; }
        }
        l.tabs = tabs;
        l
    }
    pub fn lin_scale(&self, a: &Lin, num: i128, den: i128) -> Lin {
        let (num, den) = if den < 0 { (-num, -den) } else { (num, den) };
        let mut l = Lin {
            den: a.den * den,
            c: a.c * num,
            tabs: a.tabs.iter().map(|(s, t)| (s.clone(), Rc::new(t.iter().map(|v| v * num).collect::<Vec<_>>()))).collect(),
            unb: a.unb.iter().map(|(u, c)| (*u, c * num)).collect(),
        };
        if num == 0 { l = Lin::zero(); }
        // reduce
        let mut g = gcd(l.den, l.c);
        if g != 1 {
            for (_, t) in &l.tabs { for v in t.iter() { g = gcd(g, *v); } }
            for (_, c) in &l.unb { g = gcd(g, *c); }
        }
        if g > 1 {
            l.den /= g;
            l.c /= g;
            for (_, t) in l.tabs.iter_mut() { *t = Rc::new(t.iter().map(|v| v / g).collect()); }
            for (_, c) in l.unb.iter_mut() { *c /= g; }
        }
        if l.den > 1 << 50 { if let Some(x) = self.plain_coefs(&l) { return x; } }
        l
    }
    /// coefficients within rounding of a small fraction are that fraction
    fn plain_coefs(&self, l: &Lin) -> Option<Lin> {
        if !self.real_floats() || !l.tabs.is_empty() && l.tabs.iter().any(|t| t.1.len() > 64) { return None; }
        let q = |v: i128| { if v == 0 { return Some((0, 1)); } let r = nominal(v as f64 / l.den as f64)?; if r.1 > 1_000_000 { None } else { Some(r) } };
        let c = q(l.c)?;
        let tabs: Vec<(Vec<Sym>, Vec<(i128, i128)>)> = l.tabs.iter().map(|(s, t)| Some((s.clone(), t.iter().map(|v| q(*v)).collect::<Option<Vec<_>>>()?))).collect::<Option<_>>()?;
        let unb: Vec<(USym, (i128, i128))> = l.unb.iter().map(|(u, v)| Some((*u, q(*v)?))).collect::<Option<_>>()?;
        let mut den = c.1;
        for x in tabs.iter().flat_map(|t| t.1.iter()).chain(unb.iter().map(|x| &x.1)) { den = den / gcd(den, x.1) * x.1; if den > 1 << 50 { return None; } }
        Some(Lin { den, c: c.0 * (den / c.1), tabs: tabs.into_iter().map(|(s, t)| (s, Rc::new(t.iter().map(|x| x.0 * (den / x.1)).collect()))).collect(), unb: unb.into_iter().map(|(u, x)| (u, x.0 * (den / x.1))).collect() })
    }
    pub fn lin_add(&self, st: &Rc<Doms>, a: &Lin, b: &Lin) -> R<Lin> {
        let g = gcd(a.den, b.den);
        let den = a.den / g * b.den;
        if den.abs() > if self.real_floats() { 1 << 76 } else { 1 << 40 } { return fail("denominator too large"); }
        let (fa, fb) = (den / a.den, den / b.den);
        let mut tabs: Vec<(Vec<Sym>, Rc<Vec<i128>>)> = a.tabs.iter().map(|(s, t)| (s.clone(), if fa == 1 { t.clone() } else { Rc::new(t.iter().map(|v| v * fa).collect()) })).collect();
        for (s, t) in &b.tabs {
            if let Some(x) = tabs.iter_mut().find(|x| x.0 == *s) {
                let n: Vec<i128> = x.1.iter().zip(t.iter()).map(|(p, q)| p + q * fb).collect();
                x.1 = Rc::new(n);
            } else {
                tabs.push((s.clone(), if fb == 1 { t.clone() } else { Rc::new(t.iter().map(|v| v * fb).collect()) }));
            }
        }
        let mut unb: Vec<(USym, i128)> = a.unb.iter().map(|(u, c)| (*u, c * fa)).collect();
        for (u, c) in &b.unb {
            if let Some(x) = unb.iter_mut().find(|x| x.0 == *u) { x.1 += c * fb; } else { unb.push((*u, c * fb)); }
        }
        unb.sort();
        let l = Lin { den, c: a.c * fa + b.c * fb, tabs, unb };
        Ok(self.lin_norm(st, l))
    }
    pub fn tab_to_lin(&self, st: &Rc<Doms>, t: &Tab, ty: ITy) -> Lin {
        let l = Lin { den: 1, c: 0, tabs: vec![(t.sup.clone(), Rc::new(t.data.iter().map(|v| ty.to_i(*v)).collect()))], unb: vec![] };
        self.lin_norm(st, l)
    }
    /// value of a float constant as a rational; in real arithmetic constants have their nominal value
    pub fn rat(&self, bits: u64) -> Option<(i128, i128)> {
        if let Some(r) = f64_rat(bits) { return Some(r); }
        if !self.real_floats() { return None; }
        nominal(f64::from_bits(bits))
    }
    pub fn to_lin(&mut self, st: &Rc<Doms>, a: &Sc, ty: ITy) -> R<Lin> {
        match a {
            Sc::C(c) => {
                if ty.float {
                    return match self.rat(*c as u64) { Some((n, d)) => Ok(Lin { den: d, c: n, tabs: vec![], unb: vec![] }), None => fail("irrational const") };
                }
                Ok(Self::lin_const(ty.to_i(*c)))
            }
            Sc::T(t) => {
                if ty.float { return fail("float table"); }
                Ok(self.tab_to_lin(st, t, ty))
            }
            Sc::L(l) => Ok(l.as_ref().clone()),
            Sc::B(b) => {
                if ty.signed { // need a known sign bit
                    let tot: u32 = b.iter().map(|s| s.len as u32).sum();
                    if tot >= ty.bits {
                        match &b.last().unwrap().k { SegK::C(c) if (c >> (b.last().unwrap().len - 1)) & 1 == 0 => {}, _ => return fail("sign unknown") }
                    }
                }
                let mut l = Self::lin_const(0);
                let mut off = 0u32;
                for s in b.iter() {
                    match &s.k {
                        SegK::C(c) => l.c += (*c as i128) << off,
                        SegK::T(t) => {
                            let x = Lin { den: 1, c: 0, tabs: vec![(t.sup.clone(), Rc::new(t.data.iter().map(|v| (*v as i128) << off).collect()))], unb: vec![] };
                            let x = self.lin_norm(st, x);
                            l = self.lin_add(st, &l, &x)?;
                        }
                        SegK::Op(u, o) => {
                            let bsc = if s.len <= 7 { self.bits_sym(*u, *o, s.len) } else { self.bits_usym(*u, *o, s.len) };
                            let x = match &bsc { Sc::T(t) => self.tab_to_lin(st, t, ITy::U64), Sc::L(l) => l.as_ref().clone(), _ => unreachable!() };
                            let x = self.lin_scale(&x, 1i128 << off, 1);
                            l = self.lin_add(st, &l, &x)?;
                        }
                    }
                    off += s.len as u32;
                }
                Ok(l)
            }
        }
    }
    pub fn from_lin(&mut self, st: &Rc<Doms>, l: Lin, ty: ITy) -> Sc {
        let l = self.lin_norm(st, l);
        if ty.float {
            return self.lin_float(l);
        }
        if l.den == 1 && l.unb.is_empty() {
            let mut sup: Vec<Sym> = vec![];
            for (s, _) in &l.tabs { sup = union_sup(&sup, s); }
            if sup.is_empty() { return Sc::C(ty.wrap(l.c)); }
            if sup.len() <= KSUP && self.prod(&sup) <= MAXTAB {
                let d = self.lin_table(&l, &sup);
                return self.simp(st, sup, d.into_iter().map(|v| ty.wrap(v)).collect());
            }
        }
        Sc::L(Rc::new(l))
    }
    fn lin_float(&mut self, l: Lin) -> Sc {
        if l.tabs.is_empty() && l.unb.is_empty() {
            let v = l.c as f64 / l.den as f64;
            if self.rat(v.to_bits()) == Some((l.c, l.den)) { return Sc::C(v.to_bits() as u128); }
        }
        Sc::L(Rc::new(l))
    }
    /// numerators of a symbol-only linear form over all combinations
    pub fn lin_table(&self, l: &Lin, sup: &[Sym]) -> Vec<i128> {
        let dims = self.dims(sup);
        let pt: Vec<_> = l.tabs.iter().map(|(s, t)| (positions(sup, s), self.dims(s), t.clone())).collect();
        let mut data = vec![];
        idx_iter(&dims, |_, ix| {
            let mut v = l.c;
            for (p, dm, t) in &pt { v += t[sub_index(p, dm, ix)]; }
            data.push(v);
        });
        data
    }
    fn urange(&self, st: &Rc<Doms>, u: USym, depth: u32, skip: Option<Sym>) -> (Option<i128>, Option<i128>) {
        let i = &self.usyms[u as usize];
        let (mut lo, mut hi) = (i.lo, i.hi);
        // single-symbol facts recorded in the state
        for (s, m) in &st.d {
            if Some(*s) == skip { continue; }
            if let Some(p) = &self.syms[*s as usize].pred {
                if m.count_ones() != 1 { continue; }
                let truth = *m == 2;
                for f in self.facts(p, truth) {
                    if f.unb.len() == 1 && f.unb[0].0 == u && f.unb[0].1.abs() >= 1 {
                        // c + tabs + k*u >= 0
                        let mut tmax = f.c;
                        for (s, t) in &f.tabs {
                            let ok = self.combos(st, s);
                            tmax += t.iter().zip(ok.iter()).filter(|x| *x.1).map(|x| *x.0).max().unwrap_or(0);
                        }
                        let k = f.unb[0].1;
                        if !i.is_int {
                            if k > 0 { let b = (-tmax).div_euclid(k); lo = Some(lo.map_or(b, |x| x.max(b))); }
                            else { let b = tmax.div_euclid(-k) + (tmax.rem_euclid(-k) != 0) as i128; hi = Some(hi.map_or(b, |x| x.min(b))); }
                        } else if k > 0 {
                            // u >= -tmax/k  (ceil)
                            let b = (-tmax).div_euclid(k) + if (-tmax).rem_euclid(k) != 0 { 1 } else { 0 };
                            lo = Some(lo.map_or(b, |x| x.max(b)));
                        } else {
                            let b = tmax.div_euclid(-k);
                            hi = Some(hi.map_or(b, |x| x.min(b)));
                        }
                    }
                }
            }
        }
        if let Term::Prod(a, b) = &i.term {
            if depth < 6 {
                if let ((Some(p), Some(q)), (Some(x), Some(y))) = (self.urange(st, *a, depth + 1, skip), self.urange(st, *b, depth + 1, skip)) {
                    let c: Vec<Option<i128>> = vec![p.checked_mul(x), p.checked_mul(y), q.checked_mul(x), q.checked_mul(y)];
                    if let Some(c) = c.into_iter().collect::<Option<Vec<_>>>() {
                        let (mn, mx) = (*c.iter().min().unwrap(), *c.iter().max().unwrap());
                        let mn = if a == b { mn.max(0) } else { mn };
                        lo = Some(lo.map_or(mn, |x| x.max(mn)));
                        hi = Some(hi.map_or(mx, |x| x.min(mx)));
                    }
                }
            }
        }
        // lattice normalisation offset: max(0,-u,-v)
        if let Term::Norm(a, b) = &i.term {
            if depth < 6 {
                let (al, ah) = self.interval_d(st, a, depth + 1, skip);
                let (bl, bh) = self.interval_d(st, b, depth + 1, skip);
                // lo = max(0, -ah, -bh)
                let mut l = 0;
                if let Some(x) = ah { l = l.max(-x); }
                if let Some(x) = bh { l = l.max(-x); }
                lo = Some(lo.map_or(l, |x| x.max(l)));
                if let (Some(x), Some(y)) = (al, bl) {
                    let h = 0.max(-x).max(-y);
                    hi = Some(hi.map_or(h, |z| z.min(h)));
                }
            }
        }
        (lo, hi)
    }
    /// linear facts (form >= 0) implied by a predicate's truth value
    pub fn facts(&self, p: &Pred, truth: bool) -> Vec<Lin> {
        let neg = |l: &Lin, add: i128| Lin { den: l.den, c: -l.c + add, tabs: l.tabs.iter().map(|(s, t)| (s.clone(), Rc::new(t.iter().map(|v| -v).collect()))).collect(), unb: l.unb.iter().map(|(u, c)| (*u, -c)).collect() };
        match (p, truth) {
            (Pred::Ge(l), true) => vec![l.as_ref().clone()],
            // integer form over den 1: not >= 0 means <= -1
            (Pred::Ge(l), false) => vec![neg(l, if l.den == 1 && l.unb.iter().all(|(u, _)| self.usyms[*u as usize].is_int) { -1 } else { 0 })],
            (Pred::Gt(l), true) => vec![l.as_ref().clone()],
            (Pred::Gt(l), false) => vec![neg(l, 0)],
            (Pred::Eq(l), true) => vec![l.as_ref().clone(), neg(l, 0)],
            _ => vec![],
        }
    }
    pub fn interval(&self, st: &Rc<Doms>, l: &Lin) -> (Option<i128>, Option<i128>) {
        self.interval_d(st, l, 0, None)
    }
    /// interval of the numerator
    pub fn interval_d(&self, st: &Rc<Doms>, l: &Lin, depth: u32, skip: Option<Sym>) -> (Option<i128>, Option<i128>) {
        let mut lo = Some(l.c);
        let mut hi = Some(l.c);
        for (s, t) in &l.tabs {
            let ok = self.combos(st, s);
            let mut mn = i128::MAX;
            let mut mx = i128::MIN;
            for (i, o) in ok.iter().enumerate() { if *o { mn = mn.min(t[i]); mx = mx.max(t[i]); } }
            if mn > mx { return (Some(0), Some(0)); }
            lo = lo.map(|x| x + mn);
            hi = hi.map(|x| x + mx);
        }
        for (u, k) in &l.unb {
            let (a, b) = self.urange(st, *u, depth, skip);
            let (a, b) = if *k > 0 { (a, b) } else { (b, a) };
            lo = match (lo, a) { (Some(x), Some(y)) => Some(x + y.saturating_mul(*k)), _ => None };
            hi = match (hi, b) { (Some(x), Some(y)) => Some(x + y.saturating_mul(*k)), _ => None };
        }
        (lo, hi)
    }
    pub fn decide_pred(&self, st: &Rc<Doms>, p: &Pred, skip: Option<Sym>) -> Option<bool> {
        match p {
            Pred::Ge(l) => self.sign_ge(st, l, 0, skip),
            Pred::Gt(l) => self.sign_ge(st, l, 1, skip),
            Pred::Eq(l) => {
                if let Some(b) = self.eq_bits(st, l, skip) { return Some(b); }
                let (lo, hi) = self.interval_d(st, l, 0, skip);
                if lo == Some(0) && hi == Some(0) { return Some(true); }
                if lo.map_or(false, |x| x > 0) || hi.map_or(false, |x| x < 0) { return Some(false); }
                // use facts
                if self.sign_ge(st, l, 1, skip) == Some(true) { return Some(false); }
                if self.sign_ge(st, l, 0, skip) == Some(false) { return Some(false); }
                if self.poly && l.unb.len() + l.tabs.len() > 0 {
                    let n = self.lin_scale(l, -1, 1);
                    if self.sign_ge(st, l, 0, skip) == Some(true) && self.sign_ge(st, &n, 0, skip) == Some(true) { return Some(true); }
                }
                // congruence: gcd of coefficients
                let mut g = 0;
                for (_, t) in &l.tabs { for v in t.iter() { g = gcd(g, *v); } }
                for (_, c) in &l.unb { g = gcd(g, *c); }
                if g > 1 && l.c % g != 0 && l.unb.iter().all(|(u, _)| self.usyms[*u as usize].is_int) { return Some(false); }
                None
            }
            Pred::Op(..) => None,
        }
    }
    /// equal words have equal bits, and words with different bits differ
    fn eq_bits(&self, st: &Rc<Doms>, l: &Lin, skip: Option<Sym>) -> Option<bool> {
        if l.unb.len() != 2 || !l.tabs.is_empty() || l.c != 0 || l.unb[0].1 != -l.unb[1].1 { return None; }
        let (a, b) = (l.unb[0].0, l.unb[1].0);
        let bits = |u: USym| match &self.usyms[u as usize].term { Term::Bits(w, o, n) => Some((*w, *o, *n)), _ => None };
        let same = |x: USym, y: USym, p: USym, q: USym| (x == p && y == q) || (x == q && y == p);
        for (s, m) in &st.d {
            if Some(*s) == skip || m.count_ones() != 1 { continue; }
            if let Some(Pred::Eq(f)) = &self.syms[*s as usize].pred {
                if f.unb.len() != 2 || !f.tabs.is_empty() || f.c != 0 || f.unb[0].1 != -f.unb[1].1 { continue; }
                let (p, q) = (f.unb[0].0, f.unb[1].0);
                if *m == 2 { if let (Some(x), Some(y)) = (bits(a), bits(b)) { if x.1 == y.1 && x.2 == y.2 && same(x.0, y.0, p, q) { return Some(true); } } }
                if *m == 1 { if let (Some(x), Some(y)) = (bits(p), bits(q)) { if x.1 == y.1 && x.2 == y.2 && same(x.0, y.0, a, b) { return Some(false); } } }
            }
        }
        None
    }
    /// decide numerator >= k
    fn sign_ge(&self, st: &Rc<Doms>, l: &Lin, k: i128, skip: Option<Sym>) -> Option<bool> {
        let (lo, hi) = self.interval_d(st, l, 0, skip);
        if lo.map_or(false, |x| x >= k) { return Some(true); }
        if hi.map_or(false, |x| x < k) { return Some(false); }
        if l.unb.is_empty() && l.tabs.len() <= 1 { return None; }
        // combine with one recorded fact
        for (s, m) in &st.d {
            if Some(*s) == skip { continue; }
            if let Some(p) = &self.syms[*s as usize].pred {
                if m.count_ones() != 1 { continue; }
                for f in self.facts(p, *m == 2) {
                    if f.unb.len() <= l.unb.len() && f.unb.iter().any(|(u, _)| l.unb.iter().any(|(w, _)| w == u)) {
                        if l.den != 1 || f.den != 1 { continue; }
                        // l = f + rest, f >= 0  =>  l >= rest
                        if let Ok(rest) = self.lin_add(st, l, &self.lin_scale(&f, -1, 1)) {
                            let (lo, _) = self.interval_d(st, &rest, 0, skip);
                            if lo.map_or(false, |x| x >= k) { return Some(true); }
                        }
                        // l = -f + rest => l <= rest
                        if let Ok(rest) = self.lin_add(st, l, &f) {
                            let (_, hi) = self.interval_d(st, &rest, 0, skip);
                            if hi.map_or(false, |x| x < k) { return Some(false); }
                        }
                    }
                }
            }
        }
        if self.poly && (k == 0 || k == 1) && l.unb.len() + l.tabs.len() > 0 { return self.sign_poly(st, l, k, skip); }
        None
    }
    pub fn pred_sc(&mut self, st: &Rc<Doms>, p: Pred) -> Sc {
        if let Some(b) = self.decide_pred(st, &p, None) { return Sc::C(b as u128); }
        let s = if let Some(s) = self.pred_ix.get(&p) { *s } else {
            let s = self.new_sym(&format!("pred{}", self.syms.len()), 2);
            self.syms[s as usize].pred = Some(p.clone());
            self.pred_ix.insert(p, s);
            s
        };
        let t = self.sym_tab(s);
        self.simp(st, t.sup, t.data)
    }
    /// boolean scalar: l >= 0 (ints) ; strict: l > 0
    pub fn lin_ge(&mut self, st: &Rc<Doms>, l: Lin, strict: bool) -> Sc {
        let l = self.lin_norm(st, l);
        if l.unb.is_empty() {
            let mut sup: Vec<Sym> = vec![];
            for (s, _) in &l.tabs { sup = union_sup(&sup, s); }
            if sup.is_empty() { return Sc::C((if strict { l.c > 0 } else { l.c >= 0 }) as u128); }
            if sup.len() <= KSUP && self.prod(&sup) <= MAXTAB {
                let d = self.lin_table(&l, &sup);
                return self.simp(st, sup, d.into_iter().map(|v| (if strict { v > 0 } else { v >= 0 }) as u128).collect());
            }
        }
        let is_int = l.den == 1 && l.unb.iter().all(|(u, _)| self.usyms[*u as usize].is_int);
        if strict {
            if is_int {
                let mut l = l;
                l.c -= 1;
                return self.pred_sc(st, Pred::Ge(Rc::new(l)));
            }
            return self.pred_sc(st, Pred::Gt(Rc::new(l)));
        }
        self.pred_sc(st, Pred::Ge(Rc::new(l)))
    }
    pub fn lin_eq(&mut self, st: &Rc<Doms>, l: Lin) -> Sc {
        let mut l = self.lin_norm(st, l);
        if l.unb.is_empty() {
            let mut sup: Vec<Sym> = vec![];
            for (s, _) in &l.tabs { sup = union_sup(&sup, s); }
            if sup.is_empty() { return Sc::C((l.c == 0) as u128); }
            if sup.len() <= KSUP && self.prod(&sup) <= MAXTAB {
                let d = self.lin_table(&l, &sup);
                return self.simp(st, sup, d.into_iter().map(|v| (v == 0) as u128).collect());
            }
        }
        l.den = 1;
        // canonical sign
        let lead = l.unb.first().map(|x| x.1).or_else(|| l.tabs.first().and_then(|t| t.1.iter().find(|v| **v != 0).cloned())).unwrap_or(1);
        if lead < 0 { l = self.lin_scale(&l, -1, 1); }
        self.pred_sc(st, Pred::Eq(Rc::new(l)))
    }

    pub fn show(&self, s: &Sc) -> String {
        match s {
            Sc::C(c) => format!("{}", *c as i128),
            Sc::T(t) => format!("T{:?}", t.sup.iter().map(|s| self.syms[*s as usize].name.clone()).collect::<Vec<_>>()),
            Sc::B(b) => {
                let mut v = vec![];
                for s in b.iter().rev() {
                    v.push(match &s.k {
                        SegK::C(c) => format!("{:0w$b}", c, w = s.len as usize),
                        SegK::T(t) => format!("<{}>", t.sup.iter().map(|s| self.syms[*s as usize].name.clone()).collect::<Vec<_>>().join(",")),
                        SegK::Op(u, o) => format!("{{u{}[{}..{}]}}", u, o, o + s.len),
                    });
                }
                format!("B[{}]", v.join(" "))
            }
            Sc::L(l) => {
                let mut v = vec![];
                if l.c != 0 || (l.tabs.is_empty() && l.unb.is_empty()) { v.push(format!("{}", l.c)); }
                for (s, t) in &l.tabs { v.push(format!("t({}){:?}", s.iter().map(|s| self.syms[*s as usize].name.clone()).collect::<Vec<_>>().join(","), if t.len() <= 8 { t.to_vec() } else { vec![] })); }
                for (u, c) in &l.unb { v.push(format!("{}*{}", c, self.show_u(*u))); }
                if l.den != 1 { format!("({})/{}", v.join("+"), l.den) } else { v.join("+") }
            }
        }
    }
    pub fn show_u(&self, u: USym) -> String {
        match &self.usyms[u as usize].term {
            Term::Fresh(n) => n.clone(),
            Term::Bits(u, o, l) => format!("bits({},{},{})", self.show_u(*u), o, l),
            Term::App(n, a) => format!("{}({})", n, a.iter().map(|x| self.show(x)).collect::<Vec<_>>().join(",")),
            Term::Prod(a, b) => format!("{}*{}", self.show_u(*a), self.show_u(*b)),
            Term::Norm(a, b) => format!("norm({},{})", self.show(&Sc::L(a.clone())), self.show(&Sc::L(b.clone()))),
        }
    }
}

impl Lin {
    pub fn is_zero(&self) -> bool { self.c == 0 && self.tabs.is_empty() && self.unb.is_empty() }
    pub fn zero() -> Lin { Lin { den: 1, c: 0, tabs: vec![], unb: vec![] } }
    pub fn is_const(&self) -> bool { self.tabs.is_empty() && self.unb.is_empty() }
}

/// the fraction a double stands for: a small one it is the nearest double of, or its exact value
pub fn nominal(v: f64) -> Option<(i128, i128)> {
    if !v.is_finite() || v.abs() > 1e9 { return None; }
    let (mut h, mut k, mut x) = ((1i128, 0i128), (0i128, 1i128), v);
    for _ in 0..20 {
        let a = x.floor();
        if a.abs() > 1e9 { break; }
        let a = a as i128;
        h = (a * h.0 + h.1, h.0);
        k = (a * k.0 + k.1, k.0);
        if k.0 > 1_000_000 { break; }
        if (h.0 as f64 / k.0 as f64 - v).abs() <= v.abs() * 2e-16 { return Some((h.0, k.0)); }
        if x == x.floor() { break; }
        x = 1.0 / (x - x.floor());
    }
    let (mut n, mut d) = (v, 1i128);
    while n != n.trunc() { n *= 2.0; d *= 2; if d > 1 << 56 { return None; } }
    Some((n as i128, d))
}

/// exact rational value of a double with a modest denominator
pub fn f64_rat(bits: u64) -> Option<(i128, i128)> {
    let v = f64::from_bits(bits);
    if !v.is_finite() || v.abs() > 1e15 { return None; }
    let mut d = 1i128;
    let mut x = v;
    for _ in 0..20 {
        if x == x.trunc() { return Some((x as i128, d)); }
        x *= 2.0;
        d *= 2;
    }
    None
}
