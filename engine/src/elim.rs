// Exact joint emptiness of a finite state by variable elimination over the
// definitions of its symbols (the closure operation of the table domain).
use crate::dom::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

const CAP: usize = 4_000_000;

/// a relation over local variables: sorted rows, 7 bits per column
struct Rel {
    sup: Vec<u16>,
    set: Vec<u64>,
    rows: Vec<u128>,
}
#[derive(Default, Clone)]
struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { for x in b { self.write_u64(*x as u64); } }
    fn write_u64(&mut self, v: u64) { self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95); }
    fn write_u128(&mut self, v: u128) { self.write_u64(v as u64); self.write_u64((v >> 64) as u64); }
}
type FxMap<K, T> = std::collections::HashMap<K, T, std::hash::BuildHasherDefault<Fx>>;
fn pick(row: u128, cols: &[usize]) -> u128 {
    let mut k = 0u128;
    for (i, c) in cols.iter().enumerate() { k |= ((row >> (7 * c)) & 127) << (7 * i); }
    k
}
fn project(r: Rel, drop: u16, nw: usize) -> Rel {
    let cols: Vec<usize> = (0..r.sup.len()).filter(|i| r.sup[*i] != drop).collect();
    let mut rows: Vec<u128> = r.rows.iter().map(|x| pick(*x, &cols)).collect();
    rows.sort_unstable();
    rows.dedup();
    let sup: Vec<u16> = cols.iter().map(|i| r.sup[*i]).collect();
    let mut st = vec![0u64; nw];
    for x in &sup { set(&mut st, *x); }
    Rel { sup, set: st, rows }
}
fn join(a: &Rel, b: &Rel, nw: usize) -> Option<Rel> {
    let (a, b) = if a.rows.len() < b.rows.len() { (b, a) } else { (a, b) };
    let shared: Vec<u16> = a.sup.iter().cloned().filter(|x| b.sup.contains(x)).collect();
    let ca: Vec<usize> = shared.iter().map(|x| a.sup.iter().position(|y| y == x).unwrap()).collect();
    let cb: Vec<usize> = shared.iter().map(|x| b.sup.iter().position(|y| y == x).unwrap()).collect();
    let xb: Vec<usize> = (0..b.sup.len()).filter(|i| !shared.contains(&b.sup[*i])).collect();
    let mut sup = a.sup.clone();
    sup.extend(xb.iter().map(|i| b.sup[*i]));
    if sup.len() > 18 { return None; }
    let mut ix: FxMap<u128, Vec<u128>> = Default::default();
    for r in &b.rows { ix.entry(pick(*r, &cb)).or_default().push(pick(*r, &xb) << (7 * a.sup.len())); }
    let mut rows = vec![];
    for r in &a.rows {
        if let Some(v) = ix.get(&pick(*r, &ca)) { for x in v { rows.push(r | x); } }
        if rows.len() > CAP { return None; }
    }
    let mut st = vec![0u64; nw];
    for x in &sup { set(&mut st, *x); }
    Some(Rel { sup, set: st, rows })
}
fn bit(v: &[u64], i: u16) -> bool { (v[i as usize / 64] >> (i % 64)) & 1 == 1 }
fn set(v: &mut [u64], i: u16) { v[i as usize / 64] |= 1 << (i % 64); }

impl Dom {
    /// make restrictions implied through chains of defined symbols explicit
    pub fn tighten(&self, doms: &Rc<Doms>) -> Rc<Doms> {
        let mut vset: BTreeSet<Sym> = BTreeSet::new();
        let mut todo: Vec<Sym> = doms.d.iter().map(|x| x.0).collect();
        while let Some(s) = todo.pop() {
            if !vset.insert(s) { continue; }
            if let Some(d) = &self.syms[s as usize].def { todo.extend(d.sup.iter().cloned()); }
        }
        let vars: Vec<Sym> = vset.into_iter().collect();
        let mut mask: BTreeMap<Sym, u128> = vars.iter().map(|s| (*s, self.base_dom(doms, *s))).collect();
        for _ in 0..8 {
            let before = mask.clone();
            for up in [true, false] {
                let order: Vec<Sym> = if up { vars.clone() } else { vars.iter().rev().cloned().collect() };
                for s in order {
                    let def = match &self.syms[s as usize].def { Some(d) => d, None => continue };
                    let ms: Vec<u128> = def.sup.iter().map(|x| mask[x]).collect();
                    let mk = mask[&s];
                    let mut img = 0u128;
                    let mut keep = vec![0u128; def.sup.len()];
                    idx_iter(&def.dims, |i, ix| {
                        if !ix.iter().zip(&ms).all(|(v, m)| (m >> v) & 1 == 1) { return; }
                        let v = def.data[i];
                        if (mk >> v) & 1 == 1 {
                            img |= 1 << v;
                            for (q, x) in keep.iter_mut().zip(ix) { *q |= 1 << x; }
                        }
                    });
                    mask.insert(s, mk & img);
                    for (x, q) in def.sup.iter().zip(&keep) { *mask.get_mut(x).unwrap() &= q; }
                }
            }
            if mask == before { break; }
        }
        let d: Vec<(Sym, u128)> = mask.into_iter().filter(|(s, m)| *m != full(self.syms[*s as usize].size)).collect();
        Doms::new(d)
    }
    /// `Some(None)`: empty; `Some(Some(w))`: a member; `None`: a table became too large.
    /// Predicates over unbounded symbols are treated as free.
    pub fn joint(&self, doms: &Rc<Doms>, extra: &[Sym]) -> Option<Option<BTreeMap<Sym, u32>>> {
        self.joint_split(doms, extra, 3)
    }
    fn joint_split(&self, doms: &Rc<Doms>, extra: &[Sym], depth: u32) -> Option<Option<BTreeMap<Sym, u32>>> {
        for order in 0..6 {
            if let Some(r) = self.joint_by(doms, extra, order) { return Some(r); }
            if std::env::var("ELIM").is_ok() { eprintln!("elimination order {} too wide (depth {})", order, depth); }
        }
        if depth == 0 { return None; }
        // fix the small symbol most tables depend on
        let mut deg: BTreeMap<Sym, u32> = BTreeMap::new();
        let mut seen: BTreeSet<Sym> = BTreeSet::new();
        let mut todo: Vec<Sym> = doms.d.iter().map(|x| x.0).collect();
        todo.extend_from_slice(extra);
        while let Some(s) = todo.pop() {
            if !seen.insert(s) { continue; }
            if let Some(d) = &self.syms[s as usize].def {
                for x in &d.sup { *deg.entry(*x).or_default() += 1; }
                todo.extend(d.sup.iter().cloned());
            }
        }
        let tight = self.tighten(doms);
        let mut best: Option<(u32, Sym, u128)> = None;
        for (s, n) in &deg {
            let m = self.base_dom(&tight, *s);
            let c = m.count_ones();
            if c < 2 || c > 8 { continue; }
            if best.map_or(true, |b| *n > b.0) { best = Some((*n, *s, m)); }
        }
        let (_, s, m) = best?;
        let mut sure = true;
        for v in 0..128u32 {
            if (m >> v) & 1 == 0 { continue; }
            match self.joint_split(&doms.with(s, 1u128 << v), extra, depth - 1) {
                Some(Some(w)) => return Some(Some(w)),
                Some(None) => {}
                None => sure = false,
            }
        }
        if sure { Some(None) } else { None }
    }
    fn joint_by(&self, doms: &Rc<Doms>, extra: &[Sym], order: u32) -> Option<Option<BTreeMap<Sym, u32>>> {
        let mut vset: BTreeSet<Sym> = BTreeSet::new();
        let mut todo: Vec<Sym> = doms.d.iter().map(|x| x.0).collect();
        todo.extend_from_slice(extra);
        while let Some(s) = todo.pop() {
            if !vset.insert(s) { continue; }
            if let Some(d) = &self.syms[s as usize].def { todo.extend(d.sup.iter().cloned()); }
        }
        let vars: Vec<Sym> = vset.into_iter().collect();
        let nv = vars.len();
        let nw = (nv + 63) / 64;
        let loc = |s: Sym| vars.binary_search(&s).unwrap() as u16;
        let mut mask: Vec<u128> = vars.iter().map(|s| self.base_dom(doms, *s)).collect();
        if mask.iter().any(|m| *m == 0) { return Some(None); }
        // definitions, with forward tightening of the masks (definitions point to older symbols)
        let mut defs: Vec<(u16, Vec<u16>, &Tab)> = vec![];
        for (k, s) in vars.iter().enumerate() {
            if let Some(d) = &self.syms[*s as usize].def { defs.push((k as u16, d.sup.iter().map(|x| loc(*x)).collect(), d)); }
        }
        for _ in 0..2 {
            for (k, sup, d) in &defs {
                let ms: Vec<u128> = sup.iter().map(|x| mask[*x as usize]).collect();
                let mk = mask[*k as usize];
                let mut img = 0u128;
                let mut keep = vec![0u128; sup.len()];
                idx_iter(&d.dims, |i, ix| {
                    if !ix.iter().zip(&ms).all(|(v, m)| (m >> v) & 1 == 1) { return; }
                    let v = d.data[i];
                    if (mk >> v) & 1 == 1 {
                        img |= 1 << v;
                        for (q, x) in keep.iter_mut().zip(ix) { *q |= 1 << x; }
                    }
                });
                if img == 0 { return Some(None); }
                mask[*k as usize] = img;
                for (x, q) in sup.iter().zip(&keep) { mask[*x as usize] &= q; }
            }
        }
        if mask.iter().any(|m| *m == 0) { return Some(None); }
        let vals: Vec<Vec<u32>> = mask.iter().map(|m| (0..128u32).filter(|v| (m >> v) & 1 == 1).collect()).collect();
        let size: Vec<usize> = vals.iter().map(|v| v.len()).collect();
        let mut back: Vec<[u8; 128]> = vec![[255; 128]; nv];
        for (b, v) in back.iter_mut().zip(&vals) { for (i, x) in v.iter().enumerate() { b[*x as usize] = i as u8; } }
        let mut rels: Vec<Rel> = vec![];
        for (k, sup, d) in &defs {
            let mut all = sup.clone();
            all.push(*k);
            if all.len() > 18 { return None; }
            let mut rows = vec![];
            let mut pos = vec![0usize; sup.len()];
            'all: loop {
                let mut i = 0usize;
                let mut row = 0u128;
                for j in 0..sup.len() {
                    i = i * d.dims[j] as usize + vals[sup[j] as usize][pos[j]] as usize;
                    row |= (pos[j] as u128) << (7 * j);
                }
                let v = back[*k as usize][d.data[i] as usize];
                if v != 255 { rows.push(row | (v as u128) << (7 * sup.len())); }
                let mut j = sup.len();
                loop {
                    if j == 0 { break 'all; }
                    j -= 1;
                    pos[j] += 1;
                    if pos[j] < size[sup[j] as usize] { break; }
                    pos[j] = 0;
                }
            }
            if rows.is_empty() { return Some(None); }
            let mut st = vec![0u64; nw];
            for x in &all { set(&mut st, *x); }
            rels.push(Rel { sup: all, set: st, rows });
        }
        // eliminate in order of smallest resulting table; a defined symbol whose
        // arguments are in scope adds nothing
        let fdep: Vec<(u16, Vec<u64>)> = defs.iter().map(|(k, sup, _)| { let mut v = vec![0u64; nw]; for x in sup { set(&mut v, *x); } (*k, v) }).collect();
        let mut left: Vec<u16> = (0..nv as u16).collect();
        let mut trail: Vec<(u16, Rel)> = vec![];
        let mut scope = vec![0u64; nw];
        // positions along the input: base symbols by age, defined ones between those they link
        let mut place: Vec<f64> = vars.iter().map(|s| *s as f64).collect();
        if order == 1 || order == 2 {
            let mut adj: Vec<Vec<u16>> = vec![vec![]; nv];
            for (k, sup, _) in &defs {
                for x in sup {
                    adj[*k as usize].push(*x);
                    adj[*x as usize].push(*k);
                    for y in sup { if x != y { adj[*x as usize].push(*y); } }
                }
            }
            let isdef: Vec<bool> = vars.iter().map(|s| self.syms[*s as usize].def.is_some()).collect();
            let top = (0..nv).filter(|i| !isdef[*i]).map(|i| place[i]).fold(0.0, f64::max);
            for i in 0..nv { if isdef[i] { place[i] = top / 2.0; } }
            for _ in 0..200 {
                for i in 0..nv {
                    if isdef[i] && !adj[i].is_empty() { place[i] = adj[i].iter().map(|x| place[*x as usize]).sum::<f64>() / adj[i].len() as f64; }
                }
            }
        }
        let mut rng = 0x9e3779b97f4a7c15u64.wrapping_mul(order as u64 + 1);
        while !left.is_empty() {
            let mut best: Option<(usize, usize)> = None;
            for (li, s) in left.iter().enumerate() {
                for x in scope.iter_mut() { *x = 0; }
                set(&mut scope, *s);
                for r in &rels { if bit(&r.set, *s) { for (x, y) in scope.iter_mut().zip(&r.set) { *x |= y; } } }
                let mut free = scope.clone();
                for (k, need) in &fdep {
                    if bit(&scope, *k) && need.iter().zip(&scope).all(|(n, s)| n & !s == 0) { free[*k as usize / 64] &= !(1 << (*k % 64)); }
                }
                let mut sz = 1usize;
                for (w, x) in free.iter().enumerate() {
                    let mut b = *x;
                    while b != 0 { let t = b.trailing_zeros() as usize; sz = sz.saturating_mul(size[w * 64 + t]); b &= b - 1; }
                }
                // 0: smallest table first; 1, 2: sweep along the input; 3: smallest growth over
                // the tables it replaces; others: perturbed sizes
                let key = match order {
                    0 => sz,
                    1 => (1e6 - place[*s as usize] * 1e3) as usize,
                    2 => (1e6 + place[*s as usize] * 1e3) as usize,
                    3 => {
                        let old: usize = rels.iter().filter(|r| bit(&r.set, *s)).map(|r| r.rows.len()).sum();
                        sz.saturating_mul(1000) / old.max(1)
                    }
                    _ => {
                        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
                        sz.saturating_mul(16 + (rng % 48) as usize)
                    }
                };
                if best.map_or(true, |b| key < b.0) { best = Some((key, li)); }
            }
            let (_, li) = best.unwrap();
            let s = left.swap_remove(li);
            let (mut with, without): (Vec<Rel>, Vec<Rel>) = rels.into_iter().partition(|r| bit(&r.set, s));
            rels = without;
            with.sort_by_key(|r| r.rows.len());
            let mut it = with.into_iter();
            let mut cur = match it.next() {
                Some(r) => r,
                None => { let mut st = vec![0u64; nw]; set(&mut st, s); Rel { sup: vec![s], set: st, rows: (0..size[s as usize] as u128).collect() } }
            };
            for r in it { cur = join(&cur, &r, nw)?; if cur.rows.is_empty() { return Some(None); } }
            trail.push((s, Rel { sup: cur.sup.clone(), set: vec![], rows: cur.rows.clone() }));
            let pr = project(cur, s, nw);
            if !pr.sup.is_empty() { rels.push(pr); }
        }
        // a member, in reverse order of elimination
        let mut a: Vec<usize> = vec![usize::MAX; nv];
        for (s, r) in trail.into_iter().rev() {
            let me = r.sup.iter().position(|x| *x == s).unwrap();
            let row = r.rows.iter().find(|row| r.sup.iter().enumerate().all(|(c, x)| *x == s || a[*x as usize] == ((**row >> (7 * c)) & 127) as usize))?;
            a[s as usize] = ((row >> (7 * me)) & 127) as usize;
        }
        Some(Some(vars.iter().enumerate().map(|(k, s)| (*s, vals[k][a[k]])).collect()))
    }
}
