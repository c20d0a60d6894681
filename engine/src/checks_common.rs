// Shared building blocks of the specifications: symbolic indexes and helpers.
use crate::dom::*;
use crate::interp::*;
use crate::ir::*;
use std::rc::Rc;

#[derive(Clone)]
pub struct Cell {
    pub h: Sc,
    pub res: u32,
    pub bc: Sc,
    pub d: Vec<Sc>, // d[1..=15]
    pub bcs: Sym,
    pub ds: Vec<Option<Sym>>,
}

pub fn seg(len: u8, s: &Sc) -> Seg {
    Seg { len, k: match s { Sc::C(c) => SegK::C(*c as u64), Sc::T(t) => SegK::T(t.clone()), _ => panic!("segment") } }
}

pub const PENT: [u32; 12] = [4, 14, 24, 38, 49, 58, 63, 72, 83, 97, 107, 117];

impl<'p> Interp<'p> {
    /// an index assembled from its fields
    pub fn mk_index(&mut self, hi: &Sc, mode: &Sc, rsv: &Sc, res: &Sc, bc: &Sc, d: &[Sc]) -> Sc {
        let mut v = vec![];
        for r in (1..=15).rev() { v.push(seg(3, &d[r])); }
        v.push(seg(7, bc));
        v.push(seg(4, res));
        v.push(seg(3, rsv));
        v.push(seg(4, mode));
        v.push(seg(1, hi));
        let e = Doms::new(vec![]);
        self.d.norm_segs(&e, v, 64)
    }
    /// a well-formed cell of a fixed resolution: base cell and digits symbolic
    pub fn mk_cell(&mut self, tag: &str, res: u32) -> Cell {
        let bcs = self.d.new_sym(&format!("{}bc", tag), 122);
        let bc = self.d.sym_sc(bcs);
        let mut d = vec![Sc::C(0)];
        let mut ds = vec![None];
        for r in 1..=15 {
            if r <= res {
                let s = self.d.new_sym(&format!("{}d{}", tag, r), 7);
                d.push(self.d.sym_sc(s));
                ds.push(Some(s));
            } else {
                d.push(Sc::C(7));
                ds.push(None);
            }
        }
        let h = self.mk_index(&Sc::C(0), &Sc::C(1), &Sc::C(0), &Sc::C(res as u128), &bc, &d);
        Cell { h, res, bc, d, bcs, ds }
    }
    /// partition of the valid cells of that shape: hexagon base cells, and for
    /// pentagon base cells the position of the leading non-zero digit
    pub fn valid_cases(&mut self, c: &Cell) -> Vec<(String, Rc<Doms>)> {
        let mut out = vec![];
        let pm: u128 = PENT.iter().fold(0, |m, b| m | 1u128 << b);
        let hm = full(122) & !pm;
        let base = Doms::new(vec![]);
        out.push(("hexagon base cell".into(), base.with(c.bcs, hm)));
        for j in 1..=c.res + 1 {
            let mut d = base.with(c.bcs, pm);
            for r in 1..j { d = d.with(c.ds[r as usize].unwrap(), 1); }
            if j <= c.res { d = d.with(c.ds[j as usize].unwrap(), 0b1111100); }
            out.push((if j <= c.res { format!("pentagon base cell, leading digit at {}", j) } else { "pentagon".into() }, d));
        }
        out
    }
    pub fn enum_sc(&self, s: Sc, n: usize) -> V {
        V::Enum(s, Rc::new((0..n).map(|_| Some(Rc::new(vec![]))).collect()))
    }
    pub fn nvariants(&self, t: TyId) -> usize {
        match &self.p.types[t as usize].kind { TypeKind::Adt { variants, .. } => variants.len(), _ => 0 }
    }
    pub fn ext_ptr(&mut self, v: V) -> V {
        self.ext.push(v);
        V::Ptr(Rc::new(Ptr { base: Base::Ext(self.ext.len() as u32 - 1), path: vec![], meta: None }))
    }
    /// state with a scratch frame holding values that the analysed function gets by reference
    pub fn with_cells(&mut self, st: &St, vals: Vec<V>) -> (St, Vec<V>) {
        let mut s = st.clone();
        let fr = s.frames.len() as u32;
        let n = vals.len();
        s.frames.push(Rc::new(vals));
        let ptrs = (0..n).map(|i| V::Ptr(Rc::new(Ptr { base: Base::Local(fr, i as u32), path: vec![], meta: None }))).collect();
        (s, ptrs)
    }
}
