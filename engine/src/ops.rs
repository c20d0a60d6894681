// Transfer functions of the scalar operations.
use crate::dom::*;
use std::rc::Rc;

pub const F64: ITy = ITy { bits: 64, signed: true, float: true };

fn f(v: u128) -> f64 { f64::from_bits(v as u64) }
fn fb(v: f64) -> u128 { v.to_bits() as u128 }

fn is_ct(a: &Sc) -> bool { matches!(a, Sc::C(_) | Sc::T(_)) }

impl Dom {
    fn has_opaque_float(&self, l: &Lin) -> bool {
        !self.real_floats() && l.unb.iter().any(|(u, _)| !self.usyms[*u as usize].is_int)
    }
    pub fn real_floats(&self) -> bool { self.assumed.iter().any(|s| s == "real-arithmetic") }

    pub fn bool_and(&mut self, st: &Rc<Doms>, a: &Sc, b: &Sc) -> R<Sc> { self.map2(st, a, b, |x, y| x & y) }
    pub fn bool_or(&mut self, st: &Rc<Doms>, a: &Sc, b: &Sc) -> R<Sc> { self.map2(st, a, b, |x, y| x | y) }
    pub fn bool_not(&mut self, st: &Rc<Doms>, a: &Sc) -> R<Sc> {
        match a { Sc::C(c) => Ok(Sc::C(1 - (c & 1))), Sc::T(t) => Ok(self.map1(st, t, |x| 1 - (x & 1))), _ => fail("not of non-bool") }
    }

    /// returns (value, overflow flag)
    pub fn binop(&mut self, st: &Rc<Doms>, op: &str, a: &Sc, b: &Sc, ta: ITy, tb: ITy, checked: bool) -> R<(Sc, Option<Sc>)> {
        let a = &self.resimp(st, a);
        let b = &self.resimp(st, b);
        if ta.float { return self.fbin(st, op, a, b).map(|x| (x, None)); }
        match op {
            "Add" | "Sub" | "Mul" | "AddUnchecked" | "SubUnchecked" | "MulUnchecked" => self.arith(st, &op[..3], a, b, ta, checked, op.ends_with("Unchecked")),
            "Div" | "Rem" => self.divrem(st, op == "Div", a, b, ta).map(|x| (x, None)),
            "BitAnd" | "BitOr" | "BitXor" => self.bitop(st, op, a, b, ta).map(|x| (x, None)),
            "Shl" | "ShlUnchecked" | "Shr" | "ShrUnchecked" => {
                let left = op.starts_with("Shl");
                let r = self.shift(st, left, a, b, ta, tb)?;
                Ok((r, None))
            }
            "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge" => self.cmp(st, op, a, b, ta).map(|x| (x, None)),
            "Cmp" => {
                // three-way comparison: Ordering discriminant -1/0/1 as i8
                let lt = self.cmp(st, "Lt", a, b, ta)?;
                let eq = self.cmp(st, "Eq", a, b, ta)?;
                Ok((self.map2(st, &lt, &eq, |l, e| if l == 1 { 0xff } else if e == 1 { 0 } else { 1 })?, None))
            }
            _ => fail(format!("binop {}", op)),
        }
    }

    fn arith(&mut self, st: &Rc<Doms>, op: &str, a: &Sc, b: &Sc, ty: ITy, checked: bool, unchecked: bool) -> R<(Sc, Option<Sc>)> {
        let calc = |x: i128, y: i128| match op { "Add" => x.wrapping_add(y), "Sub" => x.wrapping_sub(y), _ => x.checked_mul(y).unwrap_or(i128::MAX / 2) };
        if is_ct(a) && is_ct(b) {
            let small = match (a, b) {
                (Sc::T(x), Sc::T(y)) => { let u = union_sup(&x.sup, &y.sup); u.len() <= KSUP && self.prod(&u) <= MAXTAB }
                _ => true,
            };
            if small || !matches!(op, "Add" | "Sub") {
                let v = self.map2(st, a, b, |x, y| {
                    if op == "Mul" { x.wrapping_mul(y) & ty.mask() } else { ty.wrap(calc(ty.to_i(x), ty.to_i(y))) }
                })?;
                let o = self.map2(st, a, b, |x, y| {
                    let (x, y) = (ty.to_i(x), ty.to_i(y));
                    let r = match op { "Add" => Some(x + y), "Sub" => Some(x - y), _ => x.checked_mul(y) };
                    r.map_or(true, |r| !ty.fits(r)) as u128
                })?;
                return Ok((v, Some(o)));
            }
        }
        if (matches!(a, Sc::B(_)) || matches!(b, Sc::B(_))) && op != "Mul" {
            if let Some(r) = self.ripple(st, op == "Add", a, b, ty)? { return Ok(r); }
        }
        let la = self.to_lin(st, a, ty);
        let lb = self.to_lin(st, b, ty);
        if let (Ok(la), Ok(lb)) = (la, lb) {
            let l = match op {
                "Add" => Some(self.lin_add(st, &la, &lb)?),
                "Sub" => { let n = self.lin_scale(&lb, -1, 1); Some(self.lin_add(st, &la, &n)?) }
                _ => {
                    if lb.is_const() && lb.den == 1 { Some(self.lin_scale(&la, lb.c, 1)) }
                    else if la.is_const() && la.den == 1 { Some(self.lin_scale(&lb, la.c, 1)) }
                    else if let Sc::T(t) = a { return Err(Stop::Split(t.clone())); }
                    else if let Sc::T(t) = b { return Err(Stop::Split(t.clone())); }
                    else { self.lin_mul(&la, &lb) }
                }
            };
            if let Some(l) = l {
                let l = self.lin_norm(st, l);
                let (lo, hi) = self.interval(st, &l);
                let inr = lo.map_or(false, |x| x >= ty.min()) && hi.map_or(false, |x| x <= ty.max());
                if inr { let s = self.from_lin(st, l, ty); return Ok((s, Some(Sc::C(0)))); }
                let mut above = self.lin_scale(&l, -1, 1);
                above.c += ty.max() * above.den;
                let ok1 = self.lin_ge(st, above, false);
                let mut below = l.clone();
                below.c -= ty.min() * below.den;
                let ok2 = self.lin_ge(st, below, false);
                let ok = self.bool_and(st, &ok1, &ok2)?;
                let ov = self.bool_not(st, &ok)?;
                if checked || unchecked || ov == Sc::C(0) {
                    let s = self.from_lin(st, l, ty);
                    return Ok((s, Some(ov)));
                }
                let s = self.opaque(&format!("wrap{}", op), vec![Sc::L(Rc::new(l))], ty);
                return Ok((s, Some(ov)));
            }
        }
        let v = self.opaque(op, vec![a.clone(), b.clone()], ty);
        let ov = self.pred_sc(st, Pred::Op(format!("ovf{}{}", op, ty.bits), vec![a.clone(), b.clone()]));
        Ok((v, Some(ov)))
    }

    /// segment-wise addition / subtraction with a carry that is constant or a table
    fn ripple(&mut self, st: &Rc<Doms>, add: bool, a: &Sc, b: &Sc, ty: ITy) -> R<Option<(Sc, Option<Sc>)>> {
        let (mut x, mut y) = match (self.to_segs(st, a, ty.bits), self.to_segs(st, b, ty.bits)) { (Some(x), Some(y)) => (x, y), _ => return Ok(None) };
        if ty.signed { return Ok(None); }
        Self::align(&mut x, &mut y);
        let mut carry = Sc::C(0);
        let mut out = vec![];
        for (s, t) in x.iter().zip(&y) {
            let len = s.len;
            let m: u128 = if len >= 64 { u64::MAX as u128 } else { (1u128 << len) - 1 };
            let g = |s: &Seg| match &s.k { SegK::C(c) => Some(Sc::C(*c as u128)), SegK::T(t) => Some(Sc::T(t.clone())), _ => None };
            if let SegK::Op(..) = s.k {
                if carry == Sc::C(0) && t.k == SegK::C(0) { out.push(s.clone()); continue; }
                return Ok(None);
            }
            if let SegK::Op(..) = t.k {
                if add && carry == Sc::C(0) && s.k == SegK::C(0) { out.push(t.clone()); continue; }
                return Ok(None);
            }
            let (p, q) = (g(s).unwrap(), g(t).unwrap());
            let q2 = self.map2(st, &q, &carry, |q, c| q + c)?;
            let sum = self.map2(st, &p, &q2, |p, q| if add { (p + q) & m } else { (p.wrapping_sub(q)) & m })?;
            carry = self.map2(st, &p, &q2, |p, q| if add { (p + q > m) as u128 } else { (p < q) as u128 })?;
            out.push(Seg { len, k: match sum { Sc::C(c) => SegK::C(c as u64), Sc::T(t) => SegK::T(t), _ => unreachable!() } });
            // a symbolic carry into further symbolic digits loses structure: split
            if let Sc::T(t) = &carry { return Err(Stop::Split(t.clone())); }
        }
        let v = self.norm_segs(st, out, ty.bits);
        Ok(Some((v, Some(carry))))
    }

    fn div_lin(&mut self, st: &Rc<Doms>, l: &Lin, n: i128) -> Option<(Lin, Lin)> {
        // floor division of a linear form by n > 0
        if l.den != 1 { return None; }
        let mut q = Dom::lin_const(l.c.div_euclid(n));
        let mut r = Dom::lin_const(l.c.rem_euclid(n));
        for (s, t) in &l.tabs {
            q.tabs.push((s.clone(), Rc::new(t.iter().map(|v| v.div_euclid(n)).collect())));
            r.tabs.push((s.clone(), Rc::new(t.iter().map(|v| v.rem_euclid(n)).collect())));
        }
        for (u, k) in &l.unb {
            if k % n == 0 { q.unb.push((*u, k / n)); } else {
                // smaller coefficient stays in the remainder when it is bounded
                r.unb.push((*u, *k));
            }
        }
        let q = self.lin_norm(st, q);
        let r = self.lin_norm(st, r);
        let (lo, hi) = self.interval(st, &r);
        if lo.map_or(false, |x| x >= 0) && hi.map_or(false, |x| x < n) { return Some((q, r)); }
        if r.unb.is_empty() {
            let mut sup: Vec<Sym> = vec![];
            for (s, _) in &r.tabs { sup = union_sup(&sup, s); }
            if sup.len() <= KSUP && self.prod(&sup) <= MAXTAB {
                let d = self.lin_table(&r, &sup);
                let qt = Lin { den: 1, c: 0, tabs: vec![(sup.clone(), Rc::new(d.iter().map(|v| v.div_euclid(n)).collect()))], unb: vec![] };
                let rt = Lin { den: 1, c: 0, tabs: vec![(sup, Rc::new(d.iter().map(|v| v.rem_euclid(n)).collect()))], unb: vec![] };
                let qt = self.lin_norm(st, qt);
                let q2 = self.lin_add(st, &q, &qt).ok()?;
                return Some((q2, self.lin_norm(st, rt)));
            }
        }
        None
    }

    fn divrem(&mut self, st: &Rc<Doms>, div: bool, a: &Sc, b: &Sc, ty: ITy) -> R<Sc> {
        if is_ct(a) && is_ct(b) {
            // comparisons of one small table with constants all go through its value symbol
            let (mut a, mut b) = (a.clone(), b.clone());
            match (&a, &b) {
                (Sc::T(t), Sc::C(_)) => a = self.value_sym(st, t)?,
                (Sc::C(_), Sc::T(t)) => b = self.value_sym(st, t)?,
                _ => {}
            }
            let (a, b) = (&a, &b);
            return self.map2(st, a, b, |x, y| {
                let (x, y) = (ty.to_i(x), ty.to_i(y));
                if y == 0 { 0 } else { ty.wrap(if div { x / y } else { x % y }) }
            });
        }
        if let Sc::T(t) = b { return Err(Stop::Split(t.clone())); }
        if let Sc::C(n) = b {
            let n = ty.to_i(*n);
            if n > 0 {
                if !ty.signed && (n & (n - 1)) == 0 && matches!(a, Sc::B(_)) {
                    let k = n.trailing_zeros();
                    return if div { self.shift(st, false, a, &Sc::C(k as u128), ty, ITy::I32) } else { self.bitop(st, "BitAnd", a, &Sc::C((n - 1) as u128), ty) };
                }
                if let Ok(l) = self.to_lin(st, a, ty) {
                    let (lo, hi) = self.interval(st, &l);
                    let nonneg = lo.map_or(false, |x| x >= 0) || self.decide_pred(st, &Pred::Ge(Rc::new(l.clone())), None) == Some(true);
                    let nonpos = hi.map_or(false, |x| x <= 0);
                    if nonneg && !div && n <= 128 && l.den == 1 && l.unb.is_empty() {
                        let mut acc = Sc::C(l.c.rem_euclid(n) as u128);
                        for (sup, t) in &l.tabs {
                            let x = self.simp(st, sup.clone(), t.iter().map(|v| v.rem_euclid(n) as u128).collect());
                            acc = self.map2(st, &acc, &x, |a, b| (a + b) % n as u128)?;
                        }
                        return Ok(acc);
                    }
                    if nonneg {
                        if let Some((q, r)) = self.div_lin(st, &l, n) { return Ok(self.from_lin(st, if div { q } else { r }, ty)); }
                    } else if nonpos {
                        let m = self.lin_scale(&l, -1, 1);
                        if let Some((q, r)) = self.div_lin(st, &m, n) {
                            let x = self.lin_scale(if div { &q } else { &r }, -1, 1);
                            return Ok(self.from_lin(st, x, ty));
                        }
                    } else {
                        // sign unknown
                        let s = self.lin_ge(st, l.clone(), false);
                        if let Sc::T(t) = s { return Err(Stop::Split(t)); }
                    }
                }
                // bounded uninterpreted remainder / quotient
                let name = if div { "div" } else { "rem" };
                let s = self.opaque(&format!("{}{}", name, n), vec![a.clone()], ty);
                if let Sc::L(l) = &s {
                    let u = l.unb[0].0 as usize;
                    if !div { self.usyms[u].hi = Some(n - 1); self.usyms[u].lo = Some(if ty.signed { -(n - 1) } else { 0 }); }
                    else { self.usyms[u].hi = Some(ty.max() / n); self.usyms[u].lo = Some(ty.min() / n); }
                }
                return Ok(s);
            }
        }
        Ok(self.opaque(if div { "Div" } else { "Rem" }, vec![a.clone(), b.clone()], ty))
    }

    fn seg_sc(&self, s: &Seg) -> Option<Sc> {
        match &s.k { SegK::C(c) => Some(Sc::C(*c as u128)), SegK::T(t) => Some(Sc::T(t.clone())), _ => None }
    }
    fn sc_seg(len: u8, s: Sc) -> Seg {
        Seg { len, k: match s { Sc::C(c) => SegK::C(c as u64), Sc::T(t) => SegK::T(t), _ => unreachable!() } }
    }

    pub fn bitop(&mut self, st: &Rc<Doms>, op: &str, a: &Sc, b: &Sc, ty: ITy) -> R<Sc> {
        let g = |x: u128, y: u128| match op { "BitAnd" => x & y, "BitOr" => x | y, _ => x ^ y };
        if is_ct(a) && is_ct(b) {
            let small = match (a, b) {
                (Sc::T(x), Sc::T(y)) => { let u = union_sup(&x.sup, &y.sup); u.len() <= KSUP && self.prod(&u) <= MAXTAB && (ty.bits < 64 || x.sup == y.sup) }
                _ => true,
            };
            if small || ty.bits < 64 { return self.map2(st, a, b, g); }
        }
        let (mut x, mut y) = match (self.to_segs(st, a, ty.bits), self.to_segs(st, b, ty.bits)) {
            (Some(x), Some(y)) => (x, y),
            _ => return Ok(self.opaque(op, vec![a.clone(), b.clone()], ty)),
        };
        Self::align(&mut x, &mut y);
        let mut out = vec![];
        for (s, t) in x.iter().zip(&y) {
            let len = s.len;
            let m: u64 = if len >= 64 { u64::MAX } else { (1u64 << len) - 1 };
            let pick = |o: &Seg, c: u64| -> Option<Seg> {
                match (op, c) {
                    ("BitAnd", 0) => Some(Seg { len, k: SegK::C(0) }),
                    ("BitAnd", c) if c == m => Some(o.clone()),
                    ("BitOr", 0) | ("BitXor", 0) => Some(o.clone()),
                    ("BitOr", c) if c == m => Some(Seg { len, k: SegK::C(m) }),
                    _ => None,
                }
            };
            let r = match (&s.k, &t.k) {
                (_, SegK::C(c)) if pick(s, *c).is_some() => pick(s, *c).unwrap(),
                (SegK::C(c), _) if pick(t, *c).is_some() => pick(t, *c).unwrap(),
                (SegK::Op(..), SegK::C(c)) | (SegK::C(c), SegK::Op(..)) if op != "BitXor" => {
                    // mixed constant mask over opaque bits: go bit by bit
                    let o = if let SegK::Op(..) = s.k { s } else { t };
                    for i in 0..len {
                        let bit = (c >> i) & 1;
                        let seg1 = Dom::slice(&[o.clone()], i, 1);
                        let keep = (op == "BitAnd") == (bit == 1);
                        out.push(if keep { seg1[0].clone() } else { Seg { len: 1, k: SegK::C(if op == "BitAnd" { 0 } else { 1 }) } });
                    }
                    continue;
                }
                (SegK::Op(u, p), SegK::Op(v, q)) => {
                    if u == v && p == q {
                        if op == "BitXor" { Seg { len, k: SegK::C(0) } } else { s.clone() }
                    } else {
                        let uo = self.opaque(op, vec![Sc::B(Rc::new(vec![s.clone()])), Sc::B(Rc::new(vec![t.clone()]))], ITy { bits: len as u32, signed: false, float: false });
                        match uo { Sc::L(l) => Seg { len, k: SegK::Op(l.unb[0].0, 0) }, _ => unreachable!() }
                    }
                }
                (SegK::Op(..), _) | (_, SegK::Op(..)) => {
                    let uo = self.opaque(op, vec![Sc::B(Rc::new(vec![s.clone()])), Sc::B(Rc::new(vec![t.clone()]))], ITy { bits: len as u32, signed: false, float: false });
                    match uo { Sc::L(l) => Seg { len, k: SegK::Op(l.unb[0].0, 0) }, _ => unreachable!() }
                }
                // constant mask splitting a table at bit granularity
                (SegK::T(_), SegK::C(c)) | (SegK::C(c), SegK::T(_)) if len > 3 => {
                    let o = if let SegK::T(_) = s.k { s } else { t };
                    let mut i = 0u8;
                    while i < len {
                        let bit = (c >> i) & 1;
                        let mut j = i;
                        while j < len && (c >> j) & 1 == bit { j += 1; }
                        let sg = Dom::slice(&[o.clone()], i, j - i);
                        let n = j - i;
                        let mm: u64 = if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
                        let p = self.seg_sc(&sg[0]).unwrap();
                        let q = Sc::C(if bit == 1 { mm as u128 } else { 0 });
                        let r = self.map2(st, &p, &q, g)?;
                        out.push(Self::sc_seg(n, r));
                        i = j;
                    }
                    continue;
                }
                _ => {
                    let (p, q) = (self.seg_sc(s).unwrap(), self.seg_sc(t).unwrap());
                    let r = self.map2(st, &p, &q, g)?;
                    Self::sc_seg(len, r)
                }
            };
            out.push(r);
        }
        Ok(self.norm_segs(st, out, ty.bits))
    }

    pub fn shift(&mut self, st: &Rc<Doms>, left: bool, a: &Sc, b: &Sc, ta: ITy, tb: ITy) -> R<Sc> {
        let n = match b {
            Sc::C(c) => (tb.to_i(*c).rem_euclid(ta.bits as i128)) as u32,
            Sc::T(t) => {
                if is_ct(a) {
                    let small = match a { Sc::T(x) => union_sup(&x.sup, &t.sup).len() <= 1, _ => true };
                    if small {
                        return self.map2(st, a, b, |x, y| {
                            let n = tb.to_i(y).rem_euclid(ta.bits as i128) as u32;
                            if left { (x << n) & ta.mask() } else { ta.wrap(ta.to_i(x) >> n) }
                        });
                    }
                }
                return Err(Stop::Split(t.clone()));
            }
            _ => return Ok(self.opaque(if left { "Shl" } else { "Shr" }, vec![a.clone(), b.clone()], ta)),
        };
        match a {
            Sc::C(x) => return Ok(Sc::C(if left { (x << n) & ta.mask() } else { ta.wrap(ta.to_i(*x) >> n) })),
            Sc::T(t) if ta.signed || (!left) => {
                return Ok(self.map1(st, t, |x| if left { (x << n) & ta.mask() } else { ta.wrap(ta.to_i(x) >> n) }));
            }
            _ => {}
        }
        if ta.signed {
            return Ok(self.opaque(if left { "Shl" } else { "Shr" }, vec![a.clone(), b.clone()], ta));
        }
        let x = match self.to_segs(st, a, ta.bits) { Some(x) => x, None => return Ok(self.opaque(if left { "Shl" } else { "Shr" }, vec![a.clone(), b.clone()], ta)) };
        let w = ta.bits as u8;
        let out = if left {
            let mut v = vec![];
            if n > 0 { v.push(Seg { len: n as u8, k: SegK::C(0) }); }
            v.extend(Self::slice(&x, 0, w - n as u8));
            v
        } else {
            let mut v = Self::slice(&x, n as u8, w - n as u8);
            if n > 0 { v.push(Seg { len: n as u8, k: SegK::C(0) }); }
            v
        };
        Ok(self.norm_segs(st, out, ta.bits))
    }

    /// a table over several symbols with few values, seen as one defined symbol
    pub fn value_sym(&mut self, st: &Rc<Doms>, t: &Rc<Tab>) -> R<Sc> {
        if t.sup.len() < 2 { return Ok(Sc::T(t.clone())); }
        let mut vals: Vec<u128> = t.data.clone();
        vals.sort();
        vals.dedup();
        if vals.len() > 16 { return Ok(Sc::T(t.clone())); }
        let m = self.materialise(st, t)?;
        Ok(self.simp(st, m.sup.clone(), m.data.clone()))
    }

    pub fn cmp(&mut self, st: &Rc<Doms>, op: &str, a: &Sc, b: &Sc, ty: ITy) -> R<Sc> {
        if is_ct(a) && is_ct(b) {
            return self.map2(st, a, b, |x, y| {
                let (x, y) = (ty.to_i(x), ty.to_i(y));
                (match op { "Eq" => x == y, "Ne" => x != y, "Lt" => x < y, "Le" => x <= y, "Gt" => x > y, _ => x >= y }) as u128
            });
        }
        if a == b { return Ok(Sc::C(matches!(op, "Eq" | "Le" | "Ge") as u128)); }
        if op == "Ne" { let e = self.cmp(st, "Eq", a, b, ty)?; return self.bool_not(st, &e); }
        if (matches!(a, Sc::B(_)) || matches!(b, Sc::B(_))) && !ty.signed {
            if let (Some(mut x), Some(mut y)) = (self.to_segs(st, a, ty.bits), self.to_segs(st, b, ty.bits)) {
                Self::align(&mut x, &mut y);
                if op == "Eq" {
                    let mut undec: Vec<Sc> = vec![];
                    let mut opaque = vec![];
                    for (s, t) in x.iter().zip(&y) {
                        if s.k == t.k { continue; }
                        match (self.seg_sc(s), self.seg_sc(t)) {
                            (Some(p), Some(q)) => {
                                let e = self.map2(st, &p, &q, |x, y| (x == y) as u128)?;
                                match e { Sc::C(0) => return Ok(Sc::C(0)), Sc::C(_) => {}, e => undec.push(e) }
                            }
                            _ => opaque.push((s.clone(), t.clone())),
                        }
                    }
                    if undec.is_empty() && opaque.is_empty() { return Ok(Sc::C(1)); }
                    if undec.len() == 1 && opaque.is_empty() { return Ok(undec[0].clone()); }
                    if let Some(Sc::T(t)) = undec.first() { return Err(Stop::Split(t.clone())); }
                    let mut args = vec![a.clone(), b.clone()];
                    args.sort_by_key(|s| format!("{:?}", s));
                    return Ok(self.pred_sc(st, Pred::Op("eq".into(), args)));
                }
                // ordering: from the most significant segment
                let n = x.len();
                for i in (0..n).rev() {
                    if x[i].k == y[i].k { continue; }
                    match (self.seg_sc(&x[i]), self.seg_sc(&y[i])) {
                        (Some(p), Some(q)) => {
                            let o = self.map2(st, &p, &q, |x, y| if x < y { 0 } else if x == y { 1 } else { 2 })?;
                            match o {
                                Sc::C(1) => continue,
                                Sc::C(v) => return Ok(Sc::C((if v == 0 { matches!(op, "Lt" | "Le") } else { matches!(op, "Gt" | "Ge") }) as u128)),
                                Sc::T(t) => {
                                    if i == 0 { return Ok(self.map1(st, &t, |v| (match op { "Lt" => v == 0, "Le" => v <= 1, "Gt" => v == 2, _ => v >= 1 }) as u128)); }
                                    return Err(Stop::Split(t));
                                }
                                _ => unreachable!(),
                            }
                        }
                        _ => return Ok(self.pred_sc(st, Pred::Op(op.into(), vec![a.clone(), b.clone()]))),
                    }
                }
                return Ok(Sc::C(matches!(op, "Le" | "Ge") as u128));
            }
        }
        match (self.to_lin(st, a, ty), self.to_lin(st, b, ty)) {
            (Ok(la), Ok(lb)) => {
                let nb = self.lin_scale(&lb, -1, 1);
                let na = self.lin_scale(&la, -1, 1);
                match op {
                    "Eq" => { let d = self.lin_add(st, &la, &nb)?; Ok(self.lin_eq(st, d)) }
                    "Ge" => { let d = self.lin_add(st, &la, &nb)?; Ok(self.lin_ge(st, d, false)) }
                    "Le" => { let d = self.lin_add(st, &lb, &na)?; Ok(self.lin_ge(st, d, false)) }
                    "Gt" => { let d = self.lin_add(st, &la, &nb)?; Ok(self.lin_ge(st, d, true)) }
                    _ => { let d = self.lin_add(st, &lb, &na)?; Ok(self.lin_ge(st, d, true)) }
                }
            }
            _ => Ok(self.pred_sc(st, Pred::Op(op.into(), vec![a.clone(), b.clone()]))),
        }
    }

    /// conditions any of which makes the two integers differ (None: not a finite question)
    pub fn differing(&mut self, st: &Rc<Doms>, a: &Sc, b: &Sc, ty: ITy) -> R<Option<Vec<Sc>>> {
        if is_ct(a) && is_ct(b) { return Ok(Some(vec![self.map2(st, a, b, |x, y| (x != y) as u128)?])); }
        if matches!(a, Sc::L(_)) || matches!(b, Sc::L(_)) { return Ok(None); }
        let (mut x, mut y) = match (self.to_segs(st, a, ty.bits), self.to_segs(st, b, ty.bits)) { (Some(x), Some(y)) => (x, y), _ => return Ok(None) };
        Self::align(&mut x, &mut y);
        let mut out = vec![];
        for (s, t) in x.iter().zip(&y) {
            if s.k == t.k { continue; }
            match (self.seg_sc(s), self.seg_sc(t)) {
                (Some(p), Some(q)) => match self.map2(st, &p, &q, |x, y| (x != y) as u128)? { Sc::C(0) => {}, e => out.push(e) },
                _ => return Ok(None),
            }
        }
        Ok(Some(out))
    }
    fn fbin(&mut self, st: &Rc<Doms>, op: &str, a: &Sc, b: &Sc) -> R<Sc> {
        if let (Sc::C(x), Sc::C(y)) = (a, b) {
            let (x, y) = (f(*x), f(*y));
            return Ok(match op {
                "Add" => Sc::C(fb(x + y)), "Sub" => Sc::C(fb(x - y)), "Mul" => Sc::C(fb(x * y)), "Div" => Sc::C(fb(x / y)), "Rem" => Sc::C(fb(x % y)),
                "Eq" => Sc::C((x == y) as u128), "Ne" => Sc::C((x != y) as u128), "Lt" => Sc::C((x < y) as u128),
                "Le" => Sc::C((x <= y) as u128), "Gt" => Sc::C((x > y) as u128), "Ge" => Sc::C((x >= y) as u128),
                _ => return fail(format!("float op {}", op)),
            });
        }
        if self.ft.on { return self.f_bin(st, op, a, b); }
        let la = self.to_lin(st, a, F64).ok().filter(|l| !self.has_opaque_float(l));
        let lb = self.to_lin(st, b, F64).ok().filter(|l| !self.has_opaque_float(l));
        if let (Some(la), Some(lb)) = (la, lb) {
            let nb = self.lin_scale(&lb, -1, 1);
            match op {
                "Add" => { let l = self.lin_add(st, &la, &lb)?; return Ok(self.from_lin(st, l, F64)); }
                "Sub" => { let l = self.lin_add(st, &la, &nb)?; return Ok(self.from_lin(st, l, F64)); }
                "Mul" if lb.is_const() => { let l = self.lin_scale(&la, lb.c, lb.den); return Ok(self.from_lin(st, l, F64)); }
                "Mul" if la.is_const() => { let l = self.lin_scale(&lb, la.c, la.den); return Ok(self.from_lin(st, l, F64)); }
                "Div" if lb.is_const() && lb.c != 0 => { let l = self.lin_scale(&la, lb.den, lb.c); return Ok(self.from_lin(st, l, F64)); }
                "Eq" => { let d = self.lin_add(st, &la, &nb)?; return Ok(self.lin_eq(st, d)); }
                "Ne" => { let d = self.lin_add(st, &la, &nb)?; let e = self.lin_eq(st, d); return self.bool_not(st, &e); }
                "Ge" => { let d = self.lin_add(st, &la, &nb)?; return Ok(self.lin_ge(st, d, false)); }
                "Gt" => { let d = self.lin_add(st, &la, &nb)?; return Ok(self.lin_ge(st, d, true)); }
                "Le" => { let d = self.lin_add(st, &la, &nb)?; let d = self.lin_scale(&d, -1, 1); return Ok(self.lin_ge(st, d, false)); }
                "Lt" => { let d = self.lin_add(st, &la, &nb)?; let d = self.lin_scale(&d, -1, 1); return Ok(self.lin_ge(st, d, true)); }
                _ => {}
            }
        }
        if matches!(op, "Eq" | "Ne" | "Lt" | "Le" | "Gt" | "Ge") {
            return Ok(self.pred_sc(st, Pred::Op(format!("f{}", op), vec![a.clone(), b.clone()])));
        }
        Ok(self.opaque(&format!("f{}", op), vec![a.clone(), b.clone()], F64))
    }

    pub fn unop(&mut self, st: &Rc<Doms>, op: &str, a: &Sc, ty: ITy) -> R<Sc> {
        match op {
            "Not" => {
                if ty.bits == 1 { return self.bool_not(st, a); }
                match a {
                    Sc::C(c) => Ok(Sc::C(!c & ty.mask())),
                    Sc::T(t) if ty.bits < 64 => Ok(self.map1(st, t, |v| !v & ty.mask())),
                    _ => self.bitop(st, "BitXor", a, &Sc::C(ty.mask()), ty),
                }
            }
            "Neg" => {
                if ty.float {
                    return match a {
                        Sc::C(c) => Ok(Sc::C(fb(-f(*c)))),
                        _ if self.ft.on => { let p = self.f_poly(a)?.scale(-1.0); Ok(self.f_sc(p)) }
                        _ => match self.to_lin(st, a, ty) {
                            Ok(l) if !self.has_opaque_float(&l) => { let l = self.lin_scale(&l, -1, 1); Ok(self.from_lin(st, l, ty)) }
                            _ => Ok(self.opaque("fneg", vec![a.clone()], ty)),
                        },
                    };
                }
                match a {
                    Sc::C(c) => Ok(Sc::C(ty.wrap(-ty.to_i(*c)))),
                    Sc::T(t) => Ok(self.map1(st, t, |v| ty.wrap(-ty.to_i(v)))),
                    _ => { let l = self.to_lin(st, a, ty)?; let l = self.lin_scale(&l, -1, 1); Ok(self.from_lin(st, l, ty)) }
                }
            }
            _ => fail(format!("unop {}", op)),
        }
    }

    pub fn cast(&mut self, st: &Rc<Doms>, a: &Sc, from: ITy, to: ITy) -> R<Sc> {
        let a = &self.resimp(st, a);
        match (from.float, to.float) {
            (false, false) => match a {
                Sc::C(c) => Ok(Sc::C(to.wrap(from.to_i(*c)))),
                Sc::T(t) => Ok(self.map1(st, t, |v| to.wrap(from.to_i(v)))),
                Sc::B(b) => {
                    let top_known = {
                        let tot: u32 = b.iter().map(|s| s.len as u32).sum();
                        if !from.signed || to.bits <= tot { true } else {
                            match &b.last().unwrap().k { SegK::C(c) => (c >> (b.last().unwrap().len - 1)) & 1 == 0, _ => false }
                        }
                    };
                    if top_known {
                        let s = self.to_segs(st, a, to.bits).unwrap();
                        return Ok(self.norm_segs(st, s, to.bits));
                    }
                    Ok(self.opaque("cast", vec![a.clone()], to))
                }
                Sc::L(l) => {
                    let (lo, hi) = self.interval(st, l);
                    if lo.map_or(false, |x| x >= to.min()) && hi.map_or(false, |x| x <= to.max()) { return Ok(a.clone()); }
                    if !from.signed && !to.signed {
                        if let Some(s) = self.to_segs(st, a, to.bits) { return Ok(self.norm_segs(st, s, to.bits)); }
                    }
                    Ok(self.opaque("cast", vec![a.clone()], to))
                }
            },
            (false, true) => match a {
                Sc::C(c) => Ok(Sc::C(fb(from.to_i(*c) as f64))),
                _ if self.ft.on => self.f_from_int(st, a, from),
                _ => match self.to_lin(st, a, from) {
                    Ok(l) => {
                        let (lo, hi) = self.interval(st, &l);
                        if lo.map_or(false, |x| x >= -(1 << 53)) && hi.map_or(false, |x| x <= 1 << 53) { return Ok(self.from_lin(st, l, to)); }
                        Ok(self.opaque("i2f", vec![a.clone()], to))
                    }
                    Err(_) => Ok(self.opaque("i2f", vec![a.clone()], to)),
                },
            },
            (true, false) => match a {
                Sc::C(c) => {
                    let v = f(*c);
                    let r = if v.is_nan() { 0 } else if v <= to.min() as f64 { to.min() } else if v >= to.max() as f64 { to.max() } else { v as i128 };
                    Ok(Sc::C(to.wrap(r)))
                }
                _ => {
                    let l = self.to_lin(st, a, F64)?;
                    if self.real_floats() { if let Some(r) = self.towards_zero(st, &l, 0)? { return Ok(self.from_lin(st, r, to)); } }
                    if self.has_opaque_float(&l) || l.unb.iter().any(|(u, _)| !self.usyms[*u as usize].is_int) { return Ok(self.opaque("f2i", vec![a.clone()], to)); }
                    if l.den == 1 {
                        let (lo, hi) = self.interval(st, &l);
                        if lo.map_or(false, |x| x >= to.min()) && hi.map_or(false, |x| x <= to.max()) { return Ok(self.from_lin(st, l, to)); }
                        return Ok(self.opaque("f2i", vec![a.clone()], to));
                    }
                    // truncation towards zero of n/den
                    let n = Lin { den: 1, ..l.clone() };
                    let (lo, hi) = self.interval(st, &n);
                    if lo.map_or(false, |x| x >= 0) {
                        if let Some((q, _)) = self.div_lin(st, &n, l.den) { return Ok(self.from_lin(st, q, to)); }
                    } else if hi.map_or(false, |x| x <= 0) {
                        let m = self.lin_scale(&n, -1, 1);
                        if let Some((q, _)) = self.div_lin(st, &m, l.den) { let q = self.lin_scale(&q, -1, 1); return Ok(self.from_lin(st, q, to)); }
                    } else {
                        let s = self.lin_ge(st, n, false);
                        if let Sc::T(t) = s { return Err(Stop::Split(t)); }
                    }
                    Ok(self.opaque("f2i", vec![a.clone()], to))
                }
            },
            (true, true) => if from.bits == to.bits { Ok(a.clone()) } else { Ok(self.opaque("f2f", vec![a.clone()], to)) },
        }
    }

    /// floor of a real linear form whose fractional part stays within a few units
    pub fn floor_lin(&mut self, st: &Rc<Doms>, l: &Lin) -> R<Option<Lin>> {
        let d = l.den;
        let mut q = Dom::lin_const(l.c.div_euclid(d));
        let mut r = Lin { den: 1, c: l.c.rem_euclid(d), tabs: vec![], unb: vec![] };
        for (s, t) in &l.tabs {
            q.tabs.push((s.clone(), Rc::new(t.iter().map(|v| v.div_euclid(d)).collect())));
            r.tabs.push((s.clone(), Rc::new(t.iter().map(|v| v.rem_euclid(d)).collect())));
        }
        for (u, k) in &l.unb { if self.usyms[*u as usize].is_int && k % d == 0 { q.unb.push((*u, k / d)); } else { r.unb.push((*u, *k)); } }
        let q = self.lin_norm(st, q);
        let r = self.lin_norm(st, r);
        let (lo, hi) = match self.interval(st, &r) { (Some(a), Some(b)) => (a.div_euclid(d), b.div_euclid(d)), _ => return Ok(None) };
        if hi - lo > 8 { return Ok(None); }
        for v in (lo..=hi).rev() {
            let mut x = q.clone();
            x.c += v;
            if v == lo { return Ok(Some(x)); }
            let mut t = r.clone();
            t.c -= v * d;
            match self.lin_ge(st, t, false) { Sc::C(1) => return Ok(Some(x)), Sc::T(t) => return Err(Stop::Split(t)), _ => {} }
        }
        Ok(None)
    }
    /// truncation (add = 0) or rounding half away from zero (add = 1/2) of a real form
    pub fn towards_zero(&mut self, st: &Rc<Doms>, l: &Lin, half: i128) -> R<Option<Lin>> {
        if l.den == 1 && l.unb.iter().all(|(u, _)| self.usyms[*u as usize].is_int) { return Ok(Some(l.clone())); }
        let g = self.lin_ge(st, Lin { den: 1, ..l.clone() }, false);
        let h = Lin { den: 2, c: half, tabs: vec![], unb: vec![] };
        match g {
            Sc::C(1) => { let x = self.lin_add(st, l, &h)?; self.floor_lin(st, &x) }
            Sc::C(_) => { let n = self.lin_scale(l, -1, 1); let x = self.lin_add(st, &n, &h)?; Ok(self.floor_lin(st, &x)?.map(|f| self.lin_scale(&f, -1, 1))) }
            Sc::T(t) => Err(Stop::Split(t)),
            _ => Ok(None),
        }
    }

    /// f64::round (half away from zero) of a rational linear form
    pub fn round(&mut self, st: &Rc<Doms>, a: &Sc) -> R<Sc> {
        if let Sc::C(c) = a { return Ok(Sc::C(fb(f(*c).round()))); }
        let l = self.to_lin(st, a, F64)?;
        if self.real_floats() { if let Some(r) = self.towards_zero(st, &l, 1)? { return Ok(self.from_lin(st, r, F64)); } }
        if self.has_opaque_float(&l) { return Ok(self.opaque("round", vec![a.clone()], F64)); }
        if l.den == 1 { return Ok(a.clone()); }
        if l.den % 2 == 0 { return Ok(self.opaque("round", vec![a.clone()], F64)); }
        // odd denominator: no ties; nearest = floor((2n + den) / (2 den))
        let d = l.den;
        let half = (d - 1) / 2;
        // centred decomposition of every component
        let cq = |v: i128| (v + half).div_euclid(d);
        let mut q = Dom::lin_const(cq(l.c));
        let mut r = Dom::lin_const(l.c - d * cq(l.c));
        for (s, t) in &l.tabs {
            q.tabs.push((s.clone(), Rc::new(t.iter().map(|v| cq(*v)).collect())));
            r.tabs.push((s.clone(), Rc::new(t.iter().map(|v| v - d * cq(*v)).collect())));
        }
        for (u, k) in &l.unb {
            let x = cq(*k);
            q.unb.push((*u, x));
            if k - d * x != 0 { r.unb.push((*u, k - d * x)); }
        }
        let q = self.lin_norm(st, q);
        let r = self.lin_norm(st, r);
        let (lo, hi) = self.interval(st, &r);
        if lo.map_or(false, |x| x >= -half) && hi.map_or(false, |x| x <= half) { return Ok(self.from_lin(st, q, F64)); }
        if r.unb.is_empty() {
            let mut sup: Vec<Sym> = vec![];
            for (s, _) in &r.tabs { sup = union_sup(&sup, s); }
            if sup.len() <= KSUP && self.prod(&sup) <= MAXTAB {
                let dt = self.lin_table(&r, &sup);
                let t = Lin { den: 1, c: 0, tabs: vec![(sup, Rc::new(dt.iter().map(|v| cq(*v)).collect()))], unb: vec![] };
                let t = self.lin_norm(st, t);
                let q2 = self.lin_add(st, &q, &t)?;
                return Ok(self.from_lin(st, q2, F64));
            }
        }
        // remaining integer symbols in the residue: leave uninterpreted
        Ok(self.opaque("round", vec![a.clone()], F64))
    }
}
