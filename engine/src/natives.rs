// Models of the standard-library pieces whose bodies are not analysed
// (heap-backed collections, iterators over raw pointers, float intrinsics).
use crate::dom::*;
use crate::interp::*;
use crate::ir::*;
use crate::ops::F64;
use std::rc::Rc;

fn strip(def: &str) -> String {
    // drop generic parameters and normalise crate names
    let mut out = String::new();
    let mut depth = 0;
    let b: Vec<char> = def.chars().collect();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == '<' && i >= 2 && b[i - 1] == ':' && b[i - 2] == ':' { depth += 1; i += 1; continue; }
        if depth > 0 {
            if c == '<' { depth += 1 }
            if c == '>' && b[i - 1] != '-' { depth -= 1; if depth == 0 { // remove the trailing ::
                while out.ends_with(':') { out.pop(); } } }
            i += 1;
            continue;
        }
        out.push(c);
        i += 1;
    }
    out.replace("core::", "std::").replace("alloc::", "std::")
}

impl<'p> Interp<'p> {
    fn opt_none(&self) -> V { venum(0, 2, vec![]) }
    fn opt_some(&self, v: V) -> V { venum(1, 2, vec![v]) }

    pub fn deref(&mut self, st: &St, v: &V) -> R<V> {
        match v { V::Ptr(p) => self.read(st, p.base, &p.path), _ => fail("native: not a pointer") }
    }
    pub fn store(&mut self, st: &mut St, v: &V, x: V) -> R<()> {
        match v { V::Ptr(p) => { let p = p.clone(); self.write(st, p.base, &p.path, x) } _ => fail("native: not a pointer") }
    }
    pub fn usz(&mut self, st: &St, v: &V) -> R<usize> {
        match v {
            V::S(s, _) => match self.d.resimp(&st.doms, s) { Sc::C(c) => Ok(c as usize), Sc::T(t) => Err(Stop::Split(t)), _ => fail("native: unbounded size") },
            _ => fail("native: size"),
        }
    }
    fn scal(&self, v: &V) -> R<Sc> { match v { V::S(s, _) => Ok(s.clone()), _ => fail("native: scalar") } }

    /// index into a sequence value, with bounds check
    fn index(&mut self, st: &St, f: FnId, base: &V, i: &V, len: usize) -> R<Option<Vec<(St, V)>>> {
        let q = match base { V::Ptr(p) => p.clone(), _ => return fail("native index base") };
        let s = match i {
            V::S(s, _) => self.d.resimp(&st.doms, s),
            V::Agg(_) | V::Enum(..) => return fail("native index by range"),
            _ => return fail("native index"),
        };
        let inb = self.d.cmp(&st.doms, "Lt", &s, &Sc::C(len as u128), ITy::U64)?;
        match inb {
            Sc::C(1) => {
                let mut q2 = q.as_ref().clone();
                self.push_ix(&st.doms, &mut q2.path, &s)?;
                q2.meta = None;
                Ok(Some(vec![(st.clone(), V::Ptr(Rc::new(q2)))]))
            }
            Sc::C(_) => { self.panic_at(f, "BoundsCheck".into(), st.doms.clone()); Ok(Some(vec![])) }
            Sc::T(t) => Err(Stop::Split(t)),
            _ => fail("native bounds"),
        }
    }
    /// a range value as (start, end)
    fn range(&mut self, st: &St, v: &V, ty: TyId, len: usize) -> R<(usize, usize)> {
        let p = self.p;
        let name = match &p.types[ty as usize].kind { TypeKind::Adt { name, .. } => name.rsplit("::").next().unwrap().to_string(), _ => return fail("range type") };
        let a = match v { V::Agg(a) => a.clone(), _ => return fail("range value") };
        Ok(match (name.as_str(), a.len()) {
            ("Range", 2) => (self.usz(st, &a[0])?, self.usz(st, &a[1])?),
            ("RangeInclusive", _) => (self.usz(st, &a[0])?, self.usz(st, &a[1])? + 1),
            ("RangeFrom", 1) => (self.usz(st, &a[0])?, len),
            ("RangeTo", 1) => (0, self.usz(st, &a[0])?),
            ("RangeToInclusive", 1) => (0, self.usz(st, &a[0])? + 1),
            ("RangeFull", _) => (0, len),
            _ => return fail(format!("range {}", name)),
        })
    }
    /// elements behind a pointer to a sequence
    fn seq(&mut self, st: &St, v: &V) -> R<Vec<V>> {
        let q = match v { V::Ptr(q) => q.clone(), _ => return fail("sequence pointer") };
        let mut path = q.path.clone();
        let mut off = 0usize;
        if let Some(PE::Sub(s)) = path.last().cloned() {
            off = self.usz(st, &V::S(s, ITy::U64))?;
            path.pop();
        }
        let a = match self.read(st, q.base, &path)? { V::Agg(a) | V::Vec(a) => a, _ => return fail("sequence") };
        let n = match &q.meta { Some(m) => self.usz(st, &m.clone())?, None => a.len() - off };
        if off + n > a.len() { return fail("sequence length"); }
        Ok(a[off..off + n].to_vec())
    }
    fn elem(&mut self, st: &St, q: &Ptr, k: usize) -> R<V> {
        let mut e = q.clone();
        self.push_ix(&st.doms, &mut e.path, &Sc::C(k as u128))?;
        e.meta = None;
        Ok(V::Ptr(Rc::new(e)))
    }
    /// copy n elements from one pointer to another (typed, elements or whole values)
    pub fn copy_seq(&mut self, st: &mut St, a: &V, b: &V, n: usize) -> R<()> {
        let (p, q) = match (a, b) { (V::Ptr(p), V::Ptr(q)) => (p.clone(), q.clone()), _ => return fail("copy") };
        let mut vals = vec![];
        for k in 0..n {
            let e = self.ptr_offset(&st.doms.clone(), &p, &Sc::C(k as u128), false)?;
            vals.push(self.deref(st, &e)?);
        }
        for (k, v) in vals.into_iter().enumerate() {
            let e = self.ptr_offset(&st.doms.clone(), &q, &Sc::C(k as u128), false)?;
            self.store(st, &e, v)?;
        }
        Ok(())
    }
    fn ptr_diff(&mut self, st: &Rc<Doms>, x: &Ptr, y: &Ptr) -> R<Sc> {
        let sp = |p: &Ptr| match p.path.last() { Some(PE::Index(i)) | Some(PE::Sub(i)) => (p.path[..p.path.len() - 1].to_vec(), i.clone()), _ => (p.path.clone(), Sc::C(0)) };
        let ((a, i), (b, j)) = (sp(x), sp(y));
        if x.base != y.base || a != b { return fail("difference of unrelated pointers"); }
        Ok(self.d.binop(st, "Sub", &i, &j, ITy::U64, ITy::U64, false)?.0)
    }
    /// order of two plain values
    fn order(&mut self, st: &St, a: &V, b: &V) -> R<std::cmp::Ordering> {
        use std::cmp::Ordering::*;
        match (a, b) {
            (V::S(x, t), V::S(y, _)) => {
                for (op, r) in [("Eq", Equal), ("Lt", Less)] {
                    match self.d.cmp(&st.doms, op, x, y, *t)? { Sc::C(1) => return Ok(r), Sc::C(_) => {}, Sc::T(t) => return Err(Stop::Split(t)), _ => return fail("order") }
                }
                Ok(Greater)
            }
            (V::Agg(x), V::Agg(y)) if x.len() == y.len() => {
                for (u, v) in x.iter().zip(y.iter()) { let o = self.order(st, u, v)?; if o != Equal { return Ok(o); } }
                Ok(Equal)
            }
            _ => fail("order of values"),
        }
    }
    /// call a closure value (by reference or by value) with arguments
    fn call_clo(&mut self, st: St, cty: TyId, clo: &V, args: Vec<V>) -> R<Vec<(St, V)>> {
        let cf = self.closure_fn(cty)?;
        if !self.p.funcs[cf as usize].def.contains("{closure#") { return self.run_fn(st, cf, args); }
        let by_ref = self.p.funcs[cf as usize].body.as_ref().map_or(false, |b| matches!(self.p.types[b.locals[1] as usize].kind, TypeKind::Ref { .. }));
        let mut a = vec![];
        if by_ref == matches!(clo, V::Ptr(_)) { a.push(clo.clone()); }
        else if by_ref { return fail("closure by reference"); }
        else { a.push(self.deref(&st, clo)?); }
        a.extend(args);
        self.run_fn(st, cf, a)
    }
    /// a closure in memory, so that it can be called by reference
    fn hold(&self, st: &mut St, clo: &V) -> V { if let V::Ptr(_) = clo { clo.clone() } else { st.alloc(clo.clone()) } }
    /// all items of an iterator, by repeatedly calling its `next`
    fn drain_iter(&mut self, st: &St, aux: &[FnId], it: V) -> R<Vec<(St, Vec<V>)>> {
        let (into, next) = match aux { [a, b] => (*a, *b), _ => return fail("iterator without next") };
        let mut work = vec![];
        for (mut s, v) in self.run_fn(st.clone(), into, vec![it])? {
            let h = s.alloc(v);
            work.push((s, h, vec![]));
        }
        let mut done = vec![];
        let mut n = 0;
        while let Some((s, h, acc)) = work.pop() {
            n += 1;
            if n > 100_000 { return fail("endless iterator"); }
            for (s2, r) in self.run_fn(s, next, vec![h.clone()])? {
                let (i, pay) = match &r { V::Enum(i, p) if p.len() == 2 => (self.d.resimp(&s2.doms, i), p.clone()), _ => return fail("iterator item") };
                let parts = match i { Sc::C(c) => vec![(c, s2.doms.clone())], Sc::T(t) => self.partition(&s2.doms, &t)?, _ => return fail("iterator item") };
                for (c, d) in parts {
                    let mut s3 = s2.with(d);
                    if c == 0 { self.store(&mut s3, &h, V::Uninit)?; done.push((s3, acc.clone())); }
                    else { let mut a: Vec<V> = acc.clone(); a.push(pay[1].as_ref().map_or(V::Uninit, |x| x[0].clone())); work.push((s3, h.clone(), a)); }
                }
            }
        }
        Ok(done)
    }
    fn closure_fn(&mut self, ty: TyId) -> R<FnId> {
        match &self.p.types[ty as usize].kind {
            TypeKind::Closure { name, .. } => {
                if self.closures.is_empty() {
                    for (i, f) in self.p.funcs.iter().enumerate() {
                        if let (Some(b), true) = (&f.body, f.def.ends_with('}') && f.def.contains("{closure#")) {
                            let mut t = b.locals[1];
                            if b.arg_count == 0 { continue; }
                            if let TypeKind::Ref { ty, .. } = &self.p.types[t as usize].kind { t = *ty; }
                            self.closures.entry(t).or_insert(i as FnId);
                        }
                    }
                }
                match self.closures.get(&ty) { Some(f) => Ok(*f), None => fail(format!("closure body {}", name)) }
            }
            TypeKind::FnDef { func: Some(f), .. } => Ok(*f),
            _ => fail("callable type"),
        }
    }

    pub fn native(&mut self, st: &St, f: FnId, args: &[V]) -> R<Option<Vec<(St, V)>>> {
        let p = self.p;
        let func = &p.funcs[f as usize];
        if func.local { return Ok(None); }
        let unit = || vagg(vec![]);
        let one = |s: &St, v: V| Ok(Some(vec![(s.clone(), v)]));
        if let Some(i) = &func.intrinsic {
            match i.as_str() {
                "cold_path" | "assert_inhabited" | "assume" => return one(st, unit()),
                "is_val_statically_known" => return one(st, vc(0, ITy::BOOL)),
                "likely" | "unlikely" | "black_box" => return one(st, args[0].clone()),
                "bswap" | "bitreverse" => {
                    if let V::S(s, t) = &args[0] {
                        let s = self.d.resimp(&st.doms, s);
                        let n = t.bits;
                        let g = |v: u128| -> u128 { if i == "bswap" { v.swap_bytes() >> (128 - n) } else { v.reverse_bits() >> (128 - n) } };
                        let r = match &s { Sc::C(c) => Sc::C(g(*c)), Sc::T(t) => self.d.map1(&st.doms, t, g), _ => return fail("byte swap") };
                        return one(st, V::S(r, *t));
                    }
                    return fail("bswap");
                }
                "ctlz" | "ctlz_nonzero" | "cttz" | "cttz_nonzero" | "ctpop" => {
                    if let V::S(s, t) = &args[0] {
                        let s = self.d.resimp(&st.doms, s);
                        let g = |v: u128| -> u128 {
                            match i.as_str() {
                                "ctpop" => v.count_ones() as u128,
                                "ctlz" | "ctlz_nonzero" => (t.bits - (128 - v.leading_zeros())) as u128,
                                _ => if v == 0 { t.bits as u128 } else { v.trailing_zeros() as u128 },
                            }
                        };
                        let u32t = ITy { bits: 32, signed: false, float: false };
                        let r = match &s { Sc::C(c) => Sc::C(g(*c)), Sc::T(t) => self.d.map1(&st.doms, t, g), _ => self.d.opaque(i, vec![s.clone()], u32t) };
                        return one(st, V::S(r, u32t));
                    }
                    return fail("ctlz");
                }
                "integer_min" | "integer_max" | "saturating_add" | "saturating_sub" | "three_way_compare" | "rotate_left" | "rotate_right" | "disjoint_bitor" => {
                    if let (V::S(a, ta), V::S(b, tb)) = (&args[0], &args[1]) {
                        let (a, b, ta, tb) = (self.d.resimp(&st.doms, a), self.d.resimp(&st.doms, b), *ta, *tb);
                        let tables = matches!(a, Sc::C(_) | Sc::T(_)) && matches!(b, Sc::C(_) | Sc::T(_));
                        return match i.as_str() {
                            "integer_min" | "integer_max" => {
                                let mx = i.ends_with("max");
                                if tables {
                                    if let Ok(r) = self.d.map2(&st.doms, &a, &b, |x, y| if (ta.to_i(x) < ta.to_i(y)) != mx { x } else { y }) { return one(st, V::S(r, ta)); }
                                }
                                match self.d.cmp(&st.doms, "Lt", &a, &b, ta)? { Sc::C(c) => one(st, V::S(if (c == 1) != mx { a } else { b }, ta)), Sc::T(t) => Err(Stop::Split(t)), _ => fail("min/max") }
                            }
                            "saturating_add" | "saturating_sub" => {
                                let op = if i.ends_with("add") { "Add" } else { "Sub" };
                                let (r, ov) = self.d.binop(&st.doms, op, &a, &b, ta, tb, true)?;
                                match ov.unwrap_or(Sc::C(0)) {
                                    Sc::C(0) => one(st, V::S(r, ta)),
                                    Sc::C(_) => {
                                        let neg = if ta.signed { match self.d.cmp(&st.doms, "Lt", &b, &Sc::C(0), tb)? { Sc::C(c) => (c == 1) == (op == "Add"), Sc::T(t) => return Err(Stop::Split(t)), _ => return fail("saturating") } } else { op == "Sub" };
                                        let m = if neg { if ta.signed { 1u128 << (ta.bits - 1) } else { 0 } } else if ta.signed { ta.mask() >> 1 } else { ta.mask() };
                                        one(st, V::S(Sc::C(m), ta))
                                    }
                                    Sc::T(t) => Err(Stop::Split(t)),
                                    _ => fail("saturating"),
                                }
                            }
                            "three_way_compare" => {
                                let lt = self.d.cmp(&st.doms, "Lt", &a, &b, ta)?;
                                let eq = self.d.cmp(&st.doms, "Eq", &a, &b, ta)?;
                                let s = self.d.map2(&st.doms, &lt, &eq, |l, e| if l == 1 { 0 } else if e == 1 { 1 } else { 2 })?;
                                let u = Some(Rc::new(vec![]));
                                one(st, V::Enum(s, Rc::new(vec![u.clone(), u.clone(), u])))
                            }
                            "disjoint_bitor" => { let r = self.d.binop(&st.doms, "BitOr", &a, &b, ta, tb, false)?.0; one(st, V::S(r, ta)) }
                            _ => {
                                let n = match &b { Sc::C(c) => (*c as u32) % ta.bits, Sc::T(t) => return Err(Stop::Split(t.clone())), _ => return fail("rotate") };
                                let n = if i.ends_with("right") { (ta.bits - n) % ta.bits } else { n };
                                if n == 0 { return one(st, V::S(a, ta)); }
                                let u = ITy { bits: ta.bits, signed: false, float: false };
                                let h = self.d.binop(&st.doms, "Shl", &a, &Sc::C(n as u128), u, ITy::U64, false)?.0;
                                let l = self.d.binop(&st.doms, "Shr", &a, &Sc::C((ta.bits - n) as u128), u, ITy::U64, false)?.0;
                                let r = self.d.binop(&st.doms, "BitOr", &h, &l, u, u, false)?.0;
                                one(st, V::S(r, ta))
                            }
                        };
                    }
                    return fail(format!("intrinsic {}", i));
                }
                "typed_swap_nonoverlapping" => {
                    let (x, y) = (self.deref(st, &args[0])?, self.deref(st, &args[1])?);
                    let mut s = st.clone();
                    self.store(&mut s, &args[0], y)?;
                    self.store(&mut s, &args[1], x)?;
                    return one(&s, unit());
                }
                "select_unpredictable" => {
                    let b = self.scal(&args[0])?;
                    return match self.d.resimp(&st.doms, &b) { Sc::C(c) => one(st, args[if c == 1 { 1 } else { 2 }].clone()), Sc::T(t) => Err(Stop::Split(t)), _ => fail("select") };
                }
                "ptr_offset_from" | "ptr_offset_from_unsigned" => {
                    if let (V::Ptr(x), V::Ptr(y)) = (&args[0], &args[1]) {
                        let s = self.ptr_diff(&st.doms, x, y)?;
                        return one(st, V::S(s, ITy { bits: 64, signed: !i.ends_with("unsigned"), float: false }));
                    }
                    return fail("pointer difference");
                }
                "offset" | "arith_offset" => {
                    if let (V::Ptr(x), V::S(n, _)) = (&args[0], &args[1]) { let r = self.ptr_offset(&st.doms, x, n, false)?; return one(st, r); }
                    return fail("pointer offset");
                }
                "read_via_copy" | "volatile_load" | "typed_swap" => { let v = self.deref(st, &args[0])?; return one(st, v); }
                "write_via_move" => { let mut s = st.clone(); self.store(&mut s, &args[0], args[1].clone())?; return one(&s, unit()); }
                "copy" | "copy_nonoverlapping" => { let n = self.usz(st, &args[2])?; let mut s = st.clone(); self.copy_seq(&mut s, &args[0], &args[1], n)?; return one(&s, unit()); }
                "discriminant_value" => {
                    let v = self.deref(st, &args[0])?;
                    let r = self.discr(&st.doms, &v, func.targs[0])?;
                    return one(st, r);
                }
                "round" | "roundf64" => { let s = self.scal(&args[0])?; let s = self.d.resimp(&st.doms, &s); let r = self.d.round(&st.doms, &s)?; return one(st, V::S(r, F64)); }
                "fabs" => {
                    let s = self.scal(&args[0])?;
                    let s = self.d.resimp(&st.doms, &s);
                    if let Sc::C(c) = s { return one(st, V::S(Sc::C(c & !(1u128 << 63)), F64)); }
                    if let Ok(l) = self.d.to_lin(&st.doms, &s, F64) {
                        if self.d.real_floats() || l.unb.iter().all(|(u, _)| self.d.usyms[*u as usize].is_int) {
                            let g = self.d.lin_ge(&st.doms, l.clone(), false);
                            match g {
                                Sc::C(1) => return one(st, V::S(s, F64)),
                                Sc::C(_) => { let n = self.d.unop(&st.doms, "Neg", &s, F64)?; return one(st, V::S(n, F64)); }
                                Sc::T(t) => return Err(Stop::Split(t)),
                                _ => {}
                            }
                        }
                    }
                    let r = self.d.opaque("fabs", vec![s], F64);
                    return one(st, V::S(r, F64));
                }
                "sqrt" | "sqrtf64" | "cos" | "cosf64" | "sin" | "sinf64" | "floor" | "ceil" | "trunc" => {
                    let s = self.scal(&args[0])?;
                    if let Sc::C(c) = s {
                        let x = f64::from_bits(c as u64);
                        let r = match i.trim_end_matches("f64") { "floor" => Some(x.floor()), "ceil" => Some(x.ceil()), "trunc" => Some(x.trunc()), _ => None };
                        if let Some(r) = r { return one(st, V::S(Sc::C(r.to_bits() as u128), F64)); }
                        if i.starts_with("sqrt") { return one(st, V::S(Sc::C(f64::from_bits(c as u64).sqrt().to_bits() as u128), F64)); }
                    }
                    if self.d.real_floats() && matches!(i.trim_end_matches("f64"), "floor" | "ceil" | "trunc") {
                        let s = self.d.resimp(&st.doms, &s);
                        let l = self.d.to_lin(&st.doms, &s, F64)?;
                        let r = match i.trim_end_matches("f64") {
                            "floor" => self.d.floor_lin(&st.doms, &l)?,
                            "ceil" => { let n = self.d.lin_scale(&l, -1, 1); self.d.floor_lin(&st.doms, &n)?.map(|f| self.d.lin_scale(&f, -1, 1)) }
                            _ => self.d.towards_zero(&st.doms, &l, 0)?,
                        };
                        if let Some(r) = r { let r = self.d.from_lin(&st.doms, r, F64); return one(st, V::S(r, F64)); }
                    }
                    let r = self.d.opaque(i.trim_end_matches("f64"), vec![s], F64);
                    return one(st, V::S(r, F64));
                }
                _ if self.ity(func.output).map_or(false, |t| t.float) => {
                    // other float intrinsics: uninterpreted
                    let mut a = vec![];
                    for x in args { let s = self.scal(x)?; a.push(self.d.resimp(&st.doms, &s)); }
                    if let ([Sc::C(x), Sc::C(n)], "powi" | "powif64") = (&a[..], i.as_str()) { return one(st, V::S(Sc::C(f64::from_bits(*x as u64).powi(*n as u32 as i32).to_bits() as u128), F64)); }
                    if let ([Sc::C(x), Sc::C(y), Sc::C(z)], "fma" | "fmaf64") = (&a[..], i.as_str()) { return one(st, V::S(Sc::C(f64::from_bits(*x as u64).mul_add(f64::from_bits(*y as u64), f64::from_bits(*z as u64)).to_bits() as u128), F64)); }
                    if let [Sc::C(x), Sc::C(y)] = &a[..] {
                        let (x, y) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64));
                        let r = match i.as_str() { s if s.starts_with("maximum_number") || s.starts_with("maxnum") => Some(x.max(y)), s if s.starts_with("minimum_number") || s.starts_with("minnum") => Some(x.min(y)), s if s.starts_with("copysign") => Some(x.copysign(y)), _ => None };
                        if let Some(r) = r { return one(st, V::S(Sc::C(r.to_bits() as u128), F64)); }
                    }
                    let t = self.ity(func.output).unwrap_or(F64);
                    let r = self.d.opaque(i.trim_end_matches("f64").trim_end_matches('_'), a, t);
                    return one(st, V::S(r, t));
                }
                "wrapping_add" | "wrapping_sub" | "wrapping_mul" | "add_with_overflow" | "sub_with_overflow" | "mul_with_overflow"
                | "unchecked_add" | "unchecked_sub" | "unchecked_mul" | "unchecked_shl" | "unchecked_shr" | "unchecked_div" | "unchecked_rem" => {
                    if let (V::S(a, ta), V::S(b, tb)) = (&args[0], &args[1]) {
                        let nm = if i.contains("add") { "Add" } else if i.contains("sub") { "Sub" } else if i.contains("mul") { "Mul" } else if i.contains("shl") { "Shl" } else if i.contains("shr") { "Shr" } else if i.contains("div") { "Div" } else { "Rem" };
                        let chk = i.contains("with_overflow") || i.starts_with("unchecked");
                        let (r, ov) = self.d.binop(&st.doms, nm, a, b, *ta, *tb, chk)?;
                        if i.contains("with_overflow") { return one(st, vagg(vec![V::S(r, *ta), V::S(ov.unwrap_or(Sc::C(0)), ITy::BOOL)])); }
                        return one(st, V::S(r, *ta));
                    }
                    return fail("intrinsic arithmetic");
                }
                _ => { if func.body.is_none() { return fail(format!("intrinsic {}", i)); } }
            }
            if func.body.is_some() { return fail(format!("intrinsic {}", i)); }
        }
        let d = strip(&func.def);
        let d = d.as_str();
        if d.ends_with("precondition_check") { return one(st, unit()); }
        let last_t = func.targs.last().cloned();
        let meth = d.rsplit("::").next().unwrap();
        // ---- boxes ----
        match d {
            "std::boxed::Box::new_uninit" | "std::boxed::box_new_uninit" => { let mut s = st.clone(); let h = s.alloc(V::Uninit); return one(&s, h); }
            "std::boxed::Box::new" | "std::boxed::box_new" => { let mut s = st.clone(); let h = s.alloc(args[0].clone()); return one(&s, h); }
            "std::boxed::Box::assume_init" | "std::boxed::Box::write" | "std::boxed::Box::into_raw" | "std::boxed::Box::from_raw" | "std::boxed::Box::into_boxed_slice" if meth != "write" => return one(st, args[0].clone()),
            "std::slice::into_vec" | "std::slice::hack::into_vec" | "std::boxed::box_assume_init_into_vec_unsafe" | "<std::vec::Vec<T> as std::convert::From<std::boxed::Box<[T]>>>::from" | "<std::vec::Vec<T, A> as std::convert::From<std::boxed::Box<[T], A>>>::from" => {
                if let V::Ptr(q) = &args[0] {
                    let mut q2 = q.as_ref().clone();
                    q2.meta = None;
                    let mut v = self.read(st, q2.base, &q2.path)?;
                    if let Some(t) = func.inputs.first().and_then(|t| if let TypeKind::Adt { args, .. } = &p.types[*t as usize].kind { args.first() } else { None }) {
                        // MaybeUninit around the array
                        let arr = func.targs.first().cloned();
                        if let (TypeKind::Adt { name, .. }, Some(e)) = (&p.types[*t as usize].kind, arr) {
                            if name.contains("MaybeUninit") {
                                let a = p.types.iter().position(|x| matches!(&x.kind, TypeKind::Array(y, _) if *y == e) && x.size == p.types[*t as usize].size);
                                match a { Some(a) => v = self.reshape(&st.doms, v, *t, a as TyId)?, None => return fail("boxed array") }
                            }
                        }
                    }
                    let mut s = st.clone();
                    self.store(&mut s, &V::Ptr(Rc::new(q2)), V::Uninit)?;
                    if let V::Agg(a) = v { return one(&s, V::Vec(a)); }
                }
                return fail("into_vec");
            }
            _ => {}
        }
        // ---- vectors ----
        let is_vec = d.starts_with("std::vec::Vec::") || d.starts_with("<std::vec::Vec<T") || d.starts_with("<&'a std::vec::Vec<T") || d.starts_with("<&'a mut std::vec::Vec<T") || d.starts_with("std::slice::to_vec") || d.starts_with("std::vec::from_elem");
        if is_vec {
            match d {
                "std::vec::Vec::new" | "std::vec::Vec::with_capacity" | "std::vec::Vec::with_capacity_in" | "std::vec::Vec::new_in" | "<std::vec::Vec<T> as std::default::Default>::default" => return one(st, V::Vec(Rc::new(vec![]))),
                "std::vec::Vec::reserve_exact" | "std::vec::Vec::reserve" | "std::vec::Vec::shrink_to_fit" => return one(st, unit()),
                "std::vec::from_elem" | "std::vec::from_elem_in" => {
                    let n = self.usz(st, &args[1])?;
                    if n > 100_000 { return fail("Vec too long"); }
                    return one(st, V::Vec(Rc::new(vec![args[0].clone(); n])));
                }
                "<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter" => { if let V::Vec(a) = &args[0] { return one(st, V::It(Rc::new(It::Own(a.clone())))); } return fail("into_iter"); }
                "std::vec::Vec::into_boxed_slice" => { if let V::Vec(a) = &args[0] { let mut s = st.clone(); let n = a.len(); let h = s.alloc(V::Agg(a.clone())); if let V::Ptr(q) = h { let mut q = q.as_ref().clone(); q.meta = Some(vc(n as i128, ITy::U64)); return one(&s, V::Ptr(Rc::new(q))); } } return fail("into_boxed_slice"); }
                _ => {}
            }
            if d.contains("FromIterator<T>>::from_iter") {
                if let V::It(it) = &args[0] { if let It::Own(items) = it.as_ref() { return one(st, V::Vec(items.clone())); } }
                let r = self.drain_iter(st, &func.aux, args[0].clone())?;
                return Ok(Some(r.into_iter().map(|(s, v)| (s, V::Vec(Rc::new(v)))).collect()));
            }
            if d.contains("std::convert::From<[T; N]>>::from") || d.contains("std::convert::From<&") {
                if let V::Agg(a) = &args[0] { return one(st, V::Vec(a.clone())); }
                let v = self.seq(st, &args[0])?;
                return one(st, V::Vec(Rc::new(v)));
            }
            if d.starts_with("std::slice::to_vec") { let v = self.seq(st, &args[0])?; return one(st, V::Vec(Rc::new(v))); }
            // methods on &self / &mut self
            let v = match args.first() { Some(p @ V::Ptr(_)) => self.deref(st, p)?, _ => return fail(format!("vector function {}", d)) };
            let mut a: Vec<V> = match &v { V::Vec(a) => a.to_vec(), _ => return fail(format!("vector function {} on {}", d, self.showv(&v))) };
            let q = if let V::Ptr(q) = &args[0] { q.as_ref().clone() } else { unreachable!() };
            let n = a.len();
            let caller = *self.stack.last().unwrap_or(&f);
            let mut put = |me: &mut Self, s: &St, a: Vec<V>, r: V| -> R<Option<Vec<(St, V)>>> {
                let mut s = s.clone();
                me.store(&mut s, &args[0], V::Vec(Rc::new(a)))?;
                Ok(Some(vec![(s, r)]))
            };
            match meth {
                "len" => return one(st, vc(n as i128, ITy::U64)),
                "is_empty" => return one(st, vc((n == 0) as i128, ITy::BOOL)),
                "capacity" => return one(st, vc(n as i128, ITy::U64)),
                "clone" => return one(st, V::Vec(Rc::new(a))),
                "push" | "push_mut" => { a.push(args[1].clone()); return put(self, st, a, unit()); }
                "pop" => { let r = match a.pop() { Some(v) => self.opt_some(v), None => self.opt_none() }; return put(self, st, a, r); }
                "insert" => { let i = self.usz(st, &args[1])?; if i > n { self.panic_at(caller, "insertion index".into(), st.doms.clone()); return Ok(Some(vec![])); } a.insert(i, args[2].clone()); return put(self, st, a, unit()); }
                "remove" | "swap_remove" => { let i = self.usz(st, &args[1])?; if i >= n { self.panic_at(caller, "removal index".into(), st.doms.clone()); return Ok(Some(vec![])); } let x = if meth == "remove" { a.remove(i) } else { a.swap_remove(i) }; return put(self, st, a, x); }
                "resize" | "extend_with" => {
                    let m = self.usz(st, &args[1])?;
                    let m = if meth == "resize" { m } else { n + m };
                    if m > 100_000 { return fail("Vec too long"); }
                    a.resize(m, args[2].clone());
                    return put(self, st, a, unit());
                }
                "truncate" | "clear" => { let m = if meth == "clear" { 0 } else { self.usz(st, &args[1])? }; a.truncate(m); return put(self, st, a, unit()); }
                "append" => {
                    let b = match self.deref(st, &args[1])? { V::Vec(b) => b, _ => return fail("append") };
                    a.extend(b.iter().cloned());
                    let mut s = st.clone();
                    self.store(&mut s, &args[1], V::Vec(Rc::new(vec![])))?;
                    return put(self, &s, a, unit());
                }
                "extend_one" => { a.push(args[1].clone()); return put(self, st, a, unit()); }
                "extend_one_unchecked" => { a.push(args[1].clone()); return put(self, st, a, unit()); }
                "extend_reserve" => return one(st, unit()),
                "extend_from_slice" => { let b = self.seq(st, &args[1])?; a.extend(b); return put(self, st, a, unit()); }
                "split_off" => { let i = self.usz(st, &args[1])?; if i > n { self.panic_at(caller, "split index".into(), st.doms.clone()); return Ok(Some(vec![])); } let b = a.split_off(i); return put(self, st, a, V::Vec(Rc::new(b))); }
                "drain" => {
                    let (x, y) = self.range(st, &args[1], last_t.unwrap(), n)?;
                    if x > y || y > n { self.panic_at(caller, "drain range".into(), st.doms.clone()); return Ok(Some(vec![])); }
                    let b: Vec<V> = a.drain(x..y).collect();
                    return put(self, st, a, V::It(Rc::new(It::Own(Rc::new(b)))));
                }
                "extend" => {
                    let mut out = vec![];
                    let by_ref = d.contains("Extend<&'a T>");
                    for (s, items) in self.drain_iter(st, &func.aux, args[1].clone())? {
                        let mut b = a.clone();
                        for x in items { b.push(if by_ref { self.deref(&s, &x)? } else { x }); }
                        let mut s = s;
                        self.store(&mut s, &args[0], V::Vec(Rc::new(b)))?;
                        out.push((s, unit()));
                    }
                    return Ok(Some(out));
                }
                "retain" | "retain_mut" => {
                    let mut s0 = st.clone();
                    let clo = self.hold(&mut s0, &args[1]);
                    let mut cur = vec![(s0, vec![])];
                    for k in 0..n {
                        let mut next = vec![];
                        let e = self.elem(st, &q, k)?;
                        for (s, acc) in cur {
                            for (s2, b) in { let cty = last_t.unwrap(); let mut o = vec![]; for (s2, r) in self.call_clo(s.clone(), cty, &clo, vec![e.clone()])? { o.extend(self.split_bool(s2, r)?); } o } {
                                let mut acc: Vec<V> = acc.clone();
                                if b { let x = self.deref(&s2, &e)?; acc.push(x); }
                                next.push((s2, acc));
                            }
                        }
                        cur = next;
                    }
                    let mut out = vec![];
                    for (mut s, acc) in cur { self.store(&mut s, &args[0], V::Vec(Rc::new(acc)))?; out.push((s, unit())); }
                    return Ok(Some(out));
                }
                "dedup" | "eq" | "ne" if !func.targs.first().map_or(false, |t| self.plain(*t)) => return fail("comparison of non-plain elements"),
                "dedup" => {
                    let mut b: Vec<V> = vec![];
                    for x in a { if let Some(y) = b.last().cloned() { if self.same(st, &y, &x)? { continue; } } b.push(x); }
                    return put(self, st, b, unit());
                }
                "eq" | "ne" => {
                    let b = match self.deref(st, &args[1])? { V::Vec(b) | V::Agg(b) => b, V::Ptr(_) => return fail("vector comparison"), _ => return fail("vector comparison") };
                    let mut eq = a.len() == b.len();
                    if eq { for (x, y) in a.iter().zip(b.iter()) { if !self.same(st, x, y)? { eq = false; break; } } }
                    return one(st, vc((eq == (meth == "eq")) as i128, ITy::BOOL));
                }
                "index" | "index_mut" => {
                    if let V::S(..) = &args[1] { return self.index(st, caller, &args[0], &args[1], n); }
                    let ity = func.targs.iter().cloned().find(|t| matches!(&p.types[*t as usize].kind, TypeKind::Adt { name, .. } if name.contains("Range")));
                    let (x, y) = self.range(st, &args[1], ity.unwrap_or(0), n)?;
                    if x > y || y > n { self.panic_at(caller, "slice range".into(), st.doms.clone()); return Ok(Some(vec![])); }
                    let r = self.subslice(&st.doms.clone(), &q, x, y - x)?;
                    return one(st, r);
                }
                "deref" | "deref_mut" | "as_slice" | "as_mut_slice" | "as_ref" | "as_mut" | "borrow" | "borrow_mut" => {
                    let mut q = q;
                    q.meta = Some(vc(n as i128, ITy::U64));
                    return one(st, V::Ptr(Rc::new(q)));
                }
                "as_ptr" | "as_mut_ptr" => { let mut q = q; Self::to_elem(&mut q.path); q.meta = None; return one(st, V::Ptr(Rc::new(q))); }
                "into_iter" => return one(st, V::It(Rc::new(It::Slice(Rc::new(q), 0, n)))),
                _ => return fail(format!("vector function {}", d)),
            }
        }
        // ---- queues, sets and maps (as plain sequences) ----
        if let Some(r) = self.collection(st, f, d, args)? { return Ok(Some(r)); }
        // ---- slices and arrays ----
        match d {
            "std::slice::len" => {
                if let V::Ptr(q) = &args[0] { if let Some(m) = &q.meta { return one(st, m.clone()); } }
                return fail("slice len");
            }
            "std::array::iter::into_iter" | "<[T; N] as std::iter::IntoIterator>::into_iter" => { if let V::Agg(a) = &args[0] { return one(st, V::It(Rc::new(It::Own(a.clone())))); } return fail("into_iter"); }
            "std::slice::iter" | "std::slice::iter_mut" | "std::slice::iter::into_iter" | "std::array::into_iter" => {
                if let V::Ptr(q) = &args[0] {
                    let n = match &q.meta { Some(m) => self.usz(st, &m.clone())?, None => match self.deref(st, &args[0])? { V::Vec(a) | V::Agg(a) => a.len(), _ => return fail("iter") } };
                    let mut q = q.as_ref().clone();
                    q.meta = None;
                    return one(st, V::It(Rc::new(It::Slice(Rc::new(q), 0, n))));
                }
                return fail("iter");
            }
            "std::slice::sort" | "std::slice::sort_unstable" => {
                if !func.targs.first().map_or(false, |t| self.plain(*t)) { return fail("sort of non-plain elements"); }
                let mut v = self.seq(st, &args[0])?;
                let q = if let V::Ptr(q) = &args[0] { q.clone() } else { unreachable!() };
                for i in 1..v.len() {
                    let mut j = i;
                    while j > 0 && self.order(st, &v[j - 1].clone(), &v[j].clone())? == std::cmp::Ordering::Greater { v.swap(j - 1, j); j -= 1; }
                }
                let mut s = st.clone();
                for (k, x) in v.into_iter().enumerate() { let e = self.elem(st, &q, k)?; self.store(&mut s, &e, x)?; }
                return one(&s, unit());
            }
            "std::slice::sort_by_key" | "std::slice::sort_unstable_by_key" | "std::slice::sort_by" | "std::slice::sort_unstable_by" => {
                let v = self.seq(st, &args[0])?;
                let q = if let V::Ptr(q) = &args[0] { q.clone() } else { unreachable!() };
                let mut s0 = st.clone();
                let clo = self.hold(&mut s0, &args[1]);
                let cty = func.targs.iter().cloned().find(|t| matches!(p.types[*t as usize].kind, TypeKind::Closure { .. } | TypeKind::FnDef { .. }));
                let cty = match cty { Some(c) => c, None => return fail("sort closure") };
                if !meth.contains("key") { return fail("sort_by"); }
                let kt = { let cf = self.closure_fn(cty)?; p.funcs[cf as usize].output };
                let (kt, rev) = match &p.types[kt as usize].kind { TypeKind::Adt { name, args, .. } if name.ends_with("cmp::Reverse") => (args[0], true), _ => (kt, false) };
                if !self.plain(kt) { return fail("sort by non-plain key"); }
                let worse = if rev { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater };
                // keys first
                let mut cur = vec![(s0, vec![])];
                for x in &v {
                    let mut next = vec![];
                    for (mut s, acc) in cur {
                        let e = s.alloc(x.clone());
                        for (s2, r) in self.call_clo(s, cty, &clo, vec![e])? { let mut a: Vec<V> = acc.clone(); a.push(r); next.push((s2, a)); }
                    }
                    cur = next;
                }
                let mut out = vec![];
                for (s, keys) in cur {
                    let mut w: Vec<(V, V)> = keys.into_iter().zip(v.iter().cloned()).collect();
                    for i in 1..w.len() {
                        let mut j = i;
                        while j > 0 && self.order(&s, &w[j - 1].0.clone(), &w[j].0.clone())? == worse { w.swap(j - 1, j); j -= 1; }
                    }
                    let mut s = s;
                    for (k, x) in w.into_iter().enumerate() { let e = self.elem(&s, &q, k)?; self.store(&mut s, &e, x.1)?; }
                    out.push((s, unit()));
                }
                return Ok(Some(out));
            }
            "std::array::from_fn" => {
                let n = match &p.types[func.output as usize].kind { TypeKind::Array(_, n) => *n as usize, _ => return fail("array::from_fn") };
                let items: Vec<V> = (0..n).map(|i| vc(i as i128, ITy::U64)).collect();
                let r = self.map_items(st, items, last_t.unwrap(), &args[0])?;
                return Ok(Some(r.into_iter().map(|(s, v)| (s, vagg(v))).collect()));
            }
            "std::array::map" => {
                let items = match &args[0] { V::Agg(a) => a.to_vec(), _ => return fail("array::map") };
                let cty = func.targs.iter().cloned().find(|t| matches!(p.types[*t as usize].kind, TypeKind::Closure { .. } | TypeKind::FnDef { .. }));
                let r = self.map_items(st, items, cty.unwrap_or(0), &args[1])?;
                return Ok(Some(r.into_iter().map(|(s, v)| (s, vagg(v))).collect()));
            }
            "std::slice::concat" => {
                let mut out = vec![];
                for x in self.seq(st, &args[0])? { match &x { V::Vec(a) | V::Agg(a) => out.extend(a.iter().cloned()), V::Ptr(_) => out.extend(self.seq(st, &x)?), _ => return fail("concat") } }
                return one(st, V::Vec(Rc::new(out)));
            }
            "std::slice::fill" => {
                let n = self.seq(st, &args[0])?.len();
                let q = if let V::Ptr(q) = &args[0] { q.clone() } else { unreachable!() };
                let mut s = st.clone();
                for k in 0..n { let e = self.elem(st, &q, k)?; self.store(&mut s, &e, args[1].clone())?; }
                return one(&s, unit());
            }
            "std::hint::select_unpredictable" => {
                let b = self.scal(&args[0])?;
                return match self.d.resimp(&st.doms, &b) { Sc::C(c) => one(st, args[if c == 1 { 1 } else { 2 }].clone()), Sc::T(t) => Err(Stop::Split(t)), _ => fail("select") };
            }
            "std::mem::swap" => {
                let (x, y) = (self.deref(st, &args[0])?, self.deref(st, &args[1])?);
                let mut s = st.clone();
                self.store(&mut s, &args[0], y)?;
                self.store(&mut s, &args[1], x)?;
                return one(&s, unit());
            }
            "std::mem::replace" | "std::mem::take" if meth == "replace" => {
                let x = self.deref(st, &args[0])?;
                let mut s = st.clone();
                self.store(&mut s, &args[0], args[1].clone())?;
                return one(&s, x);
            }
            "std::mem::drop" | "std::mem::forget" => return one(st, unit()),
            _ => {}
        }
        // ---- iterators over them ----
        let on = |x: &str| d.starts_with(x) || d.contains(&format!("for {}", &x[1..]));
        let raw = func.def.replace("core::", "std::").replace("alloc::", "std::");
        let its = ["std::vec::IntoIter", "std::slice::Iter<", "std::slice::IterMut<", "std::array::IntoIter", "std::vec::Drain"];
        let is_iter = its.iter().any(|x| raw.starts_with(&format!("<{}", x)) || raw.contains(&format!("for {}", x)) || raw.starts_with(x) || (x.ends_with('<') && raw.starts_with(&format!("{}::<", &x[..x.len() - 1]))));
        let _ = on;
        if is_iter {
            let m = meth;
            if m == "new" { return Ok(None); }
            let it = match &args[0] { V::Ptr(_) => self.deref(st, &args[0])?, x => x.clone() };
            let it = match it { V::It(i) => i, _ => return if raw.contains("drop") { one(st, unit()) } else { Ok(None) } };
            let n = match it.as_ref() { It::Own(v) => v.len(), It::Slice(_, a, b) => b - a };
            let mut items: Vec<V> = vec![];
            if !matches!(m, "next" | "next_back" | "size_hint" | "len" | "is_empty" | "clone") {
                match it.as_ref() {
                    It::Own(v) => items = v.to_vec(),
                    It::Slice(q, a, b) => for k in *a..*b { let e = self.elem(st, q, k)?; items.push(e); },
                }
            }
            let cut = |lo: usize, hi: usize| -> V {
                match it.as_ref() {
                    It::Own(v) => V::It(Rc::new(It::Own(Rc::new(v[lo..hi].to_vec())))),
                    It::Slice(q, a, _) => V::It(Rc::new(It::Slice(q.clone(), a + lo, a + hi))),
                }
            };
            let item = |me: &mut Self, k: usize| -> R<V> { match it.as_ref() { It::Own(v) => Ok(v[k].clone()), It::Slice(q, a, _) => me.elem(st, q, a + k) } };
            match m {
                "next" | "next_back" => {
                    if n == 0 { let o = self.opt_none(); return one(st, o); }
                    let (k, lo, hi) = if m == "next" { (0, 1, n) } else { (n - 1, 0, n - 1) };
                    let x = item(self, k)?;
                    let mut s = st.clone();
                    self.store(&mut s, &args[0], cut(lo, hi))?;
                    let o = self.opt_some(x);
                    return one(&s, o);
                }
                "nth" | "nth_back" => {
                    let k = self.usz(st, &args[1])?;
                    let mut s = st.clone();
                    if k >= n { self.store(&mut s, &args[0], cut(n, n))?; let o = self.opt_none(); return one(&s, o); }
                    let (j, lo, hi) = if m == "nth" { (k, k + 1, n) } else { (n - 1 - k, 0, n - 1 - k) };
                    let x = item(self, j)?;
                    self.store(&mut s, &args[0], cut(lo, hi))?;
                    let o = self.opt_some(x);
                    return one(&s, o);
                }
                "advance_by" | "advance_back_by" => {
                    let k = self.usz(st, &args[1])?;
                    let mut s = st.clone();
                    let c = k.min(n);
                    self.store(&mut s, &args[0], if m == "advance_by" { cut(c, n) } else { cut(0, n - c) })?;
                    if k <= n { return one(&s, venum(0, 2, vec![unit()])); }
                    if let (TypeKind::Adt { args: ta, .. }, Some(us)) = (&p.types[func.output as usize].kind, func.inputs.get(1)) {
                        let e = self.reshape(&st.doms, vc((k - n) as i128, ITy::U64), *us, ta[1])?;
                        return one(&s, venum(1, 2, vec![e]));
                    }
                    return fail("advance past the end");
                }
                "size_hint" => { let o = self.opt_some(vc(n as i128, ITy::U64)); return one(st, vagg(vec![vc(n as i128, ITy::U64), o])); }
                "len" | "count" => return one(st, vc(n as i128, ITy::U64)),
                "is_empty" => return one(st, vc((n == 0) as i128, ITy::BOOL)),
                "clone" => return one(st, V::It(it.clone())),
                "last" => { let o = match items.last() { Some(x) => self.opt_some(x.clone()), None => self.opt_none() }; return one(st, o); }
                "__iterator_get_unchecked" => { let k = self.usz(st, &args[1])?; let x = item(self, k)?; return one(st, x); }
                "as_slice" | "as_mut_slice" | "as_ref" => {
                    return match it.as_ref() { It::Slice(q, a, b) => { let r = self.subslice(&st.doms.clone(), q, *a, b - a)?; one(st, r) } _ => fail("as_slice of an owning iterator") };
                }
                "drop" => return one(st, unit()),
                "fold" | "for_each" | "all" | "any" | "find" | "position" | "rposition" | "find_map" | "try_fold" | "rfold" | "try_rfold" | "rfind" => {
                    let back = matches!(m, "rposition" | "rfold" | "try_rfold" | "rfind");
                    let (clo, init) = if m.ends_with("fold") { (args[2].clone(), args[1].clone()) } else { (args[1].clone(), unit()) };
                    let cty = func.targs.iter().rev().cloned().find(|t| matches!(p.types[*t as usize].kind, TypeKind::Closure { .. } | TypeKind::FnDef { .. } | TypeKind::Ref { .. }));
                    let mut cty = match cty { Some(c) => c, None => return fail("iterator closure") };
                    let clo = clo;
                    while let TypeKind::Ref { ty, .. } = &p.types[cty as usize].kind { cty = *ty; }
                    if let V::Ptr(_) = &clo { /* closure by reference */ }
                    let mut s0 = st.clone();
                    let clo = self.hold(&mut s0, &clo);
                    let by_ref_self = matches!(args[0], V::Ptr(_));
                    let mut cur = vec![(s0, init)];
                    let mut done: Vec<(St, V, usize)> = vec![];
                    let ord: Vec<usize> = if back { (0..n).rev().collect() } else { (0..n).collect() };
                    for (step, k) in ord.iter().enumerate() {
                        let mut next = vec![];
                        for (s, acc) in cur {
                            let mut s = s;
                            let mut a = vec![];
                            if m.ends_with("fold") { a.push(acc.clone()); }
                            a.push(if m == "find" || m == "rfind" { s.alloc(items[*k].clone()) } else { items[*k].clone() });
                            for (s2, r) in self.call_clo(s, cty, &clo, a)? {
                                match m {
                                    "fold" | "rfold" => next.push((s2, r)),
                                    "for_each" => next.push((s2, acc.clone())),
                                    "try_fold" | "try_rfold" => {
                                        // Option: Some continues; Result, ControlFlow: variant 0 continues
                                        let cname = match &p.types[func.output as usize].kind { TypeKind::Adt { name, .. } => name.clone(), _ => String::new() };
                                        match &r {
                                            V::Enum(i, pay) => {
                                                let go = if cname.ends_with("Option") { 1 } else if cname.ends_with("Result") || cname.ends_with("ControlFlow") { 0 } else { return fail("try_fold result") };
                                                let i = self.d.resimp(&s2.doms, i);
                                                let parts = match i { Sc::C(c) => vec![(c, s2.doms.clone())], Sc::T(t) => self.partition(&s2.doms, &t)?, _ => return fail("try_fold") };
                                                for (c, dd) in parts {
                                                    let s3 = s2.with(dd);
                                                    if c == go { next.push((s3, pay[go as usize].as_ref().map_or(unit(), |x| x.first().cloned().unwrap_or(unit())))); }
                                                    else { let mut pp = vec![None; pay.len()]; pp[c as usize] = pay[c as usize].clone(); done.push((s3, V::Enum(Sc::C(c), Rc::new(pp)), step + 1)); }
                                                }
                                            }
                                            V::Agg(x) if cname.ends_with("NeverShortCircuit") => next.push((s2, x[0].clone())),
                                            _ => return fail("try_fold result"),
                                        }
                                    }
                                    "find_map" => match &r {
                                        V::Enum(i, pay) => {
                                            let i = self.d.resimp(&s2.doms, i);
                                            let parts = match i { Sc::C(c) => vec![(c, s2.doms.clone())], Sc::T(t) => self.partition(&s2.doms, &t)?, _ => return fail("find_map") };
                                            for (c, dd) in parts {
                                                let s3 = s2.with(dd);
                                                if c == 0 { next.push((s3, acc.clone())); } else { let o = self.opt_some(pay[1].as_ref().unwrap()[0].clone()); done.push((s3, o, step + 1)); }
                                            }
                                        }
                                        _ => return fail("find_map result"),
                                    },
                                    _ => for (s3, b) in self.split_bool(s2, r)? {
                                        if b != (m == "all") {
                                            let v = match m { "all" => vc(0, ITy::BOOL), "any" => vc(1, ITy::BOOL), "position" | "rposition" => self.opt_some(vc(*k as i128, ITy::U64)), _ => self.opt_some(items[*k].clone()) };
                                            done.push((s3, v, step + 1));
                                        } else { next.push((s3, acc.clone())); }
                                    },
                                }
                            }
                        }
                        cur = next;
                        if cur.len() > 1 && cur.iter().all(|x| x.1 == cur[0].1) { // join again where nothing was decided
                            let v = cur[0].1.clone();
                            let ss = self.merge_all(cur.into_iter().map(|x| x.0).collect());
                            cur = ss.into_iter().map(|s| (s, v.clone())).collect();
                        }
                    }
                    for (s, acc) in cur {
                        let v = match m {
                            "all" => vc(1, ITy::BOOL), "any" => vc(0, ITy::BOOL), "position" | "find" | "find_map" | "rposition" | "rfind" => self.opt_none(),
                            "try_fold" | "try_rfold" => match &p.types[func.output as usize].kind {
                                TypeKind::Adt { name, variants, .. } if variants.len() == 2 => if name.ends_with("Option") { self.opt_some(acc) } else { venum(0, 2, vec![acc]) },
                                _ => vagg(vec![acc]),
                            },
                            _ => acc,
                        };
                        done.push((s, v, n));
                    }
                    let mut out = vec![];
                    for (mut s, v, used) in done {
                        if by_ref_self { self.store(&mut s, &args[0], if back { cut(0, n - used) } else { cut(used, n) })?; }
                        out.push((s, v));
                    }
                    return Ok(Some(out));
                }
                _ => return fail(format!("iterator function {}", func.def)),
            }
        }
        Ok(None)
    }
    fn collection(&mut self, st: &St, f: FnId, d: &str, args: &[V]) -> R<Option<Vec<(St, V)>>> {
        let kind = ["VecDeque", "HashSet", "BTreeSet", "HashMap", "BTreeMap"].iter().find(|k| d.contains(*k)).cloned();
        let kind = match kind { Some(k) => k, None => return Ok(None) };
        let pre = d.starts_with("std::collections::") || d.starts_with("<std::collections::") || d.starts_with("std::collections::hash_map") ;
        if !pre { return Ok(None); }
        let meth = d.rsplit("::").next().unwrap();
        let one = |s: &St, v: V| Ok(Some(vec![(s.clone(), v)]));
        match meth {
            "new" | "with_capacity" | "default" => return one(st, V::Vec(Rc::new(vec![]))),
            "from" if kind == "VecDeque" => match &args[0] { V::Vec(a) | V::Agg(a) => return one(st, V::Vec(a.clone())), _ => return fail("VecDeque::from") },
            _ => {}
        }
        let t0 = self.p.funcs[f as usize].targs.first().cloned();
        let p0 = match args.first() { Some(p @ V::Ptr(_)) => p.clone(), _ => return fail(format!("collection function {}", d)) };
        let mut a: Vec<V> = match self.deref(st, &p0)? { V::Vec(a) => a.to_vec(), _ => return fail("collection") };
        let put = |me: &mut Self, a: Vec<V>, r: V| -> R<Option<Vec<(St, V)>>> { let mut s = st.clone(); me.store(&mut s, &p0, V::Vec(Rc::new(a)))?; Ok(Some(vec![(s, r)])) };
        let unit = || vagg(vec![]);
        match (kind, meth) {
            (_, "len") => return one(st, vc(a.len() as i128, ITy::U64)),
            (_, "is_empty") => return one(st, vc(a.is_empty() as i128, ITy::BOOL)),
            (_, "clear") => return put(self, vec![], unit()),
            (_, "reserve") => return one(st, unit()),
            ("VecDeque", "push_back") => { a.push(args[1].clone()); return put(self, a, unit()); }
            ("VecDeque", "push_front") => { a.insert(0, args[1].clone()); return put(self, a, unit()); }
            ("VecDeque", "pop_back") => { let r = match a.pop() { Some(x) => self.opt_some(x), None => self.opt_none() }; return put(self, a, r); }
            ("VecDeque", "pop_front") => { let r = if a.is_empty() { self.opt_none() } else { let x = a.remove(0); self.opt_some(x) }; return put(self, a, r); }
            ("VecDeque", _) => return fail(format!("collection function {}", d)),
            _ => {}
        }
        // keys: either from the instance's type arguments or from the values
        if let Some(t) = t0 { if !self.plain(t) { return fail("set of non-plain keys"); } } else if !matches!(args.get(1), Some(V::S(..)) | Some(V::Ptr(_))) { return fail("set of non-plain keys"); }
        let set = kind.ends_with("Set");
        let key = match args.get(1) { Some(p @ V::Ptr(_)) => self.deref(st, p)?, Some(v) => v.clone(), None => return fail(format!("collection function {}", d)) };
        if !matches!(key, V::S(..)) && t0.is_none() { return fail("set of non-plain keys"); }
        let mut at = None;
        for (i, x) in a.iter().enumerate() {
            let k = if set { x.clone() } else { match x { V::Agg(kv) => kv[0].clone(), _ => return fail("map entry") } };
            if self.same(st, &k, &key)? { at = Some(i); break; }
        }
        match meth {
            "contains" | "contains_key" => one(st, vc(at.is_some() as i128, ITy::BOOL)),
            "insert" if set => { if at.is_none() { a.push(key); } put(self, a, vc(at.is_none() as i128, ITy::BOOL)) }
            "insert" => {
                let kv = vagg(vec![key, args[2].clone()]);
                let old = match at { Some(i) => { let o = if let V::Agg(x) = &a[i] { x[1].clone() } else { V::Uninit }; a[i] = kv; self.opt_some(o) } None => { a.push(kv); self.opt_none() } };
                put(self, a, old)
            }
            "remove" if set => { if let Some(i) = at { a.remove(i); } put(self, a, vc(at.is_some() as i128, ITy::BOOL)) }
            "remove" => { let o = match at { Some(i) => { let x = a.remove(i); if let V::Agg(x) = x { self.opt_some(x[1].clone()) } else { V::Uninit } } None => self.opt_none() }; put(self, a, o) }
            "get" | "get_mut" => {
                let o = match at { Some(i) => { let q = if let V::Ptr(q) = &p0 { q.clone() } else { unreachable!() }; let e = self.elem(st, &q, i)?; if set { self.opt_some(e) } else if let V::Ptr(e) = e { let mut e = e.as_ref().clone(); e.path.push(PE::Field(1)); self.opt_some(V::Ptr(Rc::new(e))) } else { unreachable!() } } None => self.opt_none() };
                one(st, o)
            }
            _ => fail(format!("collection function {}", d)),
        }
    }
    /// numbers and tuples or arrays of numbers: the built-in order and equality apply
    fn plain(&self, t: TyId) -> bool {
        match &self.p.types[t as usize].kind {
            TypeKind::Tuple(ts) => ts.iter().all(|t| self.plain(*t)),
            TypeKind::Array(e, _) => self.plain(*e),
            _ => self.ity(t).map_or(false, |t| !t.float),
        }
    }
    fn subslice(&mut self, st: &Rc<Doms>, q: &Ptr, off: usize, len: usize) -> R<V> {
        let mut q = q.clone();
        self.push_ix(st, &mut q.path, &Sc::C(off as u128))?;
        Self::to_slice(&mut q.path);
        q.meta = Some(vc(len as i128, ITy::U64));
        Ok(V::Ptr(Rc::new(q)))
    }
    fn split_bool(&mut self, s: St, r: V) -> R<Vec<(St, bool)>> {
        let b = match &r { V::S(b, _) => self.d.resimp(&s.doms, b), _ => return fail("predicate result") };
        Ok(match b {
            Sc::C(c) => vec![(s, c == 1)],
            Sc::T(t) => self.partition(&s.doms, &t)?.into_iter().map(|(c, d)| (s.with(d), c == 1)).collect(),
            _ => return fail("predicate result"),
        })
    }
    fn same(&mut self, st: &St, a: &V, b: &V) -> R<bool> {
        if a == b { return Ok(true); }
        match (a, b) {
            (V::S(x, t), V::S(y, _)) => match self.d.cmp(&st.doms, "Eq", x, y, *t)? { Sc::C(c) => Ok(c == 1), Sc::T(t) => Err(Stop::Split(t)), _ => fail("comparison") },
            (V::Agg(x), V::Agg(y)) | (V::Vec(x), V::Vec(y)) => {
                if x.len() != y.len() { return Ok(false); }
                for (u, v) in x.iter().zip(y.iter()) { if !self.same(st, u, v)? { return Ok(false); } }
                Ok(true)
            }
            _ => fail("comparison of values"),
        }
    }
    /// apply a closure to each of a list of values
    fn map_items(&mut self, st: &St, items: Vec<V>, cty: TyId, clo: &V) -> R<Vec<(St, Vec<V>)>> {
        let mut s0 = st.clone();
        let clo = self.hold(&mut s0, clo);
        let mut cur = vec![(s0, vec![])];
        for x in items {
            let mut next = vec![];
            for (s, acc) in cur {
                for (s2, r) in self.call_clo(s, cty, &clo, vec![x.clone()])? { let mut a: Vec<V> = acc.clone(); a.push(r); next.push((s2, a)); }
            }
            cur = next;
        }
        Ok(cur)
    }
}
