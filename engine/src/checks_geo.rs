// Properties of the planar lattice, the base cells and the projection.
use crate::checks::{i, same, whole};
use crate::checks_common::*;
use crate::dom::*;
use crate::harness::*;
use crate::interp::*;
use crate::ir::{FnId, TyId, TypeKind};
use crate::ops::F64;
use std::rc::Rc;

/// coordinates up to this size never overflow in the lattice operations
const BOUND: i128 = 1 << 26;

/// values of a structure in the order of its declaration
pub fn fields_of(it: &Interp, ty: TyId) -> Vec<(String, TyId)> {
    match &it.p.types[ty as usize].kind {
        TypeKind::Adt { variants, .. } if variants.len() == 1 => variants[0].fields.iter().map(|f| (f.name.clone(), f.ty)).collect(),
        TypeKind::Ref { ty, .. } | TypeKind::Ptr { ty, .. } => fields_of(it, *ty),
        TypeKind::Array(t, n) => (0..*n).map(|k| (["i", "j", "k"].get(k as usize).unwrap_or(&"?").to_string(), *t)).collect(),
        _ => vec![],
    }
}
/// the canonical coordinate (i, j, k) as the structure a parameter expects
pub fn coord(it: &Interp, ty: TyId, v: &V) -> V {
    let p = match v { V::Agg(p) if p.len() == 3 => p.clone(), _ => return v.clone() };
    let fs = fields_of(it, ty);
    if fs.len() != 3 { return v.clone(); }
    vagg(fs.iter().map(|(n, _)| match n.as_str() { "i" => p[0].clone(), "j" => p[1].clone(), _ => p[2].clone() }).collect())
}
/// (face, i, j, k) as the structure a parameter expects
pub fn face_pt(it: &Interp, ty: TyId, p: &[V]) -> V {
    let c = vagg(p[1..].to_vec());
    vagg(fields_of(it, ty).iter().map(|(n, t)| if n == "face" { p[0].clone() } else { coord(it, *t, &c) }).collect())
}
/// a value of the analysed program in canonical component order
pub fn canonical(it: &Interp, ty: TyId, v: &V) -> V {
    let fs = fields_of(it, ty);
    let p = match v { V::Agg(p) if p.len() == fs.len() => p, _ => return v.clone() };
    let pos = |n: &str| fs.iter().position(|f| f.0 == n);
    if let (Some(a), Some(b), Some(c), 3) = (pos("i"), pos("j"), pos("k"), fs.len()) { return vagg(vec![p[a].clone(), p[b].clone(), p[c].clone()]); }
    if let (Some(a), Some(b), 2) = (pos("face"), pos("coord"), fs.len()) {
        if let V::Agg(q) = canonical(it, fs[b].1, &p[b]) { return vagg(vec![p[a].clone(), q[0].clone(), q[1].clone(), q[2].clone()]); }
    }
    v.clone()
}
/// an argument shaped for parameter k of a function: coordinates, directions
fn shaped(it: &Interp, f: FnId, k: usize, v: &V) -> V {
    let t = it.p.funcs[f as usize].inputs[k];
    let t = match &it.p.types[t as usize].kind { TypeKind::Ref { ty, .. } | TypeKind::Ptr { ty, .. } => *ty, _ => t };
    match (v, &it.p.types[t as usize].kind) {
        (V::Agg(p), _) if p.len() == 3 => coord(it, t, v),
        (V::Agg(p), _) if p.len() == 4 => face_pt(it, t, p),
        (V::S(s, _), TypeKind::Adt { variants, .. }) if variants.len() > 1 => it.enum_sc(s.clone(), variants.len()),
        (V::S(s, _), _) => match it.ity(t) { Some(ty) => V::S(s.clone(), ty), None => v.clone() },
        _ => v.clone(),
    }
}
fn is_mut_ref(it: &Interp, f: FnId, k: usize) -> bool {
    matches!(&it.p.types[it.p.funcs[f as usize].inputs[k] as usize].kind, TypeKind::Ref { .. } | TypeKind::Ptr { .. })
}
/// call with every argument shaped for the callee; references are read back when asked for
pub fn call_shaped(it: &mut Interp, st: St, f: FnId, a: &[V], back: Option<usize>) -> R<Vec<(St, Obs)>> {
    let mut args = vec![];
    for (k, v) in a.iter().enumerate() {
        let v = shaped(it, f, k, v);
        args.push(if is_mut_ref(it, f, k) { Arg::R(v) } else { Arg::V(v) });
    }
    let rt = it.p.funcs[f as usize].output;
    let mut out = vec![];
    let refs: Vec<usize> = (0..a.len()).filter(|k| is_mut_ref(it, f, *k)).collect();
    for (s, vs) in it.call(st, f, args)? {
        let (v, t) = match back {
            Some(k) => {
                let p = 1 + refs.iter().position(|x| *x == k).ok_or(Stop::Fail("not a reference".into()))?;
                let t = match &it.p.types[it.p.funcs[f as usize].inputs[k] as usize].kind { TypeKind::Ref { ty, .. } | TypeKind::Ptr { ty, .. } => *ty, _ => unreachable!() };
                (vs[p].clone(), t)
            }
            None => (vs[0].clone(), rt),
        };
        // components are observed in canonical order
        out.extend(flat_canonical(it, s, &v, t)?);
    }
    Ok(out)
}
pub fn flat_canonical(it: &mut Interp, s: St, v: &V, t: TyId) -> R<Vec<(St, Obs)>> {
    let c = canonical(it, t, v);
    match &c {
        V::Agg(p) if (p.len() == 3 || p.len() == 4) && p.iter().all(|x| matches!(x, V::S(..))) => {
            let o = p.iter().map(|x| match x { V::S(k, ty) => (it.d.resimp(&s.doms, k), *ty), _ => unreachable!() }).collect();
            Ok(vec![(s, o)])
        }
        _ => it.flat(s, v, t),
    }
}
fn scal(s: &Sc) -> V { V::S(s.clone(), ITy::I32) }
fn pt(p: &[Sc; 3]) -> V { vagg(p.iter().map(scal).collect()) }
fn any_pt(it: &mut Interp, n: &str, b: i128) -> [Sc; 3] {
    [it.d.fresh_int(&format!("{}.i", n), -b, b), it.d.fresh_int(&format!("{}.j", n), -b, b), it.d.fresh_int(&format!("{}.k", n), -b, b)]
}
/// same operation on both sides; `back` is the argument that carries the result
fn lat(c: &mut Ctx, ob: &str, cf: &str, sf: &str, cases: Vec<(String, Rc<Doms>)>, inputs: &[(&str, V)], back: Option<usize>, drop: usize) {
    let f = c.f(cf);
    let g = c.s(sf);
    c.equal(ob, f, cases, inputs,
        &|it, st, a| call_shaped(it, st, f, a, back),
        &|it, st, a| it.call_flat(st, g, a[..a.len() - drop].iter().map(|v| Arg::V(v.clone())).collect()));
}

/// lattice operations, each for every coordinate within the bound
pub fn c08(c: &mut Ctx) {
    c.rules.push("each operation on lattice coordinates equals its algebraic definition (axial coordinates, normal form with a zero component) for every coordinate up to 2^26".into());
    c.par(16, &lattice);
}
/// is that lattice operation right?  Decided anew in every run that builds on it.
const NORMAL: usize = 0;
const STEP: usize = 3;
const UP: [usize; 2] = [12, 13];
/// lattice operations that hold on this tree and may therefore be replaced by their meaning
#[derive(Clone, Copy)]
pub struct Lemmas { normal: bool, up: [bool; 2], step: bool }
fn lemmas(c: &mut Ctx) -> Lemmas {
    let normal = c.holds(&|c| lattice(c, NORMAL));
    let l = Lemmas { normal, up: [0, 1].map(|k| normal && c.holds(&|c| lattice(c, UP[k]))), step: normal && c.holds(&|c| lattice(c, STEP)) };
    for (n, ok) in [("_neighbor", l.step), ("_ijkNormalize", l.normal), ("_upAp7", l.up[0]), ("_upAp7r", l.up[1])] {
        c.notes.push(if ok { format!("{} decided equal to its definition, which replaces it in the other obligations", n) } else { format!("{} not decided on its own: interpreted in place", n) });
    }
    l
}
fn by_meaning(c: &mut Ctx, l: Lemmas) {
    if l.normal { summarise_normal(c); }
    for k in 0..2 { if l.up[k] { summarise_up(c, k == 0); } }
}
/// parent coordinate: nearest integers of the inverse map
fn summarise_up(c: &mut Ctx, odd: bool) {
    let f = c.f(if odd { "_upAp7" } else { "_upAp7r" });
    if f == FnId::MAX { return; }
    c.code.overrides.insert(f, Rc::new(move |it: &mut Interp, st: St, args: &[V], f: FnId| {
        let t = it.p.funcs[f as usize].inputs[0];
        let v = it.deref(&st, &args[0])?;
        let p = scs(&canonical(it, t, &v))?;
        let e = st.doms.clone();
        let l: Vec<Lin> = p.iter().map(|x| it.d.to_lin(&e, x, ITy::I32)).collect::<R<_>>()?;
        let nk = it.d.lin_scale(&l[2], -1, 1);
        let ax = [it.d.lin_add(&e, &l[0], &nk)?, it.d.lin_add(&e, &l[1], &nk)?];
        let m = if odd { [[3, -1], [1, 2]] } else { [[2, 1], [-1, 3]] };
        let mut q = vec![];
        for r in 0..2 {
            let (x, y) = (it.d.lin_scale(&ax[0], m[r][0], 7), it.d.lin_scale(&ax[1], m[r][1], 7));
            let x = it.d.lin_add(&e, &x, &y)?;
            let x = it.d.from_lin(&e, x, F64);
            let x = it.d.round(&e, &x)?;
            let x = it.d.to_lin(&e, &x, F64)?;
            q.push(it.d.from_lin(&e, x, ITy::I32));
        }
        let q = normal_form(it, &st, [q[0].clone(), q[1].clone(), Sc::C(0)])?;
        let v = coord(it, t, &pt(&q));
        let mut st = st;
        it.store(&mut st, &args[0], v)?;
        Ok(vec![(st, vagg(vec![]))])
    }));
}
fn lattice(c: &mut Ctx, k: usize) {
    {
        c.code.d.poly = true;
        let p = any_pt(&mut c.code, "p", BOUND);
        let q = any_pt(&mut c.code, "q", BOUND);
        let (pv, qv) = (pt(&p), pt(&q));
        let zero = vagg(vec![i(0), i(0), i(0)]);
        let digits = |c: &mut Ctx| -> (V, Vec<(String, Rc<Doms>)>) {
            let d = c.code.d.new_sym("digit", 8);
            let e = Doms::new(vec![]);
            (scal(&c.code.d.sym_sc(d)), (0..8).map(|x| (format!("digit {}", x), e.with(d, 1 << x))).collect())
        };
        match k {
            0 => lat(c, "normal form", "_ijkNormalize", "normal", whole(), &[("p", pv)], Some(0), 0),
            1 => lat(c, "centre child, odd resolutions", "_downAp7", "l_down_ccw", whole(), &[("p", pv)], Some(0), 0),
            2 => lat(c, "centre child, even resolutions", "_downAp7r", "l_down_cw", whole(), &[("p", pv)], Some(0), 0),
            3 => { let (d, cs) = digits(c); lat(c, "step in a direction", "_neighbor", "l_step_n", cs, &[("p", pv), ("digit", d)], Some(0), 0) }
            4 => lat(c, "turn counter-clockwise", "_ijkRotate60ccw", "l_rot_ccw", whole(), &[("p", pv)], Some(0), 0),
            5 => lat(c, "turn clockwise", "_ijkRotate60cw", "l_rot_cw", whole(), &[("p", pv)], Some(0), 0),
            6 => lat(c, "sum", "_ijkAdd", "l_add", whole(), &[("p", pv), ("q", qv), ("out", zero)], Some(2), 1),
            7 => lat(c, "difference", "_ijkSub", "l_sub", whole(), &[("p", pv), ("q", qv), ("out", zero)], Some(2), 1),
            8 => { let f = c.code.d.fresh_int("factor", -(1 << 4), 1 << 4); lat(c, "multiple", "_ijkScale", "l_scale", whole(), &[("p", pv), ("factor", scal(&f))], Some(0), 0) }
            9 => lat(c, "equality", "_ijkMatches", "l_same", whole(), &[("p", pv), ("q", qv)], None, 0),
            10 => lat(c, "direction of a unit vector", "_unitIjkToDigit", "l_digit", whole(), &[("p", pv)], None, 0),
            11 => lat(c, "assignment", "_setIJK", "l_set", whole(), &[("p", pv), ("i", scal(&q[0])), ("j", scal(&q[1])), ("k", scal(&q[2]))], Some(0), 0),
            12 | 13 => {
                // every coordinate is a centre child plus one digit: the parent is that centre's parent
                let (cf, odd) = [("_upAp7", true), ("_upAp7r", false)][k - 12];
                let f = c.f(cf);
                let (a, b, t) = (c.code.d.fresh_int("a", -BOUND, BOUND), c.code.d.fresh_int("b", -BOUND, BOUND), c.code.d.fresh_int("shift", -BOUND, BOUND));
                let d = c.code.d.new_sym("digit", 7);
                let e = Doms::new(vec![]);
                let m = down_m(odd);
                let li = |c: &mut Ctx, x: &Sc| c.code.d.to_lin(&e, x, ITy::I32).unwrap();
                let (la, lb, lt) = (li(c, &a), li(c, &b), li(c, &t));
                let mut comp = vec![];
                for r in 0..2 {
                    let mut l = Lin { den: 1, c: 0, tabs: vec![(vec![d], Rc::new(UNITS.iter().map(|u| u[r]).collect()))], unb: vec![] };
                    for (x, w) in [(&la, m[r][0]), (&lb, m[r][1]), (&lt, 1)] { let y = c.code.d.lin_scale(x, w, 1); l = c.code.d.lin_add(&e, &l, &y).unwrap(); }
                    comp.push(c.code.d.from_lin(&e, l, ITy::I32));
                }
                let pv = vagg(vec![scal(&comp[0]), scal(&comp[1]), scal(&t)]);
                let g = c.s("axial");
                c.equal(&format!("parent, {} resolutions", if odd { "odd" } else { "even" }), f, whole(), &[("p", pv), ("a", scal(&a)), ("b", scal(&b))],
                    &|it, st, a| call_shaped(it, st, f, &a[..1], Some(0)),
                    &|it, st, a| it.call_flat(st, g, a[1..].iter().map(|v| Arg::V(v.clone())).collect()));
            }
            _ => {
                let (cf, sf) = [("_rotate60ccw", "l_turn_ccw"), ("_rotate60cw", "l_turn_cw")][k - 14];
                let d = c.code.d.new_sym("digit", 8);
                let d = c.code.d.sym_sc(d);
                let f = c.f(cf);
                let g = c.s(sf);
                c.equal("turn of a digit", f, whole(), &[("digit", scal(&d))],
                    &|it, st, a| call_shaped(it, st, f, a, None),
                    &|it, st, a| { let r = it.call_flat(st, g, vec![Arg::V(match &a[0] { V::S(s, _) => V::S(s.clone(), ITy { bits: 8, signed: false, float: false }), v => v.clone() })])?; Ok(r.into_iter().map(|(s, o)| (s, vec![(o[0].0.clone(), ITy::I32)])).collect()) });
            }
        }
    }
}
pub const UNITS: [[i128; 2]; 7] = [[0, 0], [-1, -1], [0, 1], [-1, 0], [1, 0], [0, -1], [1, 1]];
pub fn down_m(odd: bool) -> [[i128; 2]; 2] { if odd { [[2, 1], [-1, 3]] } else { [[3, -1], [1, 2]] } }

// ---------------------------------------------------------------- base cells
pub fn c10(c: &mut Ctx) {
    c.rules.push("base cell classification and lookup equal the frozen base cell tables for every argument, and the list of resolution 0 cells holds exactly the 122 base cells in order".into());
    c.code.d.poly = true;
    let e = Doms::new(vec![]);
    let b = c.code.d.new_sym("bc", 122);
    let bs = c.code.d.sym_sc(b);
    for (cf, sf) in [("_isBaseCellPentagon", "b_pent"), ("_isBaseCellPolarPentagon", "b_polar")] {
        let lo = c.code.d.fresh_int("bc", ITy::I32.min(), -1);
        let hi = c.code.d.fresh_int("bc", 122, ITy::I32.max());
        for (n, v) in [("in range", bs.clone()), ("negative", lo), ("beyond 121", hi)] { lat(c, &format!("{} {}", cf, n), cf, sf, whole(), &[("bc", scal(&v))], None, 0); }
    }
    let f = c.code.d.new_sym("face", 20);
    let fsc = c.code.d.sym_sc(f);
    let pm: u128 = PENT.iter().fold(0, |m, b| m | 1u128 << b);
    lat(c, "clockwise offset faces of pentagons", "_baseCellIsCwOffset", "b_cw", vec![("pentagon".into(), e.with(b, pm))], &[("bc", scal(&bs)), ("face", scal(&fsc))], None, 0);
    let xs: Vec<Sc> = ["i", "j", "k"].iter().map(|n| { let s = c.code.d.new_sym(n, 3); c.code.d.sym_sc(s) }).collect();
    let syms: Vec<Sym> = ["i", "j", "k"].iter().map(|n| c.code.d.syms.iter().position(|s| s.name == *n).unwrap() as Sym).collect();
    let mut cases = vec![];
    for x in 0..20 { for y in 0..3 { cases.push((format!("face {}, i {}", x, y), e.with(f, 1 << x).with(syms[0], 1 << y))); } }
    let q = vagg(vec![scal(&fsc), scal(&xs[0]), scal(&xs[1]), scal(&xs[2])]);
    for (cf, sf) in [("_faceIjkToBaseCell", "b_at"), ("_faceIjkToBaseCellCCWrot60", "b_turns")] { lat(c, cf, cf, sf, cases.clone(), &[("p", q.clone())], None, 0); }
    let n = c.f("res0CellCount");
    c.equal("number of base cells", n, whole(), &[], &|it, st, _| it.call_flat(st, n, vec![]), &|_, st, _| Ok(vec![(st, vec![(Sc::C(122), ITy::I32)])]));
    let g = c.f("getRes0Cells");
    c.equal("list of base cells", g, whole(), &[], &|it, st, _| it.call_flat(st, g, vec![]), &|_, st, _| {
        let mut o = vec![(Sc::C(0), ITy::I32), (Sc::C(122), ITy::U64)];
        for b in 0..122u64 { o.push((Sc::C((1u64 << 59 | b << 45 | 0x1fff_ffff_ffff) as u128), ITy::U64)); }
        Ok(vec![(st, o)])
    });
}

// ---------------------------------------------------------------- lattice normal form as a summary
/// (i, j, k) minus the smallest component
pub fn normal_form(it: &mut Interp, st: &St, p: [Sc; 3]) -> R<[Sc; 3]> {
    let e = &st.doms;
    let l: Vec<Lin> = p.iter().map(|x| it.d.to_lin(e, x, ITy::I32)).collect::<R<_>>()?;
    let nk = it.d.lin_scale(&l[2], -1, 1);
    let a = it.d.lin_add(e, &l[0], &nk)?;
    let b = it.d.lin_add(e, &l[1], &nk)?;
    let nonneg = |it: &Interp, l: &Lin| it.d.decide_pred(e, &Pred::Ge(Rc::new(l.clone())), None) == Some(true);
    let n = if nonneg(it, &a) && nonneg(it, &b) { Lin::zero() } else {
        let (sa, sb) = (it.d.from_lin(e, a.clone(), ITy::I32), it.d.from_lin(e, b.clone(), ITy::I32));
        match (&sa, &sb) {
            (Sc::L(_), _) | (_, Sc::L(_)) => {
                let ba = it.d.lin_scale(&it.d.lin_add(e, &a, &it.d.lin_scale(&b, -1, 1))?, -1, 1);
                let na = it.d.lin_scale(&a, -1, 1);
                let nb = it.d.lin_scale(&b, -1, 1);
                let ab = it.d.lin_scale(&ba, -1, 1);
                // the smallest component when the facts tell which one it is
                if nonneg(it, &na) && nonneg(it, &ba) { na } else if nonneg(it, &nb) && nonneg(it, &ab) { nb } else {
                    let u = it.d.new_usym(Term::Norm(Rc::new(a.clone()), Rc::new(b.clone())), None, None, true);
                    Lin { den: 1, c: 0, tabs: vec![], unb: vec![(u, 1)] }
                }
            }
            _ => { let m = it.d.map2(e, &sa, &sb, |x, y| ITy::I32.wrap(0.max(-ITy::I32.to_i(x)).max(-ITy::I32.to_i(y))))?; it.d.to_lin(e, &m, ITy::I32)? }
        }
    };
    let i = it.d.lin_add(e, &a, &n)?;
    let j = it.d.lin_add(e, &b, &n)?;
    Ok([it.d.from_lin(e, i, ITy::I32), it.d.from_lin(e, j, ITy::I32), it.d.from_lin(e, n, ITy::I32)])
}
fn scs(v: &V) -> R<[Sc; 3]> {
    match v { V::Agg(p) if p.len() == 3 => { let mut o = vec![]; for x in p.iter() { match x { V::S(s, _) => o.push(s.clone()), _ => return fail("coordinate") } } Ok([o[0].clone(), o[1].clone(), o[2].clone()]) } _ => fail("coordinate") }
}
/// replace the normalising function of the code and of the reference by its (separately decided) summary
pub fn summarise_normal(c: &mut Ctx) {
    let f = c.f("_ijkNormalize");
    if f == FnId::MAX { return; }
    c.code.overrides.insert(f, Rc::new(|it: &mut Interp, st: St, args: &[V], f: FnId| {
        let t = it.p.funcs[f as usize].inputs[0];
        let v = it.deref(&st, &args[0])?;
        let p = scs(&canonical(it, t, &v))?;
        let q = normal_form(it, &st, p)?;
        let v = coord(it, t, &pt(&q));
        let mut st = st;
        it.store(&mut st, &args[0], v)?;
        Ok(vec![(st, vagg(vec![]))])
    }));
    let g = c.s("normal");
    c.spec.overrides.insert(g, Rc::new(|it: &mut Interp, st: St, args: &[V], _: FnId| {
        let p = scs(&args[0])?;
        let q = normal_form(it, &st, p)?;
        Ok(vec![(st, pt(&q))])
    }));
}

// ---------------------------------------------------------------- planar address to index
/// planar address at resolution `res` of the cell reached from base coordinate b by digits
fn descend(c: &mut Ctx, b: [Lin; 2], ds: &[Sym]) -> [Lin; 2] {
    let e = Doms::new(vec![]);
    let mut p = b;
    for (r, d) in ds.iter().enumerate() {
        let m = down_m((r + 1) % 2 == 1);
        let mut q = vec![];
        for k in 0..2 {
            let mut l = Lin { den: 1, c: 0, tabs: vec![(vec![*d], Rc::new(UNITS.iter().map(|u| u[k]).collect()))], unb: vec![] };
            for x in 0..2 { let y = c.code.d.lin_scale(&p[x], m[k][x], 1); l = c.code.d.lin_add(&e, &l, &y).unwrap(); }
            q.push(l);
        }
        p = [q[0].clone(), q[1].clone()];
    }
    p
}
pub fn c11(c: &mut Ctx) {
    c.rules.push("a planar address (face, lattice coordinate, resolution) is mapped to the index whose digits address it, placed on the base cell of the frozen face table and turned into that cell's orientation".into());
    let work: Vec<(u32, u32)> = c.ress().rev().flat_map(|r| (0..20).map(move |f| (r, f))).filter(|w| std::env::var("FACE").map_or(true, |f| f == w.1.to_string())).collect();
    let l = lemmas(c);
    c.par(work.len(), &|c, k| {
        let (res, face) = work[k];
        c.code.d.poly = true;
        by_meaning(c, l);
        let f = c.f("_faceIjkToH3");
        let g = c.s("place");
        let e = Doms::new(vec![]);
        let ds: Vec<Sym> = (1..=res).map(|r| c.code.d.new_sym(&format!("d{}", r), 7)).collect();
        let mut dsc = vec![Sc::C(0)];
        for r in 1..=15 { dsc.push(if r <= res as usize { c.code.d.sym_sc(ds[r - 1]) } else { Sc::C(7) }); }
        let h0 = c.code.mk_index(&Sc::C(0), &Sc::C(1), &Sc::C(0), &Sc::C(res as u128), &Sc::C(0), &dsc);
        let shift = c.code.d.fresh_int("shift", 0, 1 << 24);
        let ls = c.code.d.to_lin(&e, &shift, ITy::I32).unwrap();
        let mut bases: Vec<(String, [Sc; 3])> = vec![];
        for x in 0..27i128 {
            let t = [x / 9, x / 3 % 3, x % 3];
            if t.iter().all(|v| *v > 0) { continue; }
            bases.push((format!("at {:?}", t), [Sc::C(t[0] as u128), Sc::C(t[1] as u128), Sc::C(t[2] as u128)]));
        }
        if face == 0 {
            let big = c.code.d.fresh_int("big", 3, 40);
            let any = c.code.d.fresh_int("any", 0, 40);
            for z in 0..3 { for y in 0..3 { if y != z {
                let mut p = [Sc::C(0), Sc::C(0), Sc::C(0)];
                p[y] = big.clone();
                p[3 - y - z] = any.clone();
                bases.push((format!("out of range {} {}", y, z), p));
            } } }
        }
        for (n, b) in bases {
            let l: Vec<Lin> = b.iter().map(|x| c.code.d.to_lin(&e, x, ITy::I32).unwrap()).collect();
            let nk = c.code.d.lin_scale(&l[2], -1, 1);
            let ax = [c.code.d.lin_add(&e, &l[0], &nk).unwrap(), c.code.d.lin_add(&e, &l[1], &nk).unwrap()];
            let p = descend(c, ax, &ds);
            let at = if res == 0 { b.clone() } else {
                let x = c.code.d.lin_add(&e, &p[0], &ls).unwrap();
                let y = c.code.d.lin_add(&e, &p[1], &ls).unwrap();
                [c.code.d.from_lin(&e, x, ITy::I32), c.code.d.from_lin(&e, y, ITy::I32), shift.clone()]
            };
            let fv = i(face as i128);
            let q = vagg(vec![fv.clone(), scal(&at[0]), scal(&at[1]), scal(&at[2])]);
            let bq = vagg(vec![fv, scal(&b[0]), scal(&b[1]), scal(&b[2])]);
            // pentagons: by the position of the first non-zero digit
            let pent = match (&b[0], &b[1], &b[2]) { (Sc::C(x), Sc::C(y), Sc::C(z)) => crate::checks_geo::is_pent_at(c, face, (*x * 9 + *y * 3 + *z) as usize), _ => false };
            let mut cases = vec![];
            if pent {
                for j in 1..=res + 1 {
                    let mut d = e.clone();
                    for r in 1..j { d = d.with(ds[r as usize - 1], 1); }
                    if j <= res { d = d.with(ds[j as usize - 1], 0b1111110); }
                    cases.push((format!("{}, first digit at {}", n, j), d));
                }
            } else { cases.push((n, e.clone())); }
            c.equal(&format!("index of a planar address on face {} at resolution {}", face, res), f, cases, &[("p", q), ("res", i(res as i128)), ("digits", V::S(h0.clone(), ITy::U64)), ("base", bq)],
                &|it, st, a| call_shaped(it, st, f, &a[..2], None),
                &|it, st, a| it.call_flat(st, g, a[2..].iter().map(|v| Arg::V(v.clone())).collect()));
        }
    });
}
/// whether the frozen table has a pentagon at that place
pub fn is_pent_at(c: &mut Ctx, face: u32, k: usize) -> bool {
    let g = c.s("b_at");
    c.swap();
    let p = vagg(vec![i(face as i128), i((k / 9) as i128), i((k / 3 % 3) as i128), i((k % 3) as i128)]);
    let r = c.spec.call_flat(St::new(), g, vec![Arg::V(p)]);
    c.swap();
    match r { Ok(v) => match &v[0].1[0].0 { Sc::C(b) => PENT.contains(&(*b as u32)), _ => false }, Err(_) => false }
}

// ---------------------------------------------------------------- index to planar address
const FACES: u32 = 20;
fn lin_of(it: &mut Interp, st: &St, s: &Sc) -> R<Lin> { let e = st.doms.clone(); it.d.to_lin(&e, s, ITy::I32) }
fn is_const(v: &V) -> bool { match v { V::S(s, _) => matches!(s, Sc::C(_)), V::Agg(p) => p.iter().all(is_const), V::Enum(s, _) => matches!(s, Sc::C(_)), _ => false } }
/// stepping by a digit as a sum with a table of unit vectors
fn step_by(it: &mut Interp, st: &St, p: [Sc; 3], d: &Sc) -> R<[Sc; 3]> {
    let e = st.doms.clone();
    let nk = { let l = lin_of(it, st, &p[2])?; it.d.lin_scale(&l, -1, 1) };
    let mut q = vec![];
    for x in 0..2 {
        let l = lin_of(it, st, &p[x])?;
        let l = it.d.lin_add(&e, &l, &nk)?;
        let t = match d { Sc::C(c) => Sc::C(ITy::I32.wrap(UNITS.get(*c as usize).map_or(0, |u| u[x]))), Sc::T(t) => it.d.map1(&e, t, |v| ITy::I32.wrap(UNITS.get(v as usize).map_or(0, |u| u[x]))), _ => return fail("digit") };
        let t = lin_of(it, st, &t)?;
        let l = it.d.lin_add(&e, &l, &t)?;
        q.push(it.d.from_lin(&e, l, ITy::I32));
    }
    normal_form(it, st, [q[0].clone(), q[1].clone(), Sc::C(0)])
}
/// replace single steps by their (separately decided) summary
pub fn summarise_step(c: &mut Ctx) {
    let f = c.f("_neighbor");
    if f == FnId::MAX { return; }
    c.code.overrides.insert(f, Rc::new(|it: &mut Interp, st: St, args: &[V], f: FnId| {
        let t = it.p.funcs[f as usize].inputs[0];
        let v = it.deref(&st, &args[0])?;
        let p = scs(&canonical(it, t, &v))?;
        let d = match &args[1] { V::Enum(s, _) => s.clone(), V::S(s, _) => s.clone(), _ => return fail("direction") };
        let q = step_by(it, &st, p, &d)?;
        let v = coord(it, t, &pt(&q));
        let mut st = st;
        it.store(&mut st, &args[0], v)?;
        Ok(vec![(st, vagg(vec![]))])
    }));
    let g = c.s("l_step");
    c.spec.overrides.insert(g, Rc::new(|it: &mut Interp, st: St, args: &[V], _: FnId| {
        let p = scs(&args[0])?;
        let d = match &args[1] { V::S(s, _) => s.clone(), _ => return fail("direction") };
        let q = step_by(it, &st, p, &d)?;
        Ok(vec![(st, pt(&q))])
    }));
}
/// what moving to another face may answer: anything that stays on the grid it was given,
/// at most CHAIN times in a row.  Constant arguments are moved by the real function.
const CHAIN: usize = 4;
fn move_any(it: &mut Interp, st: &St, a: &[V], odd: bool) -> R<Vec<(St, [V; 2])>> {
    let p = match &a[0] { V::Agg(p) if p.len() == 4 => p.clone(), _ => return fail("face coordinate") };
    let mut key = vec![];
    for x in p.iter().chain(a[1..].iter()) { match x { V::S(s, _) => { let s = it.d.resimp(&st.doms, s); key.push(match s { Sc::T(t) => Sc::T(it.d.only_feasible(&st.doms, &t)), s => s }) } _ => return fail("argument") } }
    let depth = match &key[0] { Sc::L(l) if l.unb.len() == 1 => match &it.d.usyms[l.unb[0].0 as usize].term { Term::App(n, _) => n.strip_prefix("face.").and_then(|x| x.parse::<usize>().ok()).unwrap_or(0), _ => 0 }, _ => 0 };
    let stay = |st: St| (st, [vagg(p.to_vec()), i(0)]);
    if depth >= CHAIN { return Ok(vec![stay(st.clone())]); }
    // the same question asked before in a wider state
    let name = format!("face.{}", depth + 1);
    let known: Vec<Vec<Sc>> = it.d.usyms.iter().filter_map(|u| match &u.term { Term::App(n, a) if *n == name => Some(a.clone()), _ => None }).collect();
    for k in known {
        if k.len() == key.len() && k.iter().zip(&key).all(|(x, y)| x == y || it.d.cmp(&st.doms, "Eq", x, y, ITy::I32).map_or(false, |r| r == Sc::C(1))) { key = k; break; }
    }
    let flag = it.d.pred_sc(&st.doms, Pred::Op("moves".into(), key.clone()));
    let mut out = vec![];
    for (s, v) in it.cases_of(st, &flag)? {
        if v == 0 { out.push(stay(s)); continue; }
        let f = it.d.new_usym(Term::App(format!("face.{}", depth + 1), key.clone()), Some(0), Some(19), true);
        let x = it.d.new_usym(Term::App("a".into(), key.clone()), Some(-(1 << 24)), Some(1 << 24), true);
        let y = it.d.new_usym(Term::App("b".into(), key.clone()), Some(-(1 << 24)), Some(1 << 24), true);
        let e = s.doms.clone();
        let m = if odd { down_m(false) } else { [[1, 0], [0, 1]] };
        let q: Vec<Sc> = (0..2).map(|r| it.d.from_lin(&e, Lin { den: 1, c: 0, tabs: vec![], unb: { let mut v = vec![(x, m[r][0]), (y, m[r][1])]; v.sort(); v } }, ITy::I32)).collect();
        let n = normal_form(it, &s, [q[0].clone(), q[1].clone(), Sc::C(0)])?;
        let fs = it.d.unb_sc(f);
        out.push((s, [vagg(vec![scal(&fs), scal(&n[0]), scal(&n[1]), scal(&n[2])]), i(2)]));
    }
    Ok(out)
}
fn any_move(c: &mut Ctx, odd: bool) {
    let f = c.f("_adjustOverageClassII");
    if f == FnId::MAX { return; }
    c.code.overrides.insert(f, Rc::new(move |it: &mut Interp, st: St, args: &[V], f: FnId| {
        let t = it.p.funcs[f as usize].inputs[0];
        let v = it.deref(&st, &args[0])?;
        let p = canonical(it, it_target(it, t), &v);
        let a = vec![p, args[1].clone(), args[2].clone(), args[3].clone()];
        if a.iter().all(is_const) { let body = it.p.funcs[f as usize].body.as_ref().ok_or(Stop::Fail("no body".into()))?; return it.run_body(st, f, body, args.to_vec()); }
        let out = it.p.funcs[f as usize].output;
        let n = it.nvariants(out);
        let mut r = vec![];
        for (mut s, [p, v]) in move_any(it, &st, &a, odd)? {
            let p = match p { V::Agg(p) => face_pt(it, it_target(it, t), &p), _ => unreachable!() };
            it.store(&mut s, &args[0], p)?;
            let v = match v { V::S(s, _) => it.enum_sc(s, n), v => v };
            r.push((s, v));
        }
        Ok(r)
    }));
    let g = c.s("overage");
    c.spec.overrides.insert(g, Rc::new(move |it: &mut Interp, st: St, args: &[V], g: FnId| {
        if args.iter().all(is_const) { let body = it.p.funcs[g as usize].body.as_ref().unwrap(); return it.run_body(st, g, body, args.to_vec()); }
        Ok(move_any(it, &st, args, odd)?.into_iter().map(|(s, [p, v])| (s, vagg(vec![p, v]))).collect())
    }));
}
fn it_target(it: &Interp, t: TyId) -> TyId { match &it.p.types[t as usize].kind { TypeKind::Ref { ty, .. } | TypeKind::Ptr { ty, .. } => *ty, _ => t } }
pub fn c12(c: &mut Ctx) {
    c.rules.push("moving a coordinate to the face it lies on equals the reference for every coordinate; following the digits of an index from its base cell and moving to the right face equals the reference for every valid cell".into());
    let ress: Vec<u32> = c.ress().chain([16]).filter(|r| r % 2 == 0).collect();
    let mut work: Vec<(u32, u32)> = c.ress().rev().map(|r| (100, r)).collect();
    for r in &ress { for f in 0..FACES { work.push((f, *r)); } }
    let l = lemmas(c);
    c.par(work.len(), &|c, k| {
        let (face, res) = work[k];
        c.code.d.poly = true;
        if l.normal { summarise_normal(c); }
        if face < FACES { c12_move(c, face, res); } else { c12_index(c, res, l); }
    });
}
fn c12_move(c: &mut Ctx, face: u32, res: u32) {
    let f = c.f("_adjustOverageClassII");
    if f == FnId::MAX { c.obligations += 1; return; }
    let g = c.s("overage");
    let b = 1 << 26;
    for z in 0..3 {
        let mut p = vec![i(face as i128)];
        for x in 0..3 { p.push(if x == z { i(0) } else { let s = c.code.d.fresh_int("x", 0, b); scal(&s) }); }
        for fl in 0..4u128 {
            let (p4, sub) = (V::S(Sc::C(fl & 1), ITy::BOOL), V::S(Sc::C(fl >> 1), ITy::BOOL));
            c.equal(&format!("move from face {} at resolution {}", face, res), f, vec![(format!("zero component {}, flags {}", z, fl), Doms::new(vec![]))], &[("p", vagg(p.clone())), ("res", i(res as i128)), ("pentagon", p4), ("substrate", sub)],
                &|it, st, a| {
                    let t = it_target(it, it.p.funcs[f as usize].inputs[0]);
                    let p = shaped(it, f, 0, &a[0]);
                    let ot = it.p.funcs[f as usize].output;
                    let mut out = vec![];
                    for (s, v) in it.call(st, f, vec![Arg::R(p), Arg::V(a[1].clone()), Arg::V(a[2].clone()), Arg::V(a[3].clone())])? {
                        for (s, o) in flat_canonical(it, s, &v[1], t)? { for (s2, o2) in it.flat(s, &v[0], ot)? { let mut o = o.clone(); o.extend(o2); out.push((s2, o)); } }
                    }
                    Ok(out)
                },
                &|it, st, a| it.call_flat(st, g, a.iter().map(|v| Arg::V(v.clone())).collect()));
        }
    }
}
/// Ok of a face coordinate in canonical order
fn res_face(it: &mut Interp, st: St, v: &V, t: TyId) -> R<Vec<(St, Obs)>> {
    let (i, pay) = match v { V::Enum(i, p) => (i.clone(), p.clone()), _ => return it.flat(st, v, t) };
    let fts: Vec<TyId> = match &it.p.types[t as usize].kind { TypeKind::Adt { variants, .. } => variants[0].fields.iter().map(|f| f.ty).collect(), _ => return it.flat(st, v, t) };
    let mut out = vec![];
    for (s, k) in it.cases_of(&st, &i)? {
        if k != 0 { out.extend(it.flat(s, &V::Enum(Sc::C(k), pay.clone()), t)?); continue; }
        let p = pay[0].clone().ok_or(Stop::Fail("no value".into()))?;
        for (s, o) in flat_canonical(it, s, &p[0], fts[0])? { let mut x = vec![(Sc::C(0), ITy::I32)]; x.extend(o); out.push((s, x)); }
    }
    Ok(out)
}
fn c12_index(c: &mut Ctx, res: u32, l: Lemmas) {
    if l.step { summarise_step(c); }
    let f = c.f("_h3ToFaceIjk");
    if f == FnId::MAX { c.obligations += 1; return; }
    any_move(c, res % 2 == 1);
    let g = c.s("to_face");
    let cell = c.code.mk_cell("c", res);
    let e = Doms::new(vec![]);
    let pm: u128 = PENT.iter().fold(0, |m, b| m | 1u128 << b);
    let mut cases = vec![("hexagon base cell".to_string(), e.with(cell.bcs, full(122) & !pm))];
    for j in 1..=res + 1 {
        let mut d = e.with(cell.bcs, pm);
        for r in 1..j { d = d.with(cell.ds[r as usize].unwrap(), 1); }
        if j > res { cases.push(("pentagon".into(), d)); continue; }
        for x in 2..7 { cases.push((format!("pentagon base cell, first digit {} at {}", x, j), d.with(cell.ds[j as usize].unwrap(), 1 << x))); }
    }
    let code: &dyn Fn(&mut Interp, St, &[V]) -> R<Vec<(St, Obs)>> = &|it, st, a| {
        let t = it.p.funcs[f as usize].output;
        let mut out = vec![];
        for (s, v) in it.call(st, f, vec![Arg::V(a[0].clone())])? { out.extend(res_face(it, s, &v[0], t)?); }
        Ok(out)
    };
    let spec: &dyn Fn(&mut Interp, St, &[V]) -> R<Vec<(St, Obs)>> = &|it, st, a| it.call_flat(st, g, vec![Arg::V(a[0].clone())]);
    c.equal(&format!("planar address of a cell of resolution {}", res), f, cases, &[("h", V::S(cell.h.clone(), ITy::U64))], code, spec);
    let bad = c.code.d.new_sym_vals("base cell", (122..128).collect());
    let bad = c.code.d.sym_sc(bad);
    let h = c.code.mk_index(&Sc::C(0), &Sc::C(1), &Sc::C(0), &Sc::C(res as u128), &bad, &cell.d);
    c.equal(&format!("base cells beyond 121 at resolution {}", res), f, whole(), &[("h", V::S(h, ITy::U64))], code, spec);
}

/// decoding a cell and encoding its place gives the cell back
pub fn c09(c: &mut Ctx) {
    c.rules.push("encoding the planar address that decoding a valid cell yields gives that cell back, for every base cell, resolution and digit string".into());
    let only: Option<u32> = std::env::var("BC").ok().and_then(|x| x.parse().ok());
    let work: Vec<(u32, u32)> = c.ress().rev().flat_map(|r| (0..122).map(move |b| (r, b))).filter(|w| !PENT.contains(&w.1) && only.map_or(true, |b| b == w.1)).collect();
    let l = lemmas(c);
    c.par(work.len(), &|c, k| {
        let (res, bc) = work[k];
        c.code.d.poly = true;
        by_meaning(c, l);
        if l.step { summarise_step(c); }
        let (f, g) = (c.f("_h3ToFaceIjk"), c.f("_faceIjkToH3"));
        if f == FnId::MAX || g == FnId::MAX { c.obligations += 1; return; }
        let cell = c.code.mk_cell("c", res);
        let b = Sc::C(bc as u128);
        let h = c.code.mk_index(&Sc::C(0), &Sc::C(1), &Sc::C(0), &Sc::C(res as u128), &b, &cell.d);
        let e = Doms::new(vec![]);
        let cases = vec![("any digits".to_string(), e)];
        c.equal(&format!("decode and encode, base cell {}, resolution {}", bc, res), f, cases, &[("h", V::S(h, ITy::U64))],
            &|it, st, a| {
                let mut out = vec![];
                for (s, v) in it.call(st, f, vec![Arg::V(a[0].clone())])? {
                    let (tag, pay) = match &v[0] { V::Enum(t, p) => (t.clone(), p.clone()), _ => return fail("result") };
                    for (s, t) in it.cases_of(&s, &tag)? {
                        if t != 0 { out.push((s, vec![(Sc::C(t), ITy::I32), (Sc::C(0), ITy::U64)])); continue; }
                        let p = pay[0].clone().ok_or(Stop::Fail("no value".into()))?[0].clone();
                        let arg = if is_mut_ref(it, g, 0) { Arg::R(p) } else { Arg::V(p) };
                        for (s, w) in it.call(s, g, vec![arg, Arg::V(i(res as i128))])? {
                            let x = match &w[0] { V::S(x, _) => it.d.resimp(&s.doms, x), _ => return fail("index") };
                            out.push((s, vec![(Sc::C(0), ITy::I32), (x, ITy::U64)]));
                        }
                    }
                }
                Ok(out)
            },
            &|it, st, a| {
                let x = match &a[0] { V::S(x, _) => it.d.resimp(&st.doms, x), _ => return fail("index") };
                Ok(vec![(st, vec![(Sc::C(0), ITy::I32), (x, ITy::U64)])])
            });
    });
}

// ---------------------------------------------------------------- nearest hexagon
const SIN60: f64 = 0.866025403784438646763723170752936183;
/// every point of the plane is given to a hexagon whose centre is nearest
pub fn c13(c: &mut Ctx) {
    c.rules.push("for every point of the plane, in real arithmetic, the chosen lattice point is in normal form and none of its six neighbours is closer to the point by more than one millionth of the lattice unit".into());
    c.code.d.poly = true;
    c.code.d.assumed.push("real-arithmetic".into());
    c.spec.d.poly = true;
    c.spec.d.assumed.push("real-arithmetic".into());
    c.code.apart = true;
    c.notes.push("double arithmetic is read as real arithmetic; constants have their nominal values".into());
    if lemmas(c).normal { summarise_normal(c); }
    let f = c.f("_hex2dToCoordIJK");
    if f == FnId::MAX { c.obligations += 1; return; }
    // the centre of a lattice point
    let g = c.f("_ijkToHex2d");
    if g != FnId::MAX {
        let p = any_pt(&mut c.code, "p", BOUND);
        let pv = pt(&p);
        c.equal("centre of a lattice point", g, whole(), &[("p", pv)],
            &|it, st, a| {
                let rt = it.p.funcs[g as usize].output;
                let r0 = shaped(it, g, 0, &a[0]);
                let arg = if is_mut_ref(it, g, 0) { Arg::R(r0) } else { Arg::V(r0) };
                let q = scs(&a[0])?;
                let mut out = vec![];
                for (s, vs) in it.call(st, g, vec![arg])? {
                    let fs = fields_of(it, rt);
                    let (mut x, mut y) = (None, None);
                    if let V::Agg(v) = &vs[0] { for (k, f) in fs.iter().enumerate() { if let V::S(z, _) = &v[k] { if f.0 == "x" { x = Some(z.clone()); } else if f.0 == "y" { y = Some(z.clone()); } } } }
                    let (x, y) = match (x, y) { (Some(x), Some(y)) => (x, y), _ => return fail("planar point") };
                    let e = s.doms.clone();
                    let l: Vec<Lin> = q.iter().map(|z| it.d.to_lin(&e, z, ITy::I32)).collect::<R<_>>()?;
                    let nk = it.d.lin_scale(&l[2], -1, 1);
                    let a = it.d.lin_add(&e, &l[0], &nk)?;
                    let b = it.d.lin_add(&e, &l[1], &nk)?;
                    let wx = { let h = it.d.lin_scale(&b, -1, 2); it.d.lin_add(&e, &a, &h)? };
                    let t = it.d.binop(&e, "Div", &y, &Sc::C(SIN60.to_bits() as u128), F64, F64, false)?.0;
                    let mut o = vec![];
                    for (v, w) in [(x, wx), (t, b)] {
                        let lv = it.d.to_lin(&e, &v, F64)?;
                        let nw = it.d.lin_scale(&w, -1, 1);
                        let d = it.d.lin_add(&e, &lv, &nw)?;
                        // |d| <= 10^-9
                        for sg in [1, -1] {
                            let z = it.d.lin_scale(&d, sg, 1);
                            let z = it.d.lin_add(&e, &z, &Lin { den: 1_000_000_000, c: 1, tabs: vec![], unb: vec![] })?;
                            o.push((it.d.lin_ge(&e, Lin { den: 1, ..z }, false), ITy::BOOL));
                        }
                    }
                    out.push((s, o));
                }
                Ok(out)
            },
            &|_, st, _| Ok(vec![(st, (0..4).map(|_| (Sc::C(1), ITy::BOOL)).collect())]));
    }
    const FINE: i128 = 1_008_000;
    const FAR: i128 = 1 << 25;
    let e = Doms::new(vec![]);
    // |x| = m1 + r1 - (m2 + r2)/2, |y| = sin 60 (m2 + r2), 0 <= r1, r2 < 1
    let m1 = c.code.d.fresh_int("m1", 0, FAR);
    let half = c.code.d.fresh_int("m2/2", 0, FAR / 2);
    let odd = c.code.d.new_sym("m2 odd", 2);
    let mut real = |c: &mut Ctx, n: &str| { let u = c.code.d.new_usym(Term::Fresh(n.into()), Some(0), Some(FINE), false); Lin { den: FINE, c: 0, tabs: vec![], unb: vec![(u, 1)] } };
    let (r1, r2) = (real(c, "r1"), real(c, "r2"));
    let d = &mut c.code.d;
    let add = |d: &mut Dom, a: &Lin, b: &Lin| d.lin_add(&e, a, b).unwrap();
    let lm1 = d.to_lin(&e, &m1, ITy::I32).unwrap();
    let h = d.to_lin(&e, &half, ITy::I32).unwrap();
    let o = d.sym_sc(odd);
    let o = d.to_lin(&e, &o, ITy::I32).unwrap();
    let h2 = d.lin_scale(&h, 2, 1);
    let lm2 = add(d, &h2, &o);
    let x1 = add(d, &lm1, &r1);
    let x2 = add(d, &lm2, &r2);
    let hx = d.lin_scale(&x2, -1, 2);
    let ax = add(d, &x1, &hx);
    let (n, k) = nominal(SIN60).unwrap();
    let ay = d.lin_scale(&x2, n, k);
    let mut dom = e.clone();
    for r in [&r1, &r2] {
        let mut below = d.lin_scale(r, -1, 1);
        below.c += below.den;
        if let Sc::T(t) = d.lin_ge(&e, Lin { den: 1, ..below }, true) { dom = dom.with(t.sup[0], 2); }
    }
    if let Sc::T(t) = d.lin_ge(&e, Lin { den: 1, ..ax.clone() }, false) { dom = dom.with(t.sup[0], 2); }
    for (nx, sx) in [("x >= 0", 1), ("x < 0", -1)] {
        for (ny, sy) in [("y >= 0", 1), ("y < 0", -1)] {
            let d = &mut c.code.d;
            let lx = d.lin_scale(&ax, sx, 1);
            let ly = d.lin_scale(&ay, sy, 1);
            let mut dm = dom.clone();
            if sx < 0 { if let Sc::T(t) = d.lin_ge(&dm, Lin { den: 1, ..ax.clone() }, true) { dm = dm.with(t.sup[0], 2); } }
            if sy < 0 { if let Sc::T(t) = d.lin_ge(&dm, Lin { den: 1, ..x2.clone() }, true) { dm = dm.with(t.sup[0], 2); } }
            let v = vagg(vec![V::S(d.from_lin(&e, lx, F64), F64), V::S(d.from_lin(&e, ly, F64), F64)]);
            let cases = (0..2).map(|o| (format!("{}, {}, row {}", nx, ny, o), dm.with(odd, 1 << o))).collect();
            let good: Obs = (0..9).map(|_| (Sc::C(1), ITy::BOOL)).collect();
            let zero = vagg(vec![i(0), i(0), i(0)]);
            c.equal("nearest hexagon", f, cases, &[("(x,y)", v)],
                &|it, st, a| {
                    let t = it.p.funcs[f as usize].inputs[0];
                    let p = match &a[0] { V::Agg(p) => p.clone(), _ => return fail("point") };
                    let q = vagg(fields_of(it, t).iter().map(|(n, _)| if n == "y" { p[1].clone() } else { p[0].clone() }).collect());
                    let tz = match &it.p.types[it.p.funcs[f as usize].inputs[1] as usize].kind { TypeKind::Ref { ty, .. } => *ty, _ => return fail("output") };
                    let z = coord(it, tz, &zero);
                    let rs = it.call(st, f, vec![Arg::V(q), Arg::R(z)])?;
                    let (px, py) = match (&p[0], &p[1]) { (V::S(x, _), V::S(y, _)) => (x.clone(), y.clone()), _ => return fail("point") };
                    let mut out = vec![];
                    for (s, vs) in rs {
                        let r = scs(&canonical(it, tz, &vs[1]))?;
                        let rr = it.splitting(s, &mut |it, s| {
                            let e = &s.doms;
                            let lx = it.d.to_lin(e, &px, F64)?;
                            let t2 = it.d.binop(e, "Div", &py, &Sc::C(SIN60.to_bits() as u128), F64, F64, false)?.0;
                            let lt = it.d.to_lin(e, &t2, F64)?;
                            let li = it.d.to_lin(e, &r[0], ITy::I32)?;
                            let lj = it.d.to_lin(e, &r[1], ITy::I32)?;
                            let nk = { let k = it.d.to_lin(e, &r[2], ITy::I32)?; it.d.lin_scale(&k, -1, 1) };
                            let a = it.d.lin_add(e, &li, &nk)?;
                            let b = it.d.lin_add(e, &lj, &nk)?;
                            // the point relative to the centre: u along x, w along y in units of sin 60
                            let na = it.d.lin_scale(&a, -1, 1);
                            let hb = it.d.lin_scale(&b, 1, 2);
                            let nb = it.d.lin_scale(&b, -1, 1);
                            let u = { let x = it.d.lin_add(e, &lx, &na)?; it.d.lin_add(e, &x, &hb)? };
                            let w = it.d.lin_add(e, &lt, &nb)?;
                            let mut o = vec![];
                            // neighbours (1,0), (1/2,1), (-1/2,1) and their opposites; 2 p.n <= 1 + 10^-6
                            for (nu, nw) in [(2, 0), (1, 1), (-1, 1), (-2, 0), (-1, -1), (1, -1)] {
                                // 2 (u nu/2 + (3/4) w nw) = u nu + (3/2) w nw
                                let x = it.d.lin_scale(&u, -nu, 1);
                                let y = it.d.lin_scale(&w, -3 * nw, 2);
                                let mut z = it.d.lin_add(e, &x, &y)?;
                                let one = Lin { den: 1_000_000, c: 1_000_001, tabs: vec![], unb: vec![] };
                                z = it.d.lin_add(e, &z, &one)?;
                                o.push(it.d.lin_ge(e, Lin { den: 1, ..z }, false));
                            }
                            let ab = [it.d.from_lin(e, a, ITy::I32), it.d.from_lin(e, b, ITy::I32), Sc::C(0)];
                            let nf = normal_form(it, s, ab)?;
                            for k in 0..3 { let x = it.d.resimp(e, &r[k]); let q = it.d.cmp(e, "Eq", &x, &nf[k], ITy::I32)?; o.push(q); }
                            Ok(o)
                        })?;
                        for (s, o) in rr { out.push((s, o.into_iter().map(|x| (x, ITy::BOOL)).collect())); }
                    }
                    Ok(out)
                },
                &|_, st, _| Ok(vec![(st, good.clone())]));
        }
    }
}
