// The properties.  Every check builds symbolic cases, runs the abstract
// interpreter over the compiler's MIR of the analysed crate and compares with
// the reference definitions of /verif/spec.
use crate::checks_common::*;
use crate::dom::*;
use crate::harness::*;
use crate::interp::*;
use std::rc::Rc;

pub fn run(id: &str, c: &mut Ctx) -> bool {
    match id {
        "C01" => c01(c),
        "C02" => c02(c),
        "C03" => c03(c),
        "C04" => c04(c),
        "C05" => c05(c),
        "C06" => c06(c),
        "C07" => c07(c),
        "C08" => crate::checks_geo::c08(c),
        "C10" => crate::checks_geo::c10(c),
        "C11" => crate::checks_geo::c11(c),
        "C24" => c24(c),
        "C09" => crate::checks_geo::c09(c),
        "C12" => crate::checks_geo::c12(c),
        "C13" => crate::checks_geo::c13(c),
        "C17" => crate::checks_float::c17(c),
        "C18" => crate::checks_float::c18(c),
        "C21" => crate::checks_float::c21(c),
        "C14" => c14(c),
        "C15" => c15(c),
        "C16" => c16(c),
        "C19" => c19(c),
        "C20" => crate::checks_pure::c20(c),
        _ => return false,
    }
    true
}

/// every 64-bit pattern, field by field
fn any_index(it: &mut Interp) -> Sc {
    let hi = it.d.new_sym("hi", 2);
    let mode = it.d.new_sym("mode", 16);
    let rsv = it.d.new_sym("rsv", 8);
    let res = it.d.new_sym("res", 16);
    let bc = it.d.new_sym("bc", 128);
    let mut d = vec![Sc::C(0)];
    for r in 1..=15 { let s = it.d.new_sym(&format!("d{}", r), 8); d.push(it.d.sym_sc(s)); }
    let (hi, mode, rsv, res, bc) = (it.d.sym_sc(hi), it.d.sym_sc(mode), it.d.sym_sc(rsv), it.d.sym_sc(res), it.d.sym_sc(bc));
    it.mk_index(&hi, &mode, &rsv, &res, &bc, &d)
}
pub fn u(s: &Sc) -> V { V::S(s.clone(), U64) }
pub fn i(c: i128) -> V { vc(c, ITy::I32) }
pub fn whole() -> Vec<(String, Rc<Doms>)> { vec![("all".into(), Doms::new(vec![]))] }

/// same function of the same arguments on both sides
pub fn same(c: &mut Ctx, ob: &str, cf: &str, sf: &str, cases: Vec<(String, Rc<Doms>)>, inputs: &[(&str, V)]) {
    let f = c.f(cf);
    let g = c.s(sf);
    c.equal(ob, f, cases, inputs,
        &|it, st, a| it.call_flat(st, f, a.iter().map(|v| Arg::V(v.clone())).collect()),
        &|it, st, a| it.call_flat(st, g, a.iter().map(|v| Arg::V(v.clone())).collect()));
}
/// the code takes its first argument by mutable reference, the reference returns the new value
fn setter(c: &mut Ctx, ob: &str, cf: &str, sf: &str, cases: Vec<(String, Rc<Doms>)>, inputs: &[(&str, V)]) {
    let f = c.f(cf);
    let g = c.s(sf);
    c.equal(ob, f, cases, inputs,
        &|it, st, a| {
            let mut args = vec![Arg::R(a[0].clone())];
            args.extend(a[1..].iter().map(|v| Arg::V(v.clone())));
            it.call_flat(st, f, args)
        },
        &|it, st, a| it.call_flat(st, g, a.iter().map(|v| Arg::V(v.clone())).collect()));
}

fn c01(c: &mut Ctx) {
    c.rules.push("every accessor equals the reference bit layout on all 2^64 patterns, and every setter changes its own field only".into());
    let h = any_index(&mut c.code);
    for (cf, sf) in [("H3_GET_HIGH_BIT", "field_high"), ("H3_GET_MODE", "field_mode"), ("H3_GET_RESERVED_BITS", "field_reserved"),
                     ("H3_GET_RESOLUTION", "field_res"), ("getResolution", "field_res"), ("H3_GET_BASE_CELL", "field_bc")] {
        same(c, cf, cf, sf, whole(), &[("h", u(&h))]);
    }
    for r in 1..=15 {
        let ob = format!("H3_GET_INDEX_DIGIT at {}", r);
        let f = c.f("H3_GET_INDEX_DIGIT");
        let g = c.s("digit_i");
        c.equal(&ob, f, whole(), &[("h", u(&h)), ("r", i(r))],
            &|it, st, a| it.call_flat(st, f, a.iter().map(|v| Arg::V(v.clone())).collect()),
            &|it, st, a| it.call_flat(st, g, a.iter().map(|v| Arg::V(v.clone())).collect()));
    }
    for (cf, sf, n) in [("H3_SET_HIGH_BIT", "with_high", 2), ("H3_SET_MODE", "with_mode", 16), ("H3_SET_RESERVED_BITS", "with_reserved", 8),
                        ("H3_SET_RESOLUTION", "with_res", 16), ("H3_SET_BASE_CELL", "with_bc", 122)] {
        let v = c.code.d.new_sym("v", n);
        let v = c.code.d.sym_sc(v);
        setter(c, cf, cf, sf, whole(), &[("h", u(&h)), ("v", V::S(v, ITy::I32))]);
    }
    for r in 1..=15 {
        let v = c.code.d.new_sym("v", 8);
        let v = c.code.d.sym_sc(v);
        setter(c, &format!("H3_SET_INDEX_DIGIT at {}", r), "H3_SET_INDEX_DIGIT", "set_digit_i", whole(), &[("h", u(&h)), ("r", i(r)), ("v", V::S(v, ITy::I32))]);
    }
    let f = c.f("setH3Index");
    let g = c.s("make_index");
    for res in 0..=15 {
        let b = c.code.d.new_sym("bc", 122);
        let b = c.code.d.sym_sc(b);
        let v = c.code.d.new_sym("v", 7);
        let v = c.code.d.sym_sc(v);
        let h0 = h.clone();
        c.equal(&format!("setH3Index at resolution {}", res), f, whole(), &[("res", i(res)), ("bc", V::S(b, ITy::I32)), ("digit", V::S(v, ITy::I32))],
            &|it, st, a| {
                let mut args = vec![Arg::R(u(&h0))];
                args.extend(a.iter().map(|v| Arg::V(v.clone())));
                it.call_flat(st, f, args)
            },
            &|it, st, a| it.call_flat(st, g, a.iter().map(|v| Arg::V(v.clone())).collect()));
    }
}

fn c02(c: &mut Ctx) {
    c.rules.push("isValidCell equals the reference predicate on all 2^64 patterns".into());
    let h = any_index(&mut c.code);
    let ress = match &h { Sc::B(_) => c.code.d.syms.iter().position(|s| s.name == "res").unwrap() as Sym, _ => panic!() };
    let e = Doms::new(vec![]);
    let mut cases = vec![];
    for r in 0..16u32 { cases.push((format!("resolution field {}", r), e.with(ress, 1u128 << r))); }
    same(c, "isValidCell", "isValidCell", "is_valid", cases, &[("h", u(&h))]);
    // valid cells of every shape: the pentagon test and the leading digit
    c.par_res(&|c, res| {
        let cell = c.code.mk_cell(&format!("r{}", res), res);
        let cs = c.code.valid_cases(&cell);
        same(c, &format!("isPentagon at resolution {}", res), "isPentagon", "is_pentagon", cs.clone(), &[("h", u(&cell.h))]);
    });
}

fn c03(c: &mut Ctx) {
    c.rules.push("cellToChildrenSize equals the closed form for every cell shape and every requested resolution".into());
    c.par_res(&|c, res| {
        let cell = c.code.mk_cell(&format!("r{}", res), res);
        let cs = c.code.valid_cases(&cell);
        let lo = c.code.d.fresh_int("childRes", ITy::I32.min(), res as i128 - 1);
        let hi = c.code.d.fresh_int("childRes", 16, ITy::I32.max());
        for q in res..=15 {
            same(c, &format!("cellToChildrenSize from {} to {}", res, q), "cellToChildrenSize", "children_count_r", cs.clone(), &[("h", u(&cell.h)), ("childRes", i(q as i128))]);
        }
        for (n, q) in [("coarser", lo), ("beyond 15", hi)] {
            same(c, &format!("cellToChildrenSize from {} to {}", res, n), "cellToChildrenSize", "children_count_r", cs.clone(), &[("h", u(&cell.h)), ("childRes", V::S(q, ITy::I32))]);
        }
    });
}

fn c07(c: &mut Ctx) {
    c.rules.push("the four index rotations equal the reference digit permutations (with the pentagon's deleted sequence skipped) on every valid cell".into());
    c.par_res(&|c, res| {
        let cell = c.code.mk_cell(&format!("r{}", res), res);
        let cs = c.code.valid_cases(&cell);
        for (cf, sf) in [("_h3Rotate60ccw", "rot_ccw"), ("_h3Rotate60cw", "rot_cw")] {
            same(c, &format!("{} at resolution {}", cf, res), cf, sf, cs.clone(), &[("h", u(&cell.h))]);
        }
        for (cf, sf) in [("_h3RotatePent60ccw", "rot_pent_ccw"), ("_h3RotatePent60cw", "rot_pent_cw")] {
            same(c, &format!("{} at resolution {}", cf, res), cf, sf, cs[1..].to_vec(), &[("h", u(&cell.h))]);
        }
    });
}

/// a symbolic direction 1..=6 as the code's enum and as the reference's number
fn dir_enum(it: &mut Interp, v: &V) -> V {
    match v { V::S(s, _) => it.enum_sc(s.clone(), 8), _ => panic!() }
}
const U8: ITy = ITy { bits: 8, signed: false, float: false };
fn trim_err(o: Vec<(St, Obs)>) -> Vec<(St, Obs)> {
    // results that are errors are compared by kind only
    o.into_iter().map(|(s, o)| { let e = match &o[0].0 { Sc::C(0) => false, _ => true }; (s, if e { o[..1].to_vec() } else { o }) }).collect()
}

fn c14(c: &mut Ctx) {
    c.rules.push("one step from every valid cell in every direction equals the reference step (cell and rotation, or error kind)".into());
    let rv: Vec<u32> = c.ress().rev().flat_map(|r| [r, r]).collect();
    c.par(rv.len(), &|c, k| {
        let (res, part) = (rv[k], k % 2);
        let f = c.f("h3NeighborRotations");
        let g = c.s("neighbor");
        let cell = c.code.mk_cell(&format!("r{}", res), res);
        let cs = c.code.valid_cases(&cell);
        let ds = c.code.d.new_sym("dir", 8);
        let dsc = c.code.d.sym_sc(ds);
        let rs = c.code.d.new_sym("rotations", 6);
        let rsc = c.code.d.sym_sc(rs);
        let mut cases = vec![];
        for (n, d) in cs { let (rn, m) = [("rotated", 0x3eu128), ("unrotated", 1)][part]; { cases.push((format!("{}, {}", n, rn), d.with(rs, m))); } }
        c.equal(&format!("step at resolution {}", res), f, cases, &[("h", u(&cell.h)), ("dir", V::S(dsc, U8)), ("rotations", V::S(rsc, ITy::I32))],
            &|it, st, a| {
                let d = dir_enum(it, &a[1]);
                Ok(trim_err(it.call_flat(st, f, vec![Arg::V(a[0].clone()), Arg::V(d), Arg::R(a[2].clone())])?))
            },
            &|it, st, a| Ok(trim_err(it.call_flat(st, g, vec![Arg::V(a[0].clone()), Arg::V(a[1].clone()), Arg::V(a[2].clone())])?)));
    });
}

/// shapes of (parent, child): parents that are hexagons with arbitrary children,
/// pentagonal parents with the position of the child's first non-zero digit below the parent (0: none)
fn child_cases(it: &mut Interp, cell: &Cell, pres: u32) -> Vec<(String, Rc<Doms>, Option<u32>)> {
    let mut out = vec![];
    for (k, (n, d)) in it.valid_cases(cell).into_iter().enumerate() {
        let j = k as u32; // 0: hexagon base cell, else position of the leading digit, res + 1: pentagon
        if k == 0 || j <= pres { out.push((n, d, None)); }
        else { out.push((format!("pentagonal parent, {}", n), d, Some(if j > cell.res { 0 } else { j }))); }
    }
    out
}
fn parent_of(it: &mut Interp, cell: &Cell, pres: u32) -> Sc {
    let mut d = vec![Sc::C(0)];
    for r in 1..=15 { d.push(if r as u32 <= pres { cell.d[r].clone() } else { Sc::C(7) }); }
    it.mk_index(&Sc::C(0), &Sc::C(1), &Sc::C(0), &Sc::C(pres as u128), &cell.bc, &d)
}
fn pow7(n: u32) -> i128 { 7i128.pow(n) }
fn ok_u64(st: St, v: &V) -> R<Vec<(St, Obs)>> { match v { V::S(s, t) => Ok(vec![(st, vec![(Sc::C(0), ITy::I32), (s.clone(), *t)])]), _ => fail("expected value") } }
fn err_obs(st: St, k: u128) -> R<Vec<(St, Obs)>> { Ok(vec![(st, vec![(Sc::C(k), ITy::I32)])]) }
/// every (coarse, fine) pair of resolutions, the deepest first
fn res_pairs(c: &Ctx) -> Vec<(u32, u32)> {
    let mut v = vec![];
    for p in c.ress() { for q in p..=15 { v.push((p, q)); } }
    v.sort_by_key(|x| std::cmp::Reverse((x.1 - x.0, x.1)));
    v
}
fn call_plain(it: &mut Interp, st: St, f: crate::ir::FnId, a: &[V]) -> R<Vec<(St, Obs)>> {
    Ok(trim_err(it.call_flat(st, f, a.iter().map(|v| Arg::V(v.clone())).collect())?))
}

/// an index of one resolution whose other fields may hold anything
fn any_at(it: &mut Interp, res: u32) -> (Sc, Sym, Vec<Sym>) {
    let s: Vec<Sym> = [("hi", 2), ("mode", 16), ("rsv", 8), ("bc", 128)].iter().map(|(n, k)| it.d.new_sym(n, *k)).collect();
    let ds: Vec<Sym> = (1..=15).map(|r| it.d.new_sym(&format!("d{}", r), 8)).collect();
    let f: Vec<Sc> = s.iter().map(|x| it.d.sym_sc(*x)).collect();
    let mut d = vec![Sc::C(0)];
    d.extend(ds.iter().map(|x| it.d.sym_sc(*x)));
    (it.mk_index(&f[0], &f[1], &f[2], &Sc::C(res as u128), &f[3], &d), s[3], ds)
}
/// no bit pattern makes an operation panic; indexes that cannot be stepped from are refused
fn c24(c: &mut Ctx) {
    c.rules.push("no 64-bit pattern makes an operation panic (overflow checks included); a step from a base cell beyond 121 or from an unused last digit is refused as an invalid cell".into());
    let work: Vec<(u32, u32)> = c.ress().rev().flat_map(|r| (0..4).map(move |p| (r, p))).collect();
    c.par(work.len(), &|c, k| {
        let (res, part) = work[k];
        let (h, bc, ds) = any_at(&mut c.code, res);
        let e = Doms::new(vec![]);
        let at = |n: &str| format!("{} at resolution {}", n, res);
        let nothing: &dyn Fn(&mut Interp, St, &[V]) -> R<Vec<(St, Obs)>> = &|_, st, _| Ok(vec![(st, vec![])]);
        let known = full(122);
        match part {
            0 => {
                let f = c.f("h3NeighborRotations");
                let dir = c.code.d.new_sym("dir", 8);
                let rot = c.code.d.new_sym("rotations", 6);
                let (dv, rv) = (c.code.d.sym_sc(dir), c.code.d.sym_sc(rot));
                let ins = [("h", u(&h)), ("dir", V::S(dv, U8)), ("rotations", V::S(rv, ITy::I32))];
                let mut refused = vec![("base cell beyond 121".to_string(), e.with(bc, full(128) & !known).with(dir, 0x7f))];
                let mut open = vec![("base cell up to 121".to_string(), e.with(bc, known))];
                if res > 0 {
                    let last = ds[res as usize - 1];
                    refused.push(("unused last digit".into(), e.with(bc, known).with(last, 0x80).with(dir, 0x7f)));
                    open = vec![];
                    for (n, m) in [("not rotated", 1u128), ("rotated", 0x3e)] { open.push((format!("base cell up to 121, {}", n), e.with(bc, known).with(last, 0x7f).with(rot, m))); }
                }
                c.equal(&at("refused step"), f, refused, &ins,
                    &|it, st, a| { let d = dir_enum(it, &a[1]); Ok(it.call_flat(st, f, vec![Arg::V(a[0].clone()), Arg::V(d), Arg::R(a[2].clone())])?.into_iter().map(|(s, o)| (s, o[..1].to_vec())).collect()) },
                    &|_, st, _| Ok(vec![(st, vec![(Sc::C(5), ITy::I32)])]));
                c.equal(&at("step"), f, open, &ins,
                    &|it, st, a| { let d = dir_enum(it, &a[1]); Ok(it.call(st, f, vec![Arg::V(a[0].clone()), Arg::V(d), Arg::R(a[2].clone())])?.into_iter().map(|(s, _)| (s, vec![])).collect()) }, nothing);
            }
            1 => {
                for n in ["isPentagon", "isValidCell", "isValidDirectedEdge", "getDirectedEdgeOrigin", "_h3LeadingNonZeroDigit", "_h3Rotate60ccw", "_h3Rotate60cw", "_h3RotatePent60ccw", "_h3RotatePent60cw"] {
                    let f = c.f(n);
                    c.equal(&at(n), f, whole(), &[("h", u(&h))], &|it, st, a| Ok(it.call(st, f, vec![Arg::V(a[0].clone())])?.into_iter().map(|(s, _)| (s, vec![])).collect()), nothing);
                }
            }
            2 => {
                for n in ["getDirectedEdgeDestination", "directedEdgeToCells", "originToDirectedEdges"] {
                    let f = c.f(n);
                    c.equal(&at(n), f, whole(), &[("h", u(&h))], &|it, st, a| Ok(it.call(st, f, vec![Arg::V(a[0].clone())])?.into_iter().map(|(s, _)| (s, vec![])).collect()), nothing);
                }
            }
            _ => {
                let f = c.f("cellToChildrenSize");
                let mut rs: Vec<(String, Sc)> = (0..16).map(|r| (format!("children of resolution {}", r), Sc::C(r))).collect();
                for (n, lo, hi) in [("below 0", i32::MIN as i128, -1), ("above 15", 16, i32::MAX as i128)] { rs.push((format!("children of a resolution {}", n), c.code.d.fresh_int("children", lo, hi))); }
                for (n, r) in rs {
                    c.equal(&at("cellToChildrenSize"), f, vec![(n, e.clone())], &[("h", u(&h)), ("childRes", V::S(r, ITy::I32))], &|it, st, a| Ok(it.call(st, f, vec![Arg::V(a[0].clone()), Arg::V(a[1].clone())])?.into_iter().map(|(s, _)| (s, vec![])).collect()), nothing);
                }
            }
        }
    });
}

fn c05(c: &mut Ctx) {
    c.rules.push("childPosToCell maps the mixed-radix position of every child to that child; positions and resolutions out of range give the documented error kind".into());
    let pairs = res_pairs(c);
    c.par(pairs.len(), &|c, k| {
        let (pres, cres) = pairs[k];
        let f = c.f("childPosToCell");
        let cell = c.code.mk_cell(&format!("r{}", cres), cres);
        let parent = parent_of(&mut c.code, &cell, pres);
        let cases = child_cases(&mut c.code, &cell, pres);
        let e = Doms::new(vec![]);
        for (n, d, shape) in cases {
            let mut l = Dom::lin_const(0);
            let from = match shape { None => pres + 1, Some(0) => cres + 1, Some(j) => {
                let w = pow7(cres - j);
                l.c = 1 + 5 * (w - 1) / 6;
                l.tabs.push((vec![cell.ds[j as usize].unwrap()], Rc::new((0..7).map(|x| (x - 2) * w).collect())));
                j + 1
            } };
            for i in from..=cres { l.tabs.push((vec![cell.ds[i as usize].unwrap()], Rc::new((0..7).map(|x| x * pow7(cres - i)).collect()))); }
            let l = c.code.d.lin_norm(&e, l);
            let pos = c.code.d.from_lin(&e, l, ITy::I64);
            c.equal(&format!("position to child from {} to {}", pres, cres), f, vec![(n, d)],
                &[("position", V::S(pos, ITy::I64)), ("parent", u(&parent)), ("resolution", i(cres as i128)), ("child", u(&cell.h))],
                &|it, st, a| call_plain(it, st, f, &a[..3]),
                &|_, st, a| ok_u64(st, &a[3]));
        }
        // positions outside the range
        let pc = c.code.mk_cell(&format!("p{}", pres), pres);
        let n = cres - pres;
        for (k, (cn, d)) in c.code.valid_cases(&pc).into_iter().enumerate() {
            let pent = k as u32 == pres + 1;
            let cnt = if pent { 1 + 5 * (pow7(n) - 1) / 6 } else { pow7(n) };
            let neg = c.code.d.fresh_int("position", ITy::I64.min(), -1);
            let big = c.code.d.fresh_int("position", cnt, ITy::I64.max());
            for (pn, p) in [("negative position", neg), ("position beyond the last child", big)] {
                c.equal(&format!("{} from {} to {}", pn, pres, cres), f, vec![(cn.clone(), d.clone())],
                    &[("position", V::S(p, ITy::I64)), ("parent", u(&pc.h)), ("resolution", i(cres as i128))],
                    &|it, st, a| call_plain(it, st, f, a), &|_, st, _| err_obs(st, 2));
            }
        }
    });
    // resolutions outside the range
    c.par_res(&|c, pres| {
        let f = c.f("childPosToCell");
        let pc = c.code.mk_cell(&format!("p{}", pres), pres);
        let cs = c.code.valid_cases(&pc);
        let pos = c.code.d.fresh_int("position", ITy::I64.min(), ITy::I64.max());
        let mut rs = vec![("negative", c.code.d.fresh_int("resolution", ITy::I32.min(), -1), 4), ("beyond 15", c.code.d.fresh_int("resolution", 16, ITy::I32.max()), 4)];
        if pres > 0 { rs.push(("coarser", c.code.d.fresh_int("resolution", 0, pres as i128 - 1), 12)); }
        for (rn, r, e) in rs {
            c.equal(&format!("{} resolution from {}", rn, pres), f, cs.clone(), &[("position", V::S(pos.clone(), ITy::I64)), ("parent", u(&pc.h)), ("resolution", V::S(r, ITy::I32))],
                &|it, st, a| call_plain(it, st, f, a), &|_, st, _| err_obs(st, e));
        }
    });
}

/// the child that follows in the enumeration: digits replaced from position p on
fn succ_child(it: &mut Interp, cell: &Cell, p: u32, digit: Sc) -> Sc {
    let mut d = cell.d.clone();
    d[p as usize] = digit;
    for r in p + 1..=cell.res { d[r as usize] = Sc::C(0); }
    it.mk_index(&Sc::C(0), &Sc::C(1), &Sc::C(0), &Sc::C(cell.res as u128), &cell.bc, &d)
}

fn c04(c: &mut Ctx) {
    c.rules.push("the iterator starts at the all-zero child, every step yields the current child and moves to the next one in digit order (no child of a pentagon starts with the deleted digit), and ends after the last".into());
    // the iterator's representation: the current child, the parent resolution and the digit position where the deleted digit is skipped
    let lay = iter_layout(c);
    let depth = if c.tier == "thorough" { 3 } else { 2 };
    child_lists(c, depth);
    if !c.findings.is_empty() { return; }
    let before = (c.obligations, c.discharged, c.inconclusive.len());
    c.max_findings = 200;
    let pairs = res_pairs(c);
    let lay2 = lay.clone();
    c.par(pairs.len(), &|c, k| {
        let (pres, cres) = pairs[k];
        let ff = c.f("IterCellsChildren::from_parent");
        let fnx = c.f("IterCellsChildren as std::iter::Iterator>::next");
        let n = cres - pres;
        let cell = c.code.mk_cell(&format!("r{}", cres), cres);
        let parent = parent_of(&mut c.code, &cell, pres);
        let cases = child_cases(&mut c.code, &cell, pres);
        if let Some(lay) = &lay2 {
            let state = |h: V, skip: V| -> V { let mut v = vec![h.clone(); 3]; v[lay.0] = h; v[lay.1] = i(pres as i128); v[lay.2] = skip; vagg(v) };
            let skip_of = |j: Option<u32>| -> i128 { match j { None => -1, Some(0) => cres as i128, Some(j) => j as i128 - 1 } };
            // start
            let mut d0 = cell.d.clone();
            for r in pres + 1..=cres { d0[r as usize] = Sc::C(0); }
            let first = c.code.mk_index(&Sc::C(0), &Sc::C(1), &Sc::C(0), &Sc::C(cres as u128), &cell.bc, &d0);
            for (cn, d, j) in &cases {
                if !matches!(j, None | Some(0)) { continue; }
                for aux in [false, true] {
                    c.equal(&format!("{} from {} to {}", if aux { "iterator state at the first child" } else { "iterator: first child" }, pres, cres), ff, vec![(cn.clone(), d.clone())],
                        &[("parent", u(&parent)), ("resolution", i(cres as i128)), ("first", state(u(&first), i(skip_of(*j))))],
                        &|it, st, a| Ok(part_of(it.call_flat(st, ff, vec![Arg::V(a[0].clone()), Arg::V(a[1].clone())])?, 0, lay.0, aux)),
                        &|it, st, a| { let _ = it; Ok(part_of(state_obs(st, vec![], &a[2])?, 0, lay.0, aux)) });
                }
            }
            // step
            for (cn, d, j) in &cases {
                for t in 0..=n {
                    let mut dd = d.clone();
                    let put = |dd: &Rc<Doms>, c: &Ctx, r: u32, m: u128| { let s = cell.ds[r as usize].unwrap(); let b = c.code.d.base_dom(dd, s); dd.with(s, b & m) };
                    for r in cres - t + 1..=cres { dd = put(&dd, c, r, 0x40); }
                    let p = cres - t;
                    if t < n { dd = put(&dd, c, p, 0x3f); }
                    if c.code.d.empty(&dd) { continue; }
                    if t == n {
                        // the last child
                        c.equal(&format!("iterator: last child from {} to {}", pres, cres), fnx, vec![(cn.clone(), dd)], &[("state", state(u(&cell.h), i(skip_of(*j)))), ("child", u(&cell.h))],
                            &|it, st, a| {
                                let mut out = vec![];
                                for (s, v) in it.call(st, fnx, vec![Arg::R(a[0].clone())])? {
                                    let rt = it.p.funcs[fnx as usize].output;
                                    for (s, o) in it.flat(s, &v[0], rt)? {
                                        for (s, v2) in it.call(s, fnx, vec![Arg::R(v[1].clone())])? {
                                            for (s, o2) in it.flat(s, &v2[0], rt)? { let mut o = o.clone(); o.extend(o2); out.push((s, o)); }
                                        }
                                    }
                                }
                                Ok(out)
                            },
                            &|it, st, a| { let _ = it; state_obs(st, vec![(Sc::C(1), ITy::I32)], &a[1]).map(|mut v| { v[0].1.push((Sc::C(0), ITy::I32)); v }) });
                        continue;
                    }
                    let skips = match j { None => false, Some(0) => true, Some(j) => p < *j };
                    let digit = if skips { Sc::C(2) } else { let tab = c.code.d.sym_tab(cell.ds[p as usize].unwrap()); c.code.d.map1(&Doms::new(vec![]), &tab, |x| (x + 1) & 7) };
                    let next = succ_child(&mut c.code, &cell, p, digit);
                    let nj = match j { None => None, Some(j) => Some(if skips { p } else { *j }) };
                    for aux in [false, true] {
                        c.equal(&format!("{} from {} to {}", if aux { "iterator state after a child" } else { "iterator: next child" }, pres, cres), fnx, vec![(cn.clone(), dd.clone())],
                            &[("state", state(u(&cell.h), i(skip_of(*j)))), ("child", u(&cell.h)), ("then", state(u(&next), i(skip_of(nj))))],
                            &|it, st, a| Ok(part_of(it.call_flat(st, fnx, vec![Arg::R(a[0].clone())])?, 2, lay.0, aux)),
                            &|it, st, a| { let _ = it; let o = vec![(Sc::C(1), ITy::I32), match &a[1] { V::S(s, t) => (s.clone(), *t), _ => return fail("child") }]; Ok(part_of(state_obs(st, o, &a[2])?, 2, lay.0, aux)) });
                    }
                }
            }
        }
    });
    c.max_findings = 8;
    let own = c.findings.iter().any(|f| f.key.starts_with("iterator state")) || c.inconclusive.len() > before.2;
    if own || lay.is_none() {
        // the inductive argument speaks about a representation this iterator does not use
        c.findings.clear();
        c.inconclusive.truncate(before.2);
        c.obligations = before.0;
        c.discharged = before.1;
        c.notes.push("iterator representation not recognised: the enumeration was decided for up to three levels only".into());
        child_lists(c, 3);
    }
    c.par_res(&|c, pres| {
        let fc = c.f("cellToChildren");
        let pc = c.code.mk_cell(&format!("p{}", pres), pres);
        let cs = c.code.valid_cases(&pc);
        for (rn, lo, hi) in [("coarser", ITy::I32.min(), pres as i128 - 1), ("beyond 15", 16, ITy::I32.max())] {
            let r = c.code.d.fresh_int("resolution", lo, hi);
            c.equal(&format!("no children: {} resolution from {}", rn, pres), fc, cs.clone(), &[("parent", u(&pc.h)), ("resolution", V::S(r, ITy::I32))],
                &|it, st, a| it.call_flat(st, fc, vec![Arg::V(a[0].clone()), Arg::V(a[1].clone())]),
                &|it, st, _| { let _ = it; Ok(vec![(st, vec![(Sc::C(0), ITy::I32), (Sc::C(0), U64)])]) });
        }
    });
}
/// the complete list of children, compared entry by entry
fn child_lists(c: &mut Ctx, depth: u32) {
    let pairs: Vec<(u32, u32)> = res_pairs(c).into_iter().filter(|x| x.1 - x.0 <= depth).collect();
    c.par(pairs.len(), &|c, k| {
        let (pres, cres) = pairs[k];
        let n = cres - pres;
        let fc = c.f("cellToChildren");
        let pc = c.code.mk_cell(&format!("p{}", pres), pres);
        for (k, (cn, d)) in c.code.valid_cases(&pc).into_iter().enumerate() {
            let pent = k as u32 == pres + 1;
            let mut list = vec![];
            for x in 0..pow7(n) {
                let mut dd = pc.d.clone();
                let mut lead = 0;
                for r in 1..=n { let v = (x / pow7(n - r)) % 7; if lead == 0 { lead = v; } dd[(pres + r) as usize] = Sc::C(v as u128); }
                if pent && lead == 1 { continue; }
                list.push(u(&c.code.mk_index(&Sc::C(0), &Sc::C(1), &Sc::C(0), &Sc::C(cres as u128), &pc.bc, &dd)));
            }
            c.equal(&format!("list of children from {} to {}", pres, cres), fc, vec![(cn, d)], &[("parent", u(&pc.h)), ("resolution", i(cres as i128)), ("children", V::Vec(Rc::new(list)))],
                &|it, st, a| it.call_flat(st, fc, vec![Arg::V(a[0].clone()), Arg::V(a[1].clone())]),
                &|it, st, a| { let _ = it; match &a[2] { V::Vec(l) => { let mut o = vec![(Sc::C(0), ITy::I32), (Sc::C(l.len() as u128), U64)]; for x in l.iter() { if let V::S(s, t) = x { o.push((s.clone(), *t)); } } Ok(vec![(st, o)]) } _ => fail("list") } });
        }
    });
}
fn part_of(v: Vec<(St, Obs)>, head: usize, hf: usize, aux: bool) -> Vec<(St, Obs)> {
    v.into_iter().map(|(s, o)| {
        let mut r: Obs = if aux { vec![] } else { o[..head].to_vec() };
        for (k, x) in o[head..].iter().enumerate() { if (k == hf) != aux { r.push(x.clone()); } }
        (s, r)
    }).collect()
}
fn state_obs(st: St, mut o: Obs, v: &V) -> R<Vec<(St, Obs)>> {
    match v {
        V::S(s, t) => o.push((s.clone(), *t)),
        V::Agg(a) => for x in a.iter() { if let V::S(s, t) = x { o.push((s.clone(), *t)); } },
        _ => return fail("state"),
    }
    Ok(vec![(st, o)])
}
/// positions of (current index, parent resolution, skip position) in the iterator
fn iter_layout(c: &Ctx) -> Option<(usize, usize, usize)> {
    for t in &c.code.p.types {
        if let crate::ir::TypeKind::Adt { name, variants, .. } = &t.kind {
            if name.ends_with("IterCellsChildren") && variants.len() == 1 && variants[0].fields.len() == 3 {
                let f = &variants[0].fields;
                let ty = |k: usize| c.code.ity(f[k].ty);
                let h = (0..3).find(|k| ty(*k).map_or(false, |t| t.bits == 64 && !t.signed))?;
                let p = (0..3).find(|k| f[*k].name.to_lowercase().contains("parent") && ty(*k).map_or(false, |t| t.bits == 32 && t.signed))?;
                let s = (0..3).find(|k| f[*k].name.to_lowercase().contains("skip") && ty(*k).map_or(false, |t| t.bits == 32 && t.signed))?;
                return if h != p && p != s && h != s { Some((h, p, s)) } else { None };
            }
        }
    }
    None
}

type StepTokens = Vec<(V, V)>; // per direction 1..=6: the cell the step leads to, and whether it fails
/// answer calls of the step function from the given tokens
fn step_override(it: &mut Interp, f: crate::ir::FnId, origin: V, tok: StepTokens) {
    it.overrides.insert(f, Rc::new(move |it: &mut Interp, st: St, args: &[V], f: crate::ir::FnId| {
        let d = match &args[1] { V::Enum(Sc::C(d), _) => *d as usize, _ => return fail("direction of a step is not constant") };
        let rot = match &args[2] { V::Ptr(p) => it.read(&st, p.base, &p.path)?, _ => return fail("rotation argument") };
        let same = it.resimp_v(&st.doms, &args[0]) == it.resimp_v(&st.doms, &origin) && matches!(rot, V::S(Sc::C(0), _)) && d >= 1 && d <= 6;
        let out = it.p.funcs[f as usize].output;
        let (okv, er) = if same { tok[d - 1].clone() } else { (V::S(it.d.fresh_int("stray step", 0, u64::MAX as i128), U64), vc(0, ITy::BOOL)) };
        let es = match er { V::S(s, _) => s, _ => return fail("flag") };
        let ety = match &it.p.types[out as usize].kind { crate::ir::TypeKind::Adt { variants, .. } => variants[1].fields[0].ty, _ => return fail("result type") };
        let n = it.nvariants(ety);
        let e = it.enum_sc(Sc::C(0), n);
        Ok(vec![(st, V::Enum(es, Rc::new(vec![Some(Rc::new(vec![okv])), Some(Rc::new(vec![e]))])))])
    }));
}

fn c06(c: &mut Ctx) {
    c.rules.push("edge validity, origin, destination, decomposition and enumeration equal the reference; the edge between two cells is the first direction whose step leads there, and none means not-neighbours".into());
    let h = any_index(&mut c.code);
    let e = Doms::new(vec![]);
    let sy = |c: &Ctx, n: &str| c.code.d.syms.iter().position(|s| s.name == n).unwrap() as Sym;
    let (ms, rs) = (sy(c, "mode"), sy(c, "res"));
    let mut cases = vec![];
    for r in 0..16u32 { cases.push((format!("resolution field {}", r), e.with(rs, 1u128 << r).with(ms, 4))); }
    cases.push(("mode other than 2".into(), e.with(ms, 0xfffb)));
    same(c, "isValidDirectedEdge", "isValidDirectedEdge", "is_valid_edge", cases.clone(), &[("edge", u(&h))]);
    same(c, "getDirectedEdgeOrigin", "getDirectedEdgeOrigin", "edge_origin", cases, &[("edge", u(&h))]);
    let nm = vec![("mode other than 2".to_string(), e.with(ms, 0xfffb))];
    for (cf, sf) in [("getDirectedEdgeDestination", "edge_destination"), ("directedEdgeToCells", "edge_cells")] {
        same(c, cf, cf, sf, nm.clone(), &[("edge", u(&h))]);
    }
    let rv: Vec<u32> = c.ress().rev().flat_map(|r| [r, r]).collect();
    c.par(rv.len(), &|c, k| {
        let (res, part) = (rv[k], k % 2);
        let cell = c.code.mk_cell(&format!("r{}", res), res);
        let cs = c.code.valid_cases(&cell);
        let ds = c.code.d.new_sym("dir", 8);
        let dsc = c.code.d.sym_sc(ds);
        let edge = c.code.mk_index(&Sc::C(0), &Sc::C(2), &dsc, &Sc::C(res as u128), &cell.bc, &cell.d);
        let (cf, sf) = [("getDirectedEdgeDestination", "edge_destination"), ("directedEdgeToCells", "edge_cells")][part];
        let es: Vec<_> = cs.iter().map(|(n, d)| (n.clone(), d.with(ds, 0x7e))).collect();
        let f = c.f(cf);
        let g = c.s(sf);
        c.equal(&format!("{} at resolution {}", cf, res), f, es, &[("edge", u(&edge))],
            &|it, st, a| call_plain(it, st, f, a), &|it, st, a| call_plain(it, st, g, a));
        if part == 1 { return; }
        same(c, &format!("originToDirectedEdges at resolution {}", res), "originToDirectedEdges", "edges_of", cs.clone(), &[("origin", u(&cell.h))]);
        // the edge between two cells, given where the steps of the origin lead
        let f = c.f("cellsToDirectedEdge");
        let stepf = c.f("h3NeighborRotations");
        let eo = c.s("edge_of");
        let dest = c.code.d.fresh_int("destination", 0, u64::MAX as i128);
        let mut ins: Vec<(String, V)> = vec![("origin".into(), u(&cell.h)), ("destination".into(), u(&dest))];
        for d in 1..=6i128 {
            // the steps of one cell lead to different cells (see the step property): disjoint ranges
            let lo = (1i128 << 59) + (d << 40);
            let t = c.code.d.fresh_int(&format!("step{}", d), lo, lo + (1 << 40) - 1);
            ins.push((format!("step{}", d), u(&t)));
        }
        let inr: Vec<(&str, V)> = ins.iter().map(|x| (x.0.as_str(), x.1.clone())).collect();
        for (k, (n, dd)) in cs.into_iter().enumerate() {
            let pent = k as u32 == res + 1;
            // a pentagon's deleted direction has no step; between base cells it coincides with another one
            let toks = move |a: &[V]| -> StepTokens {
                (0..6).map(|d| if pent && d == 0 { if res == 0 { (a[6].clone(), vc(0, ITy::BOOL)) } else { (a[2].clone(), vc(1, ITy::BOOL)) } } else { (a[2 + d].clone(), vc(0, ITy::BOOL)) }).collect()
            };
            c.equal(&format!("cellsToDirectedEdge at resolution {}", res), f, vec![(n, dd)], &inr,
                &|it, st, a| {
                    step_override(it, stepf, a[0].clone(), toks(a));
                    let r = call_plain(it, st, f, &a[..2]);
                    it.overrides.clear();
                    r
                },
                &|it, st, a| {
                    let mut cur = vec![st];
                    let mut out = vec![];
                    for d in 1..=6usize {
                        if pent && d == 1 { continue; }
                        let mut next = vec![];
                        for s in cur {
                            let (p, q) = match (&a[1 + d], &a[1]) { (V::S(p, _), V::S(q, _)) => (it.d.resimp(&s.doms, p), it.d.resimp(&s.doms, q)), _ => return fail("token") };
                            let eq = it.d.cmp(&s.doms, "Eq", &p, &q, U64)?;
                            for (s, hit) in it.cases_of(&s, &eq)? {
                                if hit == 0 { next.push(s); continue; }
                                for (s, o) in it.call_flat(s, eo, vec![Arg::V(a[0].clone()), Arg::V(V::S(Sc::C(d as u128), U8))])? {
                                    let mut r = vec![(Sc::C(0), ITy::I32)];
                                    r.extend(o);
                                    out.push((s, r));
                                }
                            }
                        }
                        cur = next;
                    }
                    for s in cur { out.push((s, vec![(Sc::C(11), ITy::I32)])); }
                    Ok(out)
                });
        }
    });
}

// ---------------------------------------------------------------- grid traversal
/// an error value of the given kind (1-based) for the given error type
fn err_value(it: &mut Interp, ety: crate::ir::TyId, kinds: &Sc, st: &St) -> R<V> {
    let (n, names): (usize, Vec<String>) = match &it.p.types[ety as usize].kind {
        crate::ir::TypeKind::Adt { variants, .. } => (variants.len(), variants.iter().map(|v| v.name.clone()).collect()),
        _ => return fail("error type"),
    };
    let ix: Vec<u128> = KINDS.iter().map(|k| names.iter().position(|x| x == k).unwrap_or(0) as u128).collect();
    let s = match kinds { Sc::C(c) => Sc::C(ix[(*c as usize).max(1) - 1]), Sc::T(t) => it.d.map1(&st.doms, t, |x| ix[(x as usize).max(1) - 1]), _ => return fail("error kind") };
    Ok(it.enum_sc(s, n))
}
/// an answer of the step function: kind 0 is the cell, other kinds are errors
fn step_answer(it: &mut Interp, mut st: St, args: &[V], f: crate::ir::FnId, cell: V, rot: V, kind: &Sc) -> R<Vec<(St, V)>> {
    let out = it.p.funcs[f as usize].output;
    let ety = match &it.p.types[out as usize].kind { crate::ir::TypeKind::Adt { variants, .. } if variants.len() == 2 => variants[1].fields[0].ty, _ => return fail("result type") };
    let kind = it.d.resimp(&st.doms, kind);
    let e = err_value(it, ety, &kind, &st)?;
    let d = match &kind { Sc::C(c) => Sc::C((*c != 0) as u128), Sc::T(t) => it.d.map1(&st.doms, t, |x| (x != 0) as u128), _ => return fail("kind") };
    if let V::Ptr(p) = &args[2] { let p = p.clone(); it.write(&mut st, p.base, &p.path, rot)?; }
    Ok(vec![(st, V::Enum(d, Rc::new(vec![Some(Rc::new(vec![cell])), Some(Rc::new(vec![e]))])))])
}
fn step_args(it: &mut Interp, st: &St, args: &[V]) -> R<(V, usize, V)> {
    if args.len() != 3 { return fail("arguments of a step"); }
    let d = match &args[1] {
        V::Enum(Sc::C(d), _) => *d as usize,
        V::Enum(s, _) => match it.d.resimp(&st.doms, s) { Sc::C(d) => d as usize, Sc::T(t) => return Err(Stop::Split(t)), _ => return fail("direction of a step") },
        _ => return fail("direction of a step"),
    };
    let rot = match &args[2] { V::Ptr(p) => it.read(st, p.base, &p.path)?, _ => return fail("rotation argument") };
    Ok((it.resimp_v(&st.doms, &args[0]), d, it.resimp_v(&st.doms, &rot)))
}
fn sc_of(v: &V) -> R<Sc> { match v { V::S(s, _) => Ok(s.clone()), _ => fail("scalar expected") } }

/// an unknown step function: the n-th new question (cell, direction, rotation) has the n-th prepared answer
#[derive(Clone)]
struct Unknown { cells: Vec<V>, rots: Vec<V>, kinds: Vec<V>, pents: Vec<V>, memo: Rc<std::cell::RefCell<Vec<(V, usize, V)>>>, }
impl Unknown {
    fn from(a: &[V], n: usize) -> Unknown {
        // a: origin, its pentagon flag, then n cells, n rotations, n kinds, n flags
        let mut cells = vec![a[0].clone()];
        cells.extend(a[2..2 + n].iter().cloned());
        let mut pents = vec![a[1].clone()];
        pents.extend(a[2 + 3 * n..2 + 4 * n].iter().cloned());
        Unknown { cells, rots: a[2 + n..2 + 2 * n].to_vec(), kinds: a[2 + 2 * n..2 + 3 * n].to_vec(), pents, memo: Default::default() }
    }
    fn ask(&self, c: &V, d: usize, r: &V) -> R<usize> {
        let mut m = self.memo.borrow_mut();
        if let Some(k) = m.iter().position(|x| x.0 == *c && x.1 == d && x.2 == *r) { return Ok(k); }
        if m.len() >= self.kinds.len() { return fail("more steps than a walk of this size needs"); }
        m.push((c.clone(), d, r.clone()));
        Ok(m.len() - 1)
    }
    fn install(&self, it: &mut Interp, step: crate::ir::FnId, pent: crate::ir::FnId) {
        let u = self.clone();
        it.overrides.insert(step, Rc::new(move |it: &mut Interp, st: St, args: &[V], f: crate::ir::FnId| {
            let (c, d, r) = step_args(it, &st, args)?;
            let k = u.ask(&c, d, &r)?;
            let kind = sc_of(&u.kinds[k])?;
            step_answer(it, st, args, f, u.cells[k + 1].clone(), u.rots[k].clone(), &kind)
        }));
        let u = self.clone();
        it.overrides.insert(pent, Rc::new(move |it: &mut Interp, st: St, args: &[V], _: crate::ir::FnId| {
            let c = it.resimp_v(&st.doms, &args[0]);
            match u.cells.iter().position(|x| *x == c) { Some(k) => { let v = it.resimp_v(&st.doms, &u.pents[k]); Ok(vec![(st, v)]) } None => fail("pentagon test of a cell no step led to") }
        }));
    }
}
const RING: [usize; 6] = [2, 3, 1, 5, 4, 6]; // the six directions counter-clockwise, starting with the side walked first
const OUTWARD: usize = 4;
/// the reference walk: the questions asked in order, with the emitted cells and where pentagons are refused
fn walk_cases(it: &mut Interp, st: St, u: &Unknown, plan: &[(usize, Option<usize>, bool)], first: Option<usize>, close: Option<usize>, refuse: bool) -> R<Vec<(St, Obs)>> {
    // plan: (direction, ring to report the reached cell with, refuse it when it is a pentagon)
    let mut out = vec![];
    let mut cur = vec![st];
    if refuse {
        let p = sc_of(&u.pents[0])?;
        let mut next = vec![];
        for s in cur { for (s, v) in it.cases_of(&s, &p)? { if v == 1 { out.push((s, vec![(Sc::C(9), ITy::I32)])); } else { next.push(s); } } }
        cur = next;
    }
    let mut emitted: Vec<(V, usize)> = vec![];
    if let Some(r) = first { emitted.push((u.cells[0].clone(), r)); }
    let (mut at, mut rot) = (u.cells[0].clone(), vc(0, ITy::I32));
    let mut starts = None;
    for (n, (d, em, chk)) in plan.iter().enumerate() {
        let k = u.ask(&at, *d, &rot)?;
        let kind = sc_of(&u.kinds[k])?;
        let mut next = vec![];
        for s in cur { for (s, v) in it.cases_of(&s, &kind)? { if v != 0 { out.push((s, vec![(Sc::C(v), ITy::I32)])); } else { next.push(s); } } }
        cur = next;
        at = u.cells[k + 1].clone();
        rot = u.rots[k].clone();
        if let Some(r) = em { emitted.push((at.clone(), *r)); }
        if *chk {
            let p = match u.cells.iter().position(|x| *x == at) { Some(k) => sc_of(&u.pents[k])?, None => return fail("cell") };
            let mut next = vec![];
            for s in cur { for (s, v) in it.cases_of(&s, &p)? { if v == 1 { out.push((s, vec![(Sc::C(9), ITy::I32)])); } else { next.push(s); } } }
            cur = next;
        }
        if close == Some(n) { starts = Some(at.clone()); }
    }
    if let Some(s0) = starts { if s0 != at { for s in cur.drain(..) { out.push((s, vec![(Sc::C(9), ITy::I32)])); } } }
    for s in cur {
        let mut o = vec![(Sc::C(0), ITy::I32), (Sc::C(emitted.len() as u128), U64)];
        for (c, r) in &emitted {
            o.push((sc_of(c)?, U64));
            if first.is_some() { o.push((Sc::C(*r as u128), ITy { bits: 32, signed: false, float: false })); }
        }
        out.push((s, o));
    }
    Ok(out)
}
fn c15(c: &mut Ctx) {
    c.rules.push("given any step function, a fast disk or ring asks for exactly the steps of the ring walk in order, emits the cells it reaches, refuses when one is a pentagon, passes step errors on and refuses a ring that does not close".into());
    let kmax = if c.tier == "thorough" { 8 } else { 5 };
    c.par((kmax + 1) * 3, &|c, part| {
        let (k, mode) = (kmax - part / 3, part % 3);
        let u32t = ITy { bits: 32, signed: false, float: false };
        let (disk, close) = (mode == 0, mode == 1);
        let f = c.f(if disk { "gridDiskDistancesUnsafe" } else { "gridRingUnsafe" });
        let step = c.f("h3NeighborRotations");
        let pent = c.f("isPentagon");
        if [f, step, pent].contains(&crate::ir::FnId::MAX) { return; }
        if !disk && k == 0 && !close { return; }
        // the steps of the walk
        let mut plan: Vec<(usize, Option<usize>, bool)> = vec![];
        if disk {
            for r in 1..=k {
                plan.push((OUTWARD, None, true));
                for d in RING { for _ in 0..r { plan.push((d, Some(r), true)); } }
            }
        } else if k > 0 {
            for j in 0..k { plan.push((OUTWARD, if j + 1 == k { Some(k) } else { None }, true)); }
            for (q, d) in RING.iter().enumerate() { for j in 0..k { let last = q == 5 && j + 1 == k; plan.push((*d, if last { None } else { Some(k) }, !last)); } }
        }
        // answers of the walk itself and spare ones for questions the walk does not ask
        let steps = plan.len();
        let n = 2 * steps + 8;
        let mut cells = vec![];
        for j in 0..=n {
            let lo = (1i128 << 59) + ((j as i128) << 44);
            cells.push(u(&c.code.d.fresh_int(&format!("cell{}", j), lo, lo + (1 << 44) - 1)));
        }
        if close && k > 0 { cells[steps] = cells[k].clone(); }
        let mut bit = |c: &mut Ctx, nm: String, sz: u32, ty: ITy| { let s = c.code.d.new_sym(&nm, sz); V::S(c.code.d.sym_sc(s), ty) };
        let op = bit(c, "originIsPentagon".into(), 2, ITy::BOOL);
        let mut ins: Vec<(String, V)> = vec![("origin".into(), cells[0].clone()), ("originIsPentagon".into(), op)];
        for j in 1..=n { ins.push((format!("cell{}", j), cells[j].clone())); }
        for j in 1..=n {
            // (the order of the values makes witnesses tell neighbouring rotations apart)
            let s = c.code.d.new_sym_vals(&format!("rotation{}", j), (0..6).map(|x| (x + 1 + j as u128 % 5) % 6).collect());
            let t = c.code.d.sym_tab(s);
            let v = c.code.d.map1(&Doms::new(vec![]), &t, |x| x);
            ins.push((format!("rotation{}", j), V::S(v, ITy::I32)));
        }
        for j in 1..=n {
            let s = c.code.d.new_sym_vals(&format!("error{}", j), vec![0, 9, 1]);
            let t = c.code.d.sym_tab(s);
            let v = c.code.d.map1(&Doms::new(vec![]), &t, |x| x);
            ins.push((format!("error{}", j), V::S(v, ITy::I32)));
        }
        for j in 1..=n { let v = bit(c, format!("pentagon{}", j), 2, ITy::BOOL); ins.push((format!("pentagon{}", j), v)); }
        if close && k > 0 { let fl = ins[2 + 3 * n + k - 1].1.clone(); ins[2 + 3 * n + steps - 1].1 = fl; }
        let inr: Vec<(&str, V)> = ins.iter().map(|x| (x.0.as_str(), x.1.clone())).collect();
        let name = if disk { format!("fast disk, k={}", k) } else { format!("ring, k={}, {}", k, if close { "closing" } else { "not closing" }) };
        // both sides question the same unknown function (one for the analysis, one for witnesses)
        let shared: Rc<std::cell::RefCell<[Option<Unknown>; 2]>> = Default::default();
        let which = |a: &[V]| matches!(a[0], V::S(Sc::C(_), _)) as usize;
        c.equal(&name, f, whole(), &inr,
            &|it, st, a| {
                let un = Unknown::from(a, n);
                un.install(it, step, pent);
                shared.borrow_mut()[which(a)] = Some(un);
                let r = it.call_flat(st, f, vec![Arg::V(a[0].clone()), Arg::V(vc(k as i128, u32t))]);
                it.overrides.clear();
                Ok(trim_err(r?))
            },
            &|it, st, a| {
                let un = shared.borrow()[which(a)].clone().unwrap();
                walk_cases(it, st, &un, &plan, if disk { Some(0) } else if k == 0 { Some(0) } else { None }, if disk || k == 0 { None } else { Some(k - 1) }, disk || k > 0)
                    .map(|v| if disk || k > 0 { v } else { v.into_iter().map(|(s, mut o)| { o.truncate(3); (s, o) }).collect() })
            });
    });
}

/// a hexagonal grid, or one with a single pentagon, as cells around a centre: ring r has n*r cells
struct Grid { n: usize, frames: usize }
impl Grid {
    fn id(&self, ring: usize, pos: usize) -> usize { if ring == 0 { 0 } else { 1 + self.n * ring * (ring - 1) / 2 + pos % (self.n * ring) } }
    fn ring(&self, id: usize) -> (usize, usize) { let mut r = 0; while self.id(r, 0) + if r == 0 { 1 } else { self.n * r } <= id { r += 1; } (r, id - self.id(r, 0)) }
    /// neighbours in counter-clockwise order
    fn around(&self, id: usize) -> Vec<usize> {
        let (r, p) = self.ring(id);
        if r == 0 { return (0..self.n).map(|q| self.id(1, q)).collect(); }
        let (s, i) = (p / r, p % r);
        let m = self.n * r;
        let mut v = vec![];
        // outer cells, then the next on the ring, then inner cells, then the previous on the ring
        if i == 0 { v.push(self.id(r + 1, (self.n * (r + 1) + s * (r + 1) - 1) % (self.n * (r + 1)))); }
        v.push(self.id(r + 1, s * (r + 1) + i));
        v.push(self.id(r + 1, s * (r + 1) + i + 1));
        v.push(self.id(r, (p + 1) % m));
        if r == 1 { v.push(0); } else if i == 0 { v.push(self.id(r - 1, s * (r - 1))); } else { v.push(self.id(r - 1, s * (r - 1) + i)); v.push(self.id(r - 1, s * (r - 1) + i - 1)); }
        v.push(self.id(r, (p + m - 1) % m));
        v
    }
    fn frame(&self, id: usize) -> usize { if self.frames == 0 { 0 } else { (id * 5 + id / 3 + self.frames) % 6 } }
    /// one step: the cell and the new rotation; None where the direction is deleted
    fn step(&self, id: usize, d: usize, rot: usize) -> Option<(usize, usize)> {
        let a = self.around(id);
        if a.len() == 5 {
            // the deleted direction is 1; the others in counter-clockwise order
            let pos = [9, 9, 0, 1, 3, 2, 4][d];
            if d == 1 { return None; }
            return Some((a[pos], 0));
        }
        let pos = RING.iter().position(|x| *x == d).unwrap();
        let to = a[(pos + rot + self.frame(id)) % 6];
        let b = self.around(to);
        let rot = if b.len() == 5 { 0 } else { let back = b.iter().position(|x| *x == id).unwrap(); (back + 3 + 18 - pos - self.frame(to)) % 6 };
        Some((to, rot))
    }
    fn distances(&self, from: usize, k: usize) -> Vec<(usize, usize)> {
        let mut out = vec![(from, 0)];
        let mut at = 0;
        while at < out.len() {
            let (c, d) = out[at];
            at += 1;
            if d == k { continue; }
            for x in self.around(c) { if !out.iter().any(|y| y.0 == x) { out.push((x, d + 1)); } }
        }
        out
    }
}
fn c16(c: &mut Ctx) {
    c.rules.push("over every hexagonal or pentagonal neighbourhood given as step results, the safe disk lists exactly the cells within k steps, each once with its least number of steps; deleted directions are skipped and other step errors passed on".into());
    let kmax = if c.tier == "thorough" { 4 } else { 3 };
    // the origin's ring around the grid's centre, and its position there
    let mut parts = vec![];
    for k in 0..=kmax {
        for (n, ps) in [(5usize, k + 1), (6, 0)] {
            for p in 0..=ps { for (pos, frames) in [(0usize, 0usize), (p / 2 + p, 1), (2 * p + p.min(1), 4)] { for pat in 0..4 { for dup in [false, true] {
                if p == 0 && pos > 0 { continue; }
                if dup && (n == 6 || p > 1) { continue; }
                if pat > 1 && k == 3 && (frames + pat) % 3 != 0 { continue; }
                parts.push((k, n, p, pos, frames, pat, dup, None));
            } } } }
        }
        if k > 0 { for (e, d) in [(0usize, 3usize), (1, 6), (1, 1), (2, 5)] { if e < k { for p in 0..=1 { for kind in [1u128, 5] { parts.push((k, 5, p, 0, 1, 0, false, Some((e, d, kind)))); } } } } }
    }
    parts.sort_by_key(|x| std::cmp::Reverse(x.0));
    c.par(parts.len(), &|c, part| {
        let (k, n, p, pos, frames, pat, dup, bad) = parts[part];
        let u32t = ITy { bits: 32, signed: false, float: false };
        let f = c.f("gridDiskDistances");
        let step = c.f("h3NeighborRotations");
        let pent = c.f("isPentagon");
        if [f, step, pent].contains(&crate::ir::FnId::MAX) { return; }
        let g = Grid { n, frames };
        let origin = g.id(p, pos);
        let near = g.distances(origin, k + 1);
        let size = 3 * k * (k + 1) + 1;
        // (cell, direction) whose step fails with another error
        let fails: Option<(usize, usize, u128)> = bad.and_then(|(e, d, kind)| near.iter().find(|x| x.1 == e && x.0 != 0).map(|x| (x.0, d, kind)));
        if bad.is_some() && fails.is_none() { return; }
        // cells are unknown indexes with known residues modulo the size of the disk
        let mut ids: Vec<usize> = near.iter().map(|x| x.0).collect();
        ids.sort();
        let mut toks = vec![];
        for (j, id) in ids.iter().enumerate() {
            let lo = ((1i128 << 59) + ((j as i128) << 44)) / size as i128;
            let q = c.code.d.fresh_int("q", lo, lo + (1i128 << 40) / size as i128);
            let r = match pat { 0 => j % size, 1 => size - 1, 2 => (j * 5 + 3) % size, _ => j / 3 % size };
            let l = match &q { Sc::L(l) => { let mut l = l.as_ref().clone(); for x in l.unb.iter_mut() { x.1 *= size as i128; } l.c = r as i128; l } _ => return };
            let e = Doms::new(vec![]);
            let v = c.code.d.from_lin(&e, l, U64);
            toks.push((format!("cell{}", id), u(&v)));
        }
        let inr: Vec<(&str, V)> = toks.iter().map(|x| (x.0.as_str(), x.1.clone())).collect();
        let want = g.distances(origin, k);
        let name = format!("safe disk, k={}, {} at distance {}{}", k, if n == 5 { "pentagon" } else { "no pentagon, centre" }, p, if bad.is_some() { ", failing step" } else { "" });
        c.equal(&name, f, vec![(format!("position {}, frames {}, residues {}{}", pos, frames, pat, if dup { ", deleted direction aliased" } else { "" }), Doms::new(vec![]))], &inr,
            &|it, st, a| {
                let at = |it: &mut Interp, st: &St, v: &V| -> R<usize> { let v = it.resimp_v(&st.doms, v); match a.iter().position(|x| *x == v) { Some(j) => Ok(ids[j]), None => fail("a cell no step led to") } };
                let cells: Vec<V> = a.to_vec();
                let (ids2, cells2) = (ids.clone(), cells.clone());
                let find = move |v: &V| -> R<usize> { match cells2.iter().position(|x| x == v) { Some(j) => Ok(ids2[j]), None => fail("a cell no step led to") } };
                let (ids3, cells3) = (ids.clone(), cells.clone());
                let back = move |id: usize| -> R<V> { match ids3.iter().position(|x| *x == id) { Some(j) => Ok(cells3[j].clone()), None => fail("a step beyond the disk") } };
                let g2 = Grid { n, frames };
                let find1 = find.clone();
                it.overrides.insert(step, Rc::new(move |it: &mut Interp, st: St, args: &[V], f: crate::ir::FnId| {
                    let (cv, d, r) = step_args(it, &st, args)?;
                    let id = find1(&cv)?;
                    let r = match r { V::S(Sc::C(r), _) => r as usize % 6, _ => return fail("rotation") };
                    if d == 0 || d > 6 { return fail("direction of a step"); }
                    if let Some((bi, bd, kind)) = fails { if bi == id && bd == d { let v = back(ids_any(id))?; return step_answer(it, st, args, f, v, vc(0, ITy::I32), &Sc::C(kind)); } }
                    match g2.step(id, d, r) {
                        Some((to, nr)) => { let v = back(to)?; step_answer(it, st, args, f, v, vc(nr as i128, ITy::I32), &Sc::C(0)) }
                        None if dup => { let v = back(g2.step(id, 5, 0).unwrap().0)?; step_answer(it, st, args, f, v, vc(0, ITy::I32), &Sc::C(0)) }
                        None => { let v = back(id)?; step_answer(it, st, args, f, v, vc(0, ITy::I32), &Sc::C(9)) }
                    }
                }));
                it.overrides.insert(pent, Rc::new(move |it: &mut Interp, st: St, args: &[V], _: crate::ir::FnId| {
                    let v = it.resimp_v(&st.doms, &args[0]);
                    let id = find(&v)?;
                    Ok(vec![(st, vc((id == 0 && n == 5) as i128, ITy::BOOL))])
                }));
                let o = a[ids.iter().position(|x| *x == origin).unwrap()].clone();
                let r = it.call(st, f, vec![Arg::V(o), Arg::V(vc(k as i128, u32t))]);
                it.overrides.clear();
                let mut out = vec![];
                for (s, v) in r? {
                    let (tag, pay) = match &v[0] { V::Enum(t, p) => (t.clone(), p.clone()), _ => return fail("result") };
                    for (s, t) in it.cases_of(&s, &tag)? {
                        let inner = match &pay[t as usize] { Some(x) => x[0].clone(), None => return fail("payload") };
                        if t == 1 {
                            let ty = it.p.funcs[f as usize].output;
                            let ety = match &it.p.types[ty as usize].kind { crate::ir::TypeKind::Adt { variants, .. } => variants[1].fields[0].ty, _ => return fail("result type") };
                            out.extend(it.flat(s, &inner, ety)?);
                            continue;
                        }
                        let list = match &inner { V::Vec(l) => l.clone(), _ => return fail("list") };
                        let mut o: Obs = vec![(Sc::C(0), ITy::I32), (Sc::C(list.len() as u128), U64)];
                        let mut found: Vec<(usize, Sc)> = vec![];
                        for e in list.iter() {
                            match e { V::Agg(x) if x.len() == 2 => { let id = at(it, &s, &x[0])?; found.push((id, sc_of(&x[1])?)); } _ => return fail("entry") }
                        }
                        found.sort_by_key(|x| x.0);
                        for (id, d) in found { o.push((Sc::C(id as u128), U64)); o.push((d, u32t)); }
                        out.push((s, o));
                    }
                }
                Ok(out)
            },
            &|it, st, _| {
                let _ = it;
                if let Some((_, _, kind)) = fails { return Ok(vec![(st, vec![(Sc::C(kind), ITy::I32)])]); }
                let mut w = want.clone();
                w.sort();
                let mut o: Obs = vec![(Sc::C(0), ITy::I32), (Sc::C(w.len() as u128), U64)];
                for (id, d) in w { o.push((Sc::C(id as u128), U64)); o.push((Sc::C(d as u128), u32t)); }
                Ok(vec![(st, o)])
            });
    });
}
fn ids_any(id: usize) -> usize { id }

fn c19(c: &mut Ctx) {
    c.rules.push("maxGridDiskSize equals the capped closed form for every 32-bit k".into());
    let k = c.code.d.fresh_int("k", 0, u32::MAX as i128);
    let u32t = ITy { bits: 32, signed: false, float: false };
    same(c, "largest disk size", "maxGridDiskSize", "max_disk", whole(), &[("k", V::S(k, u32t))]);
}
