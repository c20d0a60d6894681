// Results depend on the arguments alone: no path through the call graph of the
// crate reaches mutable shared state or the environment.
use crate::harness::*;
use crate::ir::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

/// part of a definition path -> the effect it stands for
const EFFECTS: [(&str, &str); 22] = [
    ("std::time::", "the clock"), ("std::env::", "the environment"), ("std::fs::", "the file system"), ("std::net::", "the network"),
    ("std::process::", "other processes"), ("std::thread::", "threads or thread-local state"), ("std::io::", "input or output"), ("std::os::", "the operating system"),
    ("std::random::", "randomness"), ("std::sys::", "the operating system"), ("std::sync::", "shared state"), ("core::sync::", "shared state"),
    ("std::backtrace", "the call stack"), ("std::alloc::System", "the allocator"), ("std::hash::BuildHasher::hash_one", "a randomly keyed hash"),
    ("std::collections::hash::map::Iter", "the order of a randomly keyed table"), ("hash_map::Iter", "the order of a randomly keyed table"), ("hash_set::Iter", "the order of a randomly keyed table"),
    ("std::any::type_name", "compiler names"), ("std::panic::catch_unwind", "panics as results"), ("std::panic::Location", "the place of the call"), ("rand::", "randomness"),
];
/// entered by name only: a randomly keyed table used as a set does not show its keys, and numeric functions are pure
const PURE: [&str; 6] = ["LazyLock<", "std::sys::cmath::", "std::hash::RandomState", "RandomState as", "std::sys::alloc", "core::num::"];
/// methods of such tables are judged by name too (their keys come from thread-local state)
const TABLE: [&str; 8] = ["HashMap<", "HashSet<", "collections::hash::", "HashMap::", "HashSet::", "hashbrown::", "hash_map::", "hash_set::"];
const ORDER: [&str; 12] = ["iter", "iter_mut", "into_iter", "keys", "values", "values_mut", "drain", "into_keys", "into_values", "next", "retain", "fmt"];

fn effect(f: &Func) -> Option<&'static str> {
    let d = f.def.as_str();
    if PURE.iter().any(|p| d.contains(p)) { return None; }
    let table = !f.local && TABLE.iter().any(|p| d.contains(p));
    if table { let m = d.rsplit("::").next().unwrap_or(""); if ORDER.contains(&m) { return Some("the order of a randomly keyed table"); } if f.foreign { return Some("a foreign function"); } return None; }
    if let Some(e) = EFFECTS.iter().find(|e| d.contains(e.0)) {
        // once-computed values and locks without shared instances are harmless by themselves: statics are looked at directly
        return Some(e.1);
    }
    if f.foreign { return Some("a foreign function"); }
    None
}
fn consts<'a>(v: &'a CVal, out: &mut Vec<&'a CVal>) {
    out.push(v);
    if let CVal::Agg(x) | CVal::Enum(_, x) = v { for y in x { consts(y, out); } }
}
fn operands<'a>(b: &'a Body) -> Vec<&'a Operand> {
    let mut o = vec![];
    for bl in &b.blocks {
        for s in &bl.stmts {
            match &s.kind {
                StmtKind::Assign(_, r) => match r {
                    Rvalue::Use(x) | Rvalue::Repeat(x, _) | Rvalue::Cast { op: x, .. } | Rvalue::Un { a: x, .. } => o.push(x),
                    Rvalue::Bin { a, b, .. } => { o.push(a); o.push(b); }
                    Rvalue::Aggregate(_, v) => o.extend(v.iter()),
                    _ => {}
                },
                StmtKind::Assume(x) => o.push(x),
                StmtKind::Copy(a, b, c) => o.extend([a, b, c]),
                _ => {}
            }
        }
        match &bl.term {
            Term::Switch { op, .. } => o.push(op),
            Term::Call { func, args, .. } => { o.push(func); o.extend(args.iter()); }
            Term::Assert { cond, ops, .. } => { o.push(cond); o.extend(ops.iter()); }
            _ => {}
        }
    }
    o
}
/// computed once, by a function of no arguments (which is analysed like every other function)
fn lazy(p: &Program, t: TyId) -> bool { matches!(&p.types[t as usize].kind, TypeKind::Adt { name, .. } if name.ends_with("LazyLock")) }
/// effects of the functions reachable from the given ones: (local function, what, chain)
fn scan(p: &Program, roots: &[FnId]) -> (Vec<(String, String, String)>, u64, u64) {
    let mut from: BTreeMap<FnId, FnId> = BTreeMap::new();
    let mut q: VecDeque<FnId> = VecDeque::new();
    for r in roots { if !from.contains_key(r) { from.insert(*r, *r); q.push_back(*r); } }
    let mut out = vec![];
    let mut seen: BTreeSet<(String, String)> = BTreeSet::new();
    let (mut calls, mut refs) = (0, 0);
    let chain = |from: &BTreeMap<FnId, FnId>, f: FnId| {
        let mut c = vec![f];
        while from[c.last().unwrap()] != *c.last().unwrap() { c.push(from[c.last().unwrap()]); }
        c.reverse();
        let near = c.iter().rev().find(|x| p.funcs[**x as usize].local).cloned().unwrap_or(c[0]);
        let g = &p.funcs[near as usize];
        (format!("{}", g.def), format!("{} ({}:{}) via {}", g.name, g.file, g.line, c.iter().map(|x| p.funcs[*x as usize].def.clone()).collect::<Vec<_>>().join(" -> ")))
    };
    while let Some(f) = q.pop_front() {
        let func = &p.funcs[f as usize];
        if let Some(e) = effect(func) {
            let (k, t) = chain(&from, f);
            if seen.insert((k.clone(), e.into())) { out.push((k, e.to_string(), t)); }
            continue;
        }
        if PURE.iter().chain(TABLE.iter()).any(|x| func.def.contains(x)) && !func.local { continue; }
        let b = match &func.body { Some(b) => b, None => continue };
        let mut hits: Vec<String> = vec![];
        let mut next: Vec<FnId> = vec![];
        for o in operands(b) {
            if let Operand::Const { ty, val } = o {
                let mut cs = vec![];
                consts(val, &mut cs);
                for c in cs {
                    match c {
                        CVal::RefStatic { stat, .. } => {
                            refs += 1;
                            let s = &p.statics[*stat as usize];
                            if (s.mutable || !s.freeze) && !lazy(p, s.ty) { hits.push(format!("the changeable static {}", s.name)); }
                        }
                        CVal::FnPtr(Some(g), _) => next.push(*g),
                        _ => {}
                    }
                }
                if let TypeKind::FnDef { func: Some(g), .. } = &p.types[*ty as usize].kind { next.push(*g); }
            }
        }
        for bl in &b.blocks {
            for s in &bl.stmts {
                if let StmtKind::Assign(_, r) = &s.kind {
                    match r {
                        Rvalue::Other(x) if x == "thread_local" => hits.push("thread-local state".into()),
                        Rvalue::Cast { kind, .. } if func.local && kind.contains("PointerExpose") => hits.push("the address of a value".into()),
                        _ => {}
                    }
                }
            }
            match &bl.term { Term::Asm => hits.push("inline assembly".into()), Term::Call { callee: Some(g), .. } => { calls += 1; next.push(*g); } _ => {} }
        }
        for h in hits {
            let (k, t) = chain(&from, f);
            if seen.insert((k.clone(), h.clone())) { out.push((k, h, t)); }
        }
        next.extend(func.aux.iter().cloned());
        for g in next { if !from.contains_key(&g) { from.insert(g, f); q.push_back(g); } }
    }
    (out, calls, refs)
}

/// functions of the crate below which the analysis would be vacuous
const FLOOR: usize = 60;
pub fn c20(c: &mut Ctx) {
    c.rules.push("no path of the resolved call graph from any function of the crate reaches a changeable static, thread-local state, interior mutability behind a static, randomness, iteration over a randomly keyed table, the clock, the environment, files, input or output, threads, processes, foreign code, inline assembly or the address of a value".into());
    let p = c.code.p;
    let roots: Vec<FnId> = (0..p.funcs.len() as u32).filter(|f| p.funcs[*f as usize].local).collect();
    for f in &roots { c.anchors.insert(p.funcs[*f as usize].name.clone()); c.code.called.insert(*f); }
    c.obligations += roots.len() as u64;
    c.cases += roots.len() as u64;
    if roots.len() < FLOOR { c.inconclusive.push(format!("only {} functions of the crate found", roots.len())); }
    let (hits, calls, refs) = scan(p, &roots);
    c.discharged += roots.len() as u64;
    c.comparisons += calls;
    c.notes.push(format!("{} functions of the crate, {} call sites, {} uses of statics, {} statics, {} foreign modules", roots.len(), calls, refs, p.statics.len(), p.foreign_items));
    c.notes.push(format!("generic functions analysed through their instances only: {}", p.generic_local_fns.join(", ")));
    for (k, e, t) in hits { c.discharged = c.discharged.saturating_sub(1); c.violate(format!("{} {}", k, e), format!("result depends on {}: {}", e, t)); }
    if p.foreign_items > 0 { c.violate("foreign items".into(), "the crate declares foreign functions".into()); }
    // the rule must fire on the examples kept for that purpose, and only there
    let s = c.spec.p;
    let all: Vec<FnId> = (0..s.funcs.len() as u32).filter(|f| s.funcs[*f as usize].local).collect();
    let ex = |f: &FnId| s.funcs[*f as usize].name.contains("control::impure_");
    let good: Vec<FnId> = all.iter().cloned().filter(|f| !["control::impure_", "control::LAST"].iter().any(|x| s.funcs[*f as usize].name.contains(x))).collect();
    let bad: Vec<FnId> = all.iter().cloned().filter(ex).collect();
    c.obligations += 1;
    if bad.len() < 6 { c.inconclusive.push(format!("{} positive examples found", bad.len())); }
    let mut silent = vec![];
    for f in &bad { if scan(s, &[*f]).0.is_empty() { silent.push(s.funcs[*f as usize].name.clone()); } }
    let noisy = scan(s, &good).0;
    if silent.is_empty() && noisy.is_empty() { c.discharged += 1; } else { c.inconclusive.push(format!("the rule misjudges its examples: silent on {:?}, fires on {:?}", silent, noisy)); }
    c.notes.push(format!("{} positive examples fire, {} negative ones do not", bad.len() - silent.len(), good.len()));
}
