#![allow(warnings)]
#[path = "../../common/ir.rs"]
#[allow(dead_code)]
mod ir;
mod checks;
mod checks_common;
mod checks_geo;
mod checks_pure;
mod dom;
mod elim;
mod fterm;
mod checks_float;
mod harness;
mod interp;
mod natives;
mod ops;
mod poly;

use dom::*;
use harness::*;
use interp::*;

fn main() {
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(real_main).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}

fn opt(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }

fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map_or(false, |x| x == "conc") { return conc(&a[1..]); }
    if a.get(1).map_or(false, |x| x == "debug") { return debug(&a[1..]); }
    let id = a[1].clone();
    let t0 = std::time::Instant::now();
    let load = |k: &str| -> ir::Program { serde_json::from_slice(&std::fs::read(opt(&a, k).unwrap()).unwrap()).unwrap() };
    let code = load("--code");
    let spec = load("--spec");
    let tier = opt(&a, "--tier").unwrap_or("quick".into());
    let mut c = Ctx::new(&code, &spec, &tier);
    c.code.trace = std::env::var("TRACE2").is_ok();
    if !checks::run(&id, &mut c) { eprintln!("unknown check {}", id); return 3; }
    let known: Vec<String> = opt(&a, "--known").and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default().lines()
        .filter(|l| l.starts_with(&format!("known: property={} ", id))).map(|l| l.to_string()).collect();
    let evdir = opt(&a, "--evidence").unwrap_or("/tmp".into());
    let mut bad = vec![];
    for f in &c.findings {
        if let Some(k) = known.iter().find(|l| l.contains(&format!("key=[{}]", f.key))) {
            println!("KNOWN-FINDING: property={} {}", id, k.split("key=[").nth(1).unwrap_or(""));
        } else { bad.push(f); }
    }
    let code_blocks: usize = c.code.visited.len();
    let funcs: std::collections::BTreeSet<String> = c.code.called.iter().map(|f| code.funcs[*f as usize].name.clone()).collect();
    let local: Vec<String> = c.code.called.iter().filter(|f| code.funcs[**f as usize].local).map(|f| code.funcs[*f as usize].name.clone()).collect();
    let replay = format!("{}/{}.violation.txt", evdir, id);
    let _ = std::fs::remove_file(&replay);
    if !bad.is_empty() { let _ = std::fs::write(&replay, bad.iter().map(|f| f.text.clone()).collect::<Vec<_>>().join("\n") + "\n"); }
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(1), "level": if matches!(id.as_str(), "C15" | "C16" | "C17" | "C18" | "C20" | "C21") { "other" } else { "proof" },
        "coverage": {
            "explanation": c.rules.join("; "),
            "obligations": c.obligations, "discharged": c.discharged,
            "cases": c.cases, "abstract_result_states": c.leaves, "comparisons": c.comparisons, "infeasible_states_dismissed": c.infeasible,
            "anchors": c.anchors.iter().cloned().collect::<Vec<_>>(),
            "functions_analysed": funcs.len(), "local_functions_analysed": local, "basic_blocks_reached": code_blocks,
            "abstract_steps": c.code.steps, "joins": c.code.merges,
            "checker_cmd": format!("bash /verif/check.sh {} {}", id, tier),
            "trusted_base": ["rustc nightly (MIR construction and monomorphisation)", "/verif/driver (MIR dump)", "/verif/engine (abstract interpreter)", "/verif/spec (reference definitions)"],
            "inconclusive": c.inconclusive, "notes": c.notes, "samples": c.samples,
        },
        "assumptions": ["the analysed program is the crate as built with overflow checks on, on a 64-bit target"],
        "wall_s": t0.elapsed().as_secs_f64(), "violations": bad.len(),
    });
    let _ = std::fs::write(format!("{}/{}.json", evdir, id), serde_json::to_string_pretty(&ev).unwrap() + "\n");
    println!("{}: {} obligations, {} discharged, {} leaves, {} functions, {:.1} s", id, c.obligations, c.discharged, c.leaves, funcs.len(), t0.elapsed().as_secs_f64());
    for f in &bad { println!("  {}", f.text); }
    if !bad.is_empty() {
        println!("VIOLATION property={} replay={}", id, replay);
        return 1;
    }
    if !c.inconclusive.is_empty() {
        for x in c.inconclusive.iter().take(20) { println!("  INCONCLUSIVE {}", x); }
        return 2;
    }
    if c.obligations == 0 || c.discharged + (c.findings.len() as u64) < c.obligations { println!("  obligations left open"); return 2; }
    0
}

fn debug(a: &[String]) -> i32 {
    let p: ir::Program = serde_json::from_slice(&std::fs::read(&a[1]).unwrap()).unwrap();
    let mut it = Interp::new(&p);
    it.trace = std::env::var("TRACE").is_ok();
    let f = it.find(&a[2]).expect("fn");
    let res: u32 = std::env::var("RES").map_or(3, |x| x.parse().unwrap());
    let c = it.mk_cell("", res);
    let cases = it.valid_cases(&c);
    for (name, doms) in cases {
        println!("--- {}", name);
        let mut st = St::new();
        st.doms = doms;
        let mut args = vec![];
        for (i, ty) in p.funcs[f as usize].inputs.iter().enumerate() {
            let n = it.ity(*ty);
            match n {
                Some(t) if t.bits == 64 && !t.signed => args.push(V::S(c.h.clone(), t)),
                Some(t) => { let v = a.get(3 + i).map_or(0, |x| x.parse::<i128>().unwrap()); args.push(vc(v, t)); }
                None => {
                    if let ir::TypeKind::Adt { variants, .. } = &p.types[*ty as usize].kind {
                        let s = it.d.new_sym("dir", variants.len() as u32);
                        args.push(it.enum_sc(it.d.sym_sc(s), variants.len()));
                    } else {
                        let v = a.get(3 + i).map_or(0, |x| x.parse::<i128>().unwrap());
                        let (s, ps) = it.with_cells(&st, vec![vc(v, ITy::I32)]);
                        st = s;
                        args.push(ps[0].clone());
                    }
                }
            }
        }
        let t0 = std::time::Instant::now();
        it.panics.clear();
        let s0 = it.steps;
        match it.run_fn(st, f, args) {
            Ok(v) => {
                println!("{} leaves, {} panics, {} steps {} merges {:?}", v.len(), it.panics.len(), it.steps - s0, it.merges, t0.elapsed());
                for (s, v) in v.iter().take(12) { println!("  [{}] -> {}", it.show_doms(&s.doms), it.showv(v)); }
                for x in it.panics.iter().take(12) { println!("  PANIC {} {} [{}]", it.fname(x.func), x.msg, it.show_doms(&x.doms)); }
            }
            Err(e) => println!("ERR {:?} {} steps {:?}", e, it.steps, t0.elapsed()),
        }
    }
    0
}

/// conc PROGRAM H...: evaluates every public one-argument function on constants (self-test of the interpreter)
fn conc(a: &[String]) -> i32 {
    let p: ir::Program = serde_json::from_slice(&std::fs::read(&a[1]).unwrap()).unwrap();
    let mut it = Interp::new(&p);
    fn show(it: &Interp, v: &V) -> String {
        match v {
            V::S(Sc::C(c), t) => if t.float { format!("{:?}", f64::from_bits(*c as u64)) } else { format!("{}", t.to_i(*c)) },
            V::Agg(x) | V::Vec(x) => format!("({})", x.iter().map(|y| show(it, y)).collect::<Vec<_>>().join(", ")),
            V::Enum(Sc::C(i), p) => format!("#{}({})", i, p[*i as usize].iter().flat_map(|x| x.iter()).map(|y| show(it, y)).collect::<Vec<_>>().join(", ")),
            _ => format!("?{}", it.showv(v)),
        }
    }
    for (i, f) in p.funcs.iter().enumerate() {
        if !f.local || !f.is_pub || f.inputs.len() != 1 { continue; }
        for h in &a[2..] {
            let h: u64 = h.parse().unwrap();
            it.stack.clear();
            it.panics.clear();
            let r = match it.run_fn(St::new(), i as u32, vec![vc(h as i128, ITy::U64)]) {
                Ok(v) if v.len() == 1 => show(&it, &v[0].1),
                Ok(v) if v.is_empty() && !it.panics.is_empty() => "PANIC".into(),
                Ok(v) => format!("?{} leaves", v.len()),
                Err(Stop::Fail(e)) => format!("?{}", e),
                Err(_) => "?split".into(),
            };
            println!("{} {} {}", f.name.rsplit("::").next().unwrap(), h, r);
        }
    }
    0
}
