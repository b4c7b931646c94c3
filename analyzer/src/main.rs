#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod builtins;
mod ctx;
mod interp;
mod line;
mod lower;
mod rules;
mod text;
mod tree;
mod val;

use interp::*;
use lower::Prog;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::*;
use rustc_public::*;
use std::collections::BTreeMap;
use std::ops::ControlFlow;

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jmap(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    format!("{{{}}}", v.join(","))
}

fn run_all() -> ControlFlow<()> {
    let want = std::env::var("SPEC_RUN").unwrap_or_default();
    let out = std::env::var("SPEC_OUT").unwrap_or_default();
    let secs: u64 = std::env::var("SPEC_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(600);
    let verbose = std::env::var("SPEC_VERBOSE").is_ok();
    tree::set_small(std::env::var("SPEC_SMALL").ok().and_then(|s| s.parse().ok()).unwrap_or(0));
    let shard = std::env::var("SPEC_SHARD").ok().and_then(|s| {
        let (a, b) = s.split_once('/')?;
        Some((a.parse().ok()?, b.parse().ok()?))
    });
    let contracts: Vec<(String, String)> = std::env::var("SPEC_CONTRACTS")
        .unwrap_or_default()
        .split(';')
        .filter_map(|s| s.split_once("=>").map(|(a, b)| (a.trim().to_string(), b.trim().to_string())))
        .collect();
    let items = all_local_items();
    if want == "list" {
        for it in items {
            println!("{}", it.name());
        }
        return ControlFlow::Continue(());
    }
    let mut results = vec![];
    for w in want.split(',').filter(|s| !s.is_empty()) {
        let Some(it) = items.iter().find(|i| i.name().to_string().rsplit("::").next() == Some(w)) else {
            eprintln!("no harness {}", w);
            results.push(format!("{{\"harness\":{},\"missing\":true}}", jstr(w)));
            continue;
        };
        let TyKind::RigidTy(RigidTy::FnDef(d, a)) = it.ty().kind() else { continue };
        let inst = match Instance::resolve(d, &a) {
            Ok(i) => i,
            Err(e) => {
                eprintln!("cannot resolve {}: {:?}", w, e);
                continue;
            }
        };
        let mut prog = Prog::new();
        for (a, b) in &contracts {
            prog.overrides.insert(a.clone(), b.clone());
        }
        let t0 = std::time::Instant::now();
        let mut eng = Engine {
            prog,
            cx: Default::default(),
            seen: Default::default(),
            nodes: vec![Default::default()],
            edges: vec![],
            stats: Default::default(),
            reports: Default::default(),
            budget: u64::MAX,
            deadline: t0 + std::time::Duration::from_secs(secs),
            shard,
            harness: w.to_string(),
            max_reports: if tree::small() > 0 { 1 } else { 8 },
            verbose,
            profile: std::env::var("SPEC_PROF").is_ok(),
        };
        let id = eng.prog.fn_id(inst);
        match eng.start(id, false) {
            Ok(st) => eng.explore(st),
            Err(e) => {
                *eng.stats.incomplete.entry(format!("cannot lower {}: {}", w, e)).or_insert(0) += 1;
            }
        }
        let s = &eng.stats;
        if eng.profile {
            let mut v: Vec<_> = s.prof.iter().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1[0]));
            for (k, n) in v.iter().take(60) {
                eprintln!("PROF {:>10} {:>8} {:>8} {}", n[0], n[1], n[2], k);
            }
        }
        let mut fns: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
        for ((f, _), _) in s.repo_blocks.iter() {
            let fi = &eng.prog.fns[*f as usize];
            let e = fns.entry(fi.def.clone()).or_insert_with(|| {
                let (n, l) = match &fi.func {
                    Some(f) => (f.blocks.len() as u64, format!("{}:{}", f.blocks[0].file, f.blocks[0].line)),
                    None => (0, String::new()),
                };
                (0, n, l)
            });
            e.0 += 1;
        }
        let fl: Vec<String> = fns
            .iter()
            .map(|(k, (a, b, l))| format!("{}:[{},{},{}]", jstr(k), a, b, jstr(l)))
            .collect();
        let rl: Vec<String> = eng
            .reports
            .values()
            .map(|r| format!("{{\"key\":{},\"what\":{},\"count\":{},\"text\":{}}}", jstr(&r.key), jstr(&r.what), r.count, jstr(&r.text)))
            .collect();
        results.push(format!(
            "{{\"harness\":{},\"steps\":{},\"states\":{},\"merged\":{},\"forks\":{},\"paths\":{},\"pruned\":{},\"exhausted\":{},\"secs\":{:.2},\"max_markers\":{},\"checks\":{},\"reached\":{},\"incomplete\":{},\"contracts\":[{}],\"functions\":{{{}}},\"reports\":[{}]}}",
            jstr(w), s.steps, s.states, s.merged, s.forks, s.paths, s.pruned, s.exhausted, t0.elapsed().as_secs_f64(), s.max_tree,
            jmap(&s.checks), jmap(&s.reached), jmap(&s.incomplete), eng.prog.used.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","), fl.join(","), rl.join(",")
        ));
    }
    let text = format!("[{}]\n", results.join(",\n"));
    if out.is_empty() {
        println!("{}", text);
    } else {
        std::fs::write(&out, text).expect("write results");
    }
    ControlFlow::Break(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // called by cargo in place of the compiler
    let rules = std::env::var("RULES_OUT").ok();
    if rules.is_some() {
        args.remove(0);
    }
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let r = rustc_public::run_with_tcx!(&args, |tcx: rustc_middle::ty::TyCtxt<'_>| match &rules {
                // other crates, and cargo's own questions, are compiled as they are
                Some(out) if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() == "normalize_interval" => rules::run(tcx, out),
                Some(_) => ControlFlow::Continue(()),
                None => run_all(),
            });
            match r {
                Ok(_) | Err(rustc_public::CompilerError::Interrupted(_)) | Err(rustc_public::CompilerError::Skipped) => 0,
                Err(e) => {
                    eprintln!("driver: {:?}", e);
                    3
                }
            }
        })
        .unwrap();
    std::process::exit(h.join().unwrap_or(4));
}
