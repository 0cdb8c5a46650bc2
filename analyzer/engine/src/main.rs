mod cachep;
mod facts;
mod hist;
mod mach;
mod models;
mod prog;
mod spec;
mod value;

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::rc::Rc;

#[derive(serde::Serialize, Default)]
struct Out {
    task: String,
    states: u64,
    exits: u64,
    panics: u64,
    suppressed: u64,
    obligations: BTreeMap<String, u64>,
    unmodelled: BTreeMap<String, u64>,
    functions: BTreeSet<String>,
    blocks: u64,
    calls: BTreeMap<String, u64>,
    findings: Vec<FindingOut>,
    seconds: f64,
}

#[derive(serde::Serialize, Clone)]
struct FindingOut {
    prop: String,
    msg: String,
    loc: String,
    entry: String,
    undecided: Option<String>,
    confirmed: bool,
    trace: Vec<String>,
}

fn conv(m: &mach::M, confirmed: bool) -> Vec<FindingOut> {
    m.findings.iter().map(|f| FindingOut { prop: f.prop.clone(), msg: f.msg.clone(), loc: f.loc.clone(), entry: f.entry.clone(), undecided: f.undecided.clone(), confirmed, trace: f.trace.clone() }).collect()
}

fn stats(o: &mut Out, m: &mach::M) {
    o.states += m.stats.states;
    o.exits = m.stats.exits;
    o.panics = m.stats.panics;
    o.suppressed = m.stats.suppressed;
    o.obligations = m.stats.obligations.clone();
    o.unmodelled = m.stats.unmodelled.clone();
    o.functions = m.stats.fns.iter().cloned().collect();
    o.blocks = m.stats.blocks.len() as u64;
    o.calls = m.stats.calls.iter().map(|(k, v)| (k.clone(), *v)).collect();
}

fn task(p: &Rc<prog::Prog>, f: &ir::Fn, op: cachep::Op, s: &cachep::Scen, props: Option<HashSet<String>>, limit: u64) -> Out {
    let t = std::time::Instant::now();
    let mut o = Out { task: format!("{} [{}]", f.path, s.name), ..Default::default() };
    let Some(m) = cachep::run(p, f, op, s, props.clone(), limit, 0) else {
        o.findings.push(FindingOut { prop: "*".into(), msg: "cannot be set up".into(), loc: f.path.clone(), entry: f.path.clone(), undecided: Some("setup".into()), confirmed: false, trace: vec![] });
        return o;
    };
    stats(&mut o, &m);
    o.findings = conv(&m, false);
    // again, remembering more facts
    for precise in 1..3 {
        if o.findings.is_empty() || std::env::var("FAST").is_ok() { break }
        let Some(m) = cachep::run(p, f, op, s, props.clone(), limit, precise) else { break };
        stats(&mut o, &m);
        let new = conv(&m, true);
        if new.iter().any(|f| f.msg == "state limit reached") && !new.iter().any(|f| f.prop != "*" && f.undecided.is_none()) {
            // those not found again stay unconfirmed
            for f in &mut o.findings {
                match new.iter().find(|g| g.prop == f.prop && g.msg == f.msg) {
                    Some(g) => *f = g.clone(),
                    None => f.confirmed = false,
                }
            }
            break;
        }
        o.findings = new;
    }
    o.seconds = t.elapsed().as_secs_f64();
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let file = &args[1];
    let cmd = args.get(2).map(|s| s.as_str()).unwrap_or("");
    let c: ir::Crate = serde_json::from_slice(&std::fs::read(file).unwrap()).unwrap();
    let p = Rc::new(prog::Prog::new(c, file));
    match cmd {
        "list" => {
            for (f, op) in cachep::ops(&p) {
                for (i, s) in cachep::scenarios(op).iter().enumerate() {
                    println!("{}\t{:?}\t{}\t{}", f.path, op, i, s.name);
                }
            }
        }
        "task" => {
            // task FN SCENARIO PROPS LIMIT
            let props = if args[5] == "-" { None } else { Some(args[5].split(',').map(|s| s.to_string()).chain(["*".to_string()]).collect()) };
            for (f, op) in cachep::ops(&p) {
                if f.path != args[3] { continue }
                let s = cachep::scenarios(op);
                let o = task(&p, &f, op, &s[args[4].parse::<usize>().unwrap()], props, args[6].parse().unwrap());
                println!("{}", serde_json::to_string(&o).unwrap());
                return;
            }
            std::process::exit(3);
        }
        "hist" => {
            // hist PROP SECONDS STATES
            let prop = if args[3] == "-" { None } else { Some(args[3].as_str()) };
            let o = hist::explore(&p, prop, args[4].parse().unwrap(), args[5].parse().unwrap());
            let f: Vec<FindingOut> = o.findings.iter().map(|f| FindingOut { prop: f.prop.clone(), msg: f.msg.clone(), loc: f.loc.clone(), entry: f.entry.clone(), undecided: None, confirmed: true, trace: f.trace.clone() }).collect();
            println!("{}", serde_json::json!({ "states": o.states, "steps": o.steps, "machine": o.machine, "complete": o.complete, "findings": f, "extra": o.extra, "obligations": o.obligations, "notes": o.notes }));
        }
        "spec" => {
            // spec PROP
            let mut ck = spec::Ck { p: p.clone(), r: Default::default(), debug: std::env::var("DBGP").is_ok() };
            match args[3].as_str() {
                "C19" => spec::c19(&mut ck),
                "C20" => spec::c20(&mut ck),
                "C31" => spec::c31(&mut ck),
                "C13" => spec::c13(&mut ck),
                "C15" => spec::c15(&mut ck),
                "C17" => spec::c17(&mut ck),
                "C18" => spec::c18(&mut ck),
                _ => std::process::exit(3),
            }
            println!("{}", serde_json::to_string(&ck.r).unwrap());
        }
        _ => {
            let limit = std::env::var("LIM").ok().and_then(|x| x.parse().ok()).unwrap_or(300_000);
            for (f, op) in cachep::ops(&p) {
                if !f.path.contains(cmd) { continue }
                for s in cachep::scenarios(op) {
                    if let Ok(x) = std::env::var("SC") { if !s.name.contains(&x) { continue } }
                    let o = task(&p, &f, op, &s, None, limit);
                    println!("== {} {:?} states {} exits {} panics {} suppressed {} findings {} obl {} {:.2}s", o.task, op, o.states, o.exits, o.panics, o.suppressed, o.findings.len(), o.obligations.values().sum::<u64>(), o.seconds);
                    for (k, v) in &o.unmodelled { println!("   unmodelled {} x{}", k, v) }
                    for x in o.findings.iter().take(8) {
                        println!("   {} {} @ {} {:?} {}", x.prop, x.msg, x.loc, x.undecided, if x.confirmed { "" } else { "(unconfirmed)" });
                        if std::env::var("TRACE").is_ok() { for l in &x.trace { println!("        {}", l) } }
                    }
                }
            }
        }
    }
}
