//! Runtime monitors for the hyper-ir-lsp server.
//!
//! hirmon check ID  --server BIN [--seed N] [--tier quick|thorough] [--root DIR] [--repo DIR]
//!                  [--seconds N] [--cases N] [--only INDEX]
//! hirmon replay FILE --server BIN     sends a recorded session again and prints what comes back

mod bt;
mod client;
mod gen;
mod heap;
mod lex;
mod model;
mod nav;
mod proto;
mod rng;
mod run;
mod shape;
mod sys;
mod text;

use run::{Ctx, Plan};
use serde_json::{json, Value};
use std::time::{Duration, Instant};

fn plan(id: &str, thorough: bool) -> Option<Plan> {
    let secs = if thorough { 600 } else { 75 };
    let p = |case: run::CaseFn, quick: usize, rule: &'static str| Plan {
        case,
        workers: 8,
        cases: if thorough { quick * 16 } else { quick },
        limit: Duration::from_secs(secs),
        rule,
        assumptions: vec![
            "the reference lexer, parser and symbol model in harness/src state the intended language; generated texts avoid U+000B, U+000C, U+0085, U+2028 and U+2029, which are known findings of C02",
            "held on the executions observed in this run, not on all executions",
        ],
    };
    Some(match id {
        "C01" => p(proto::c01, 12000, "random sessions: hostile and mutated documents, random well-formed requests and notifications with extreme positions, names and arguments; non-trivial: distinct session in which at least 10 requests were answered"),
        "C02" => p(nav::c02, 4000, "documents with Unicode, CRLF/CR, long lines, stray characters; every position of every answer and notification is validated, symbol ranges are compared with the text; non-trivial: distinct text with non-ASCII or CR characters and at least one symbol"),
        "C03" => p(nav::c03, 3000, "generated and hostile modules, queried inside, before and after symbols; non-trivial: distinct text in which symbols of at least two shapes were queried"),
        "C04" => p(nav::c04, 8000, "generated and hostile modules, prepareRename and rename with valid and invalid names; non-trivial: distinct text whose renamed version was analysed again"),
        "C05" => p(nav::c05, 8000, "generated modules with numbered symbols, relative renames with small and extreme shifts, code actions eager and lazy; non-trivial: distinct text in which a shift with more than one edit was checked"),
        "C06" => p(shape::c06, 60000, "generated syntactically valid modules with and without semantic errors; non-trivial: distinct text with at least three symbols"),
        "C07" => p(shape::c07, 28000, "valid modules with one malformed statement or stray characters inserted at any place, and arbitrary texts; non-trivial: distinct invalid text"),
        "C08" => p(proto::c08, 2400, "histories of opens and changes (several or no content changes) over several documents with pipelined requests; non-trivial: distinct history with at least two versions of a document and pipelined requests"),
        "C09" => p(shape::c09, 60000, "generated, hostile and lexically dense texts; non-trivial: distinct text with at least four classes of tokens"),
        "C10" => p(shape::c10, 36000, "generated valid modules; non-trivial: distinct text with at least one function definition"),
        "C11" => p(shape::c11, 28000, "generated valid modules with branches of all kinds; non-trivial: distinct text with at least two control-flow edges"),
        "C12" => p(bt::c12, 40000, "modules whose instructions refer to annotations with generated JSON; non-trivial: distinct text with at least one backtrace of two or more frames"),
        "C13" => p(bt::c13, 9000, "workspace roots and paths generated in a scratch directory; non-trivial: distinct (roots, text) in which at least one link was expected and one was not"),
        "C14" => p(proto::c14, 7000, "random schedules of visualise commands, replies, cancellations, edits and queries; non-trivial: distinct schedule in which other messages were answered while a graph request was open"),
        "C16" => p(proto::c16, 6000, "sessions over all capability combinations, log levels and lifecycle orders; non-trivial: distinct lifecycle script"),
        "C17" => p(sys::c17, 2200, "sessions traced with strace; non-trivial: distinct session in which the server made file-system calls"),
        "C18" => p(heap::c18, 240, "sessions which edit, query, command and cancel for long and end with the texts they began with, under a counting allocator; non-trivial: distinct session"),
        _ => return None,
    })
}

fn arg(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1).cloned())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match (args.get(1).map(|s| s.as_str()), args.get(2)) {
        (Some("check"), Some(id)) => check(id, &args),
        (Some("replay"), Some(f)) => replay(f, &args),
        (Some("model"), Some(f)) => {
            let m = model::analyse(&std::fs::read_to_string(f).unwrap());
            println!("valid={} bad={:?}", m.valid, m.bad);
            for s in &m.stmts {
                println!("{:?}", s);
            }
            0
        }
        _ => {
            eprintln!("usage: hirmon check ID --server BIN | hirmon replay FILE --server BIN");
            2
        }
    };
    std::process::exit(code);
}

fn check(id: &str, args: &[String]) -> i32 {
    let start = Instant::now();
    let thorough = arg(args, "--tier").as_deref() == Some("thorough");
    let mut plan = match plan(id, thorough) {
        Some(p) => p,
        None => {
            eprintln!("no check {}", id);
            return 2;
        }
    };
    let root = arg(args, "--root").unwrap_or_else(|| "/verif".into());
    let scratch = std::env::temp_dir()
        .join(format!("hirmon-{}-{}", id, std::process::id()))
        .to_string_lossy()
        .to_string();
    let ctx = Ctx {
        prop: id.to_string(),
        seed: arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough,
        server: arg(args, "--server").unwrap_or_else(|| format!("{}/.build/hyper-ir-lsp", root)),
        repo: arg(args, "--repo").unwrap_or_else(|| "/repo".into()),
        root: root.clone(),
        scratch: scratch.clone(),
    };
    if let Some(s) = arg(args, "--seconds").and_then(|s| s.parse().ok()) {
        plan.limit = Duration::from_secs(s);
    }
    if let Some(s) = arg(args, "--cases").and_then(|s| s.parse().ok()) {
        plan.cases = s;
    }
    let only = arg(args, "--only").and_then(|s| s.parse().ok());
    if std::fs::create_dir_all(&scratch).is_err() {
        eprintln!("cannot create {}", scratch);
        return 2;
    }
    let o = run::run(&ctx, &plan, only);
    let _ = std::fs::remove_dir_all(&scratch);

    let mut known = o.known.clone();
    known.sort();
    known.dedup();
    for k in &known {
        println!("KNOWN-FINDING: property={} input=[{}]", id, k);
    }
    let mut coverage = json!({
        "evaluations": o.evaluations,
        "distinct_nontrivial": o.distinct,
        "rule": plan.rule,
        "samples": o.samples,
        "observed": o.count.0,
    });
    if !known.is_empty() {
        coverage["known_findings"] = json!(known);
    }
    let ev = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": ctx.seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": plan.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": o.violations.len(),
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    let p = format!("{}/evidence/{}.json", root, id);
    if let Err(e) = std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
        eprintln!("cannot write {}: {}", p, e);
        return 2;
    }
    for v in &o.violations {
        let dir = format!("{}/out/{}", root, id);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/case-{}-{}.json", dir, ctx.seed, v.index);
        let rec = json!({
            "property": id,
            "what": v.what,
            "detail": v.detail,
            "init": v.init,
            "sent": v.log,
            "rerun": format!("HIRMON_ONLY={} VERIF_SEED={} bash check.sh {}", v.index, ctx.seed, id),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rec).unwrap() + "\n");
        let d = v.detail.to_string();
        println!("{}: {} {}", id, v.what, d.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", id, path);
    }
    if !o.violations.is_empty() {
        return 1;
    }
    if let Some(b) = o.broken {
        eprintln!("no verdict: {}", b);
        return 3;
    }
    if only.is_none() && o.distinct < 2 {
        eprintln!("no verdict: only {} non-trivial cases in {} evaluations", o.distinct, o.evaluations);
        return 3;
    }
    println!(
        "{}: held on {} cases ({} distinct non-trivial), {} messages sent, {} received, {:.1} s",
        id,
        o.evaluations,
        o.distinct,
        o.count.0.get("messages_sent").unwrap_or(&0),
        o.count.0.get("messages_received").unwrap_or(&0),
        start.elapsed().as_secs_f64()
    );
    0
}

/// Sends the recorded messages of a violation to a server and prints its output
fn replay(f: &str, args: &[String]) -> i32 {
    let server = arg(args, "--server").unwrap_or_else(|| "/verif/.build/hyper-ir-lsp".into());
    let rec: Value = match std::fs::read_to_string(f).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", f);
            return 2;
        }
    };
    println!("property {}: {}", rec["property"], rec["what"]);
    println!("{}", serde_json::to_string_pretty(&rec["detail"]).unwrap());
    use std::io::{Read, Write};
    let mut ch = match std::process::Command::new(&server)
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let mut i = ch.stdin.take().unwrap();
    let msgs: Vec<Value> = rec["sent"].as_array().cloned().unwrap_or_default();
    std::thread::spawn(move || {
        for m in msgs {
            let b = m.to_string();
            let _ = write!(i, "Content-Length: {}\r\n\r\n{}", b.len(), b);
            let _ = i.flush();
            std::thread::sleep(Duration::from_millis(5));
        }
        std::thread::sleep(Duration::from_secs(2));
    });
    let mut s = String::new();
    let _ = ch.stdout.take().unwrap().read_to_string(&mut s);
    let tail: String = s.chars().rev().take(20000).collect::<Vec<_>>().into_iter().rev().collect();
    println!("--- end of the server's output\n{}", tail);
    println!("--- {:?}", ch.wait());
    0
}
