//! Monitor for the resources of long sessions (C18): live heap (counted by the preloaded
//! allocator of heap.c), threads and open files, before and after long histories which end where
//! they began.

use crate::client::{bad, Client, Res, Stop};
use crate::gen::{self, Cfg};
use crate::model::{analyse, Model};
use crate::nav::{init_caps, lazy_caps};
use crate::proto;
use crate::rng::Rng;
use crate::run::*;
use serde_json::{json, Value};

#[derive(Clone, Copy, Debug)]
struct Use {
    bytes: i64,
    blocks: i64,
    files: usize,
    threads: usize,
}

fn heap(file: &str) -> Option<(i64, i64)> {
    let b = std::fs::read(file).ok()?;
    let g = |i: usize| b.get(i..i + 8).map(|s| i64::from_le_bytes(s.try_into().unwrap()));
    Some((g(0)?, g(8)?))
}

fn entries(p: String) -> usize {
    std::fs::read_dir(p).map_or(0, |d| d.count())
}

/// Waits until the server rests, then reads its counters
fn measure(c: &mut Client, file: &str) -> Res<Use> {
    let mut last = None;
    let mut same = 0;
    for _ in 0..400 {
        std::thread::sleep(std::time::Duration::from_millis(5));
        let now = heap(file);
        same = if now.is_some() && now == last { same + 1 } else { 0 };
        last = now;
        if same >= 4 {
            break;
        }
    }
    c.poll()?;
    match last {
        Some((bytes, blocks)) if bytes > 0 => Ok(Use {
            bytes,
            blocks,
            files: entries(format!("/proc/{}/fd", c.pid())),
            threads: entries(format!("/proc/{}/task", c.pid())),
        }),
        _ => Err(Stop::Broken("the heap of the server is not counted".into())),
    }
}

struct Doc {
    uri: String,
    texts: Vec<(String, Model)>,
    /// The questions asked about each text: all of them are asked once before the measurements, so
    /// that no buffer has to grow later
    pools: Vec<Vec<(&'static str, Value)>>,
    sundry: Vec<(&'static str, Value, bool)>,
    now: usize,
}

const KINDS: &[&str] = &["edit", "reopen", "query", "action", "command", "cancelled command", "other", "stranger", "sundry", "bad parameters"];

fn fresh(r: &mut Rng) -> String {
    format!("\n# {}\n", r.range(100_000_000, 999_999_999))
}

/// Asks, and resolves the first action
fn ask(c: &mut Client, q: &(&'static str, Value)) -> Res<()> {
    let a = c.request(q.0, q.1.clone())?;
    if q.0 == "textDocument/codeAction" && a["result"][0].is_object() {
        c.request("codeAction/resolve", a["result"][0].clone())?;
    }
    Ok(())
}

fn show(c: &mut Client, uri: &str, f: &str, cancelled: bool, fails: bool) -> Res<()> {
    let id = c.send("workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": [uri, f]}));
    c.wait("showing a graph", |c| c.answered(id) || !c.reqs.is_empty())?;
    if cancelled {
        let w = c.wire_id(id);
        c.notify("$/cancelRequest", json!({ "id": w }));
    }
    if let Some(q) = c.reqs.pop_front() {
        if fails {
            c.reply_err(&q["id"], -32000, "no viewer");
        } else {
            c.reply(&q["id"], json!({}));
        }
    }
    c.answer(id)?;
    Ok(())
}

fn step(c: &mut Client, r: &mut Rng, docs: &mut [Doc], kind: &str, version: &mut i64) -> Res<()> {
    let n = docs.len();
    let d = &mut docs[r.below(n)];
    match kind {
        "edit" | "reopen" => {
            d.now = r.below(d.texts.len());
            *version += 1;
            let mut t = d.texts[d.now].0.clone();
            if r.chance(1, 2) {
                // A text which was never there before
                t.push_str(&fresh(r));
            }
            if kind == "reopen" {
                c.notify("textDocument/didClose", td(&d.uri));
                c.open_doc(&d.uri, &t, *version);
            } else {
                c.change_doc(&d.uri, &t, *version);
            }
            c.diagnostics()?;
        }
        "query" => {
            for _ in 0..4 {
                let mut q = r.pick(&d.pools[d.now]).clone();
                if r.chance(1, 3) {
                    // Questions which were never asked before, with answers of known size
                    let line = r.range(100_000_000, 999_999_999);
                    if q.1["newName"].is_string() {
                        q.1["newName"] = json!(format!("q{}", line));
                    } else if q.1["position"].is_object() {
                        q.1["position"] = json!({"line": line, "character": line});
                    } else if q.0 == "textDocument/codeAction" {
                        let p = json!({"line": line, "character": line});
                        q.1["range"] = json!({"start": p, "end": p});
                    }
                }
                ask(c, &q)?;
            }
        }
        "action" => {
            let a: Vec<_> = d.pools[d.now].iter().filter(|q| q.0 == "textDocument/codeAction").collect();
            if !a.is_empty() {
                ask(c, *r.pick(&a))?;
            }
        }
        "command" | "cancelled command" => {
            let names: Vec<String> = d.texts[d.now].1.funcs().map(|f| f.name.s.clone()).collect();
            let f = if names.is_empty() { "@none".to_string() } else { r.pick(&names).clone() };
            let fails = r.chance(1, 3);
            show(c, &d.uri, &f, kind != "command", fails)?;
        }
        "other" => {
            // Documents which are never opened
            let u = format!("file:///never/{}.hir", r.below(1 << 30));
            let (m, q) = &r.pick(&d.pools[d.now]).clone();
            let mut q = q.clone();
            q["textDocument"]["uri"] = json!(u);
            c.request(m, q)?;
        }
        "stranger" => {
            // Requests which no one serves, cancellations of nothing
            let k = r.below(1 << 30);
            c.notify("$/cancelRequest", json!({ "id": k }));
            c.notify("$/unknown", json!({ "id": k }));
            c.request(&format!("unknown/request{}", k), json!({ "id": k }))?;
        }
        "sundry" => {
            let (m, p, answer) = r.pick(&d.sundry).clone();
            if m == "workspace/executeCommand" {
                return Ok(());
            }
            if answer {
                c.request(m, p)?;
            } else {
                c.notify(m, p);
            }
        }
        _ => {
            let p = (*r.pick(&[json!({}), json!([]), json!({"textDocument": 1})])).clone();
            c.request("textDocument/definition", p)?;
        }
    }
    c.notes.clear();
    Ok(())
}

/// Brings all documents back to their first texts
fn restore(c: &mut Client, docs: &mut [Doc], version: &mut i64) -> Res<()> {
    // Twice, so that whatever lags behind by one message is the same as well
    for _ in 0..2 {
        for d in docs.iter_mut() {
            d.now = 0;
            *version += 1;
            c.change_doc(&d.uri, &d.texts[0].0, *version);
            c.diagnostics()?;
            c.request("textDocument/foldingRange", td(&d.uri))?;
        }
    }
    c.notes.clear();
    Ok(())
}

pub fn c18(w: &mut W, r: &mut Rng, i: usize) -> Res<()> {
    w.end()?;
    let file = format!("{}/heap-{}", w.ctx.scratch, w.id);
    std::fs::write(&file, [0u8; 4096]).map_err(|e| Stop::Broken(e.to_string()))?;
    let lib = format!("{}/.build/heap.so", w.ctx.root);
    if !crate::client::exists(&lib) {
        return Err(Stop::Broken(format!("{} is missing", lib)));
    }
    let lazy = r.chance(1, 2);
    w.opts.init = init_caps(if lazy { lazy_caps(Some(vec!["edit"]), Some(true)) } else { json!({}) });
    w.opts.env = vec![("LD_PRELOAD".into(), lib), ("HIRMON_HEAP".into(), file.clone())];
    let small = r.chance(1, 2);
    let mut docs = vec![];
    for k in 0..r.range(1, 3) {
        let mut texts = vec![];
        for _ in 0..r.range(2, 6) {
            let t = match r.below(4) {
                0 => gen::hostile(r),
                1 => crate::bt::bt_module(r, &mut crate::bt::annotation),
                _ => {
                    let cfg = Cfg::random(r);
                    gen::module(r, cfg).text(r)
                }
            };
            // Small messages make small leaks visible
            if small && t.len() > 1500 && !texts.is_empty() {
                continue;
            }
            let t = if small && t.len() > 1500 { "define void @f1() {\nb_1:\n  br b_1 !1\n}\n".to_string() } else { t };
            let m = analyse(&t);
            texts.push((t, m));
        }
        let uri = format!("file:///w/{}.hir", k);
        let mut pools = vec![];
        for (_, m) in &texts {
            let mut v = vec![];
            for _ in 0..30 {
                let q = proto::query(r, &uri, m);
                if !small || q.1.to_string().len() < 300 {
                    v.push(q);
                }
            }
            for _ in 0..10 {
                let p = proto::position(r, m);
                let mut q = td(&uri);
                q["range"] = json!({"start": jpos(p), "end": jpos(p)});
                q["context"] = json!({"diagnostics": []});
                v.push(("textDocument/codeAction", q));
            }
            pools.push(v);
        }
        let sundry = (0..12).map(|_| proto::sundry(r, &uri)).collect();
        docs.push(Doc { uri, texts, pools, sundry, now: 0 });
    }
    let mut kinds: Vec<&str> = vec![];
    kinds.push(KINDS[i % KINDS.len()]);
    for _ in 0..r.below(4) {
        kinds.push(*r.pick(KINDS));
    }
    let ops = r.range(150, 400);
    let mut version = 0;
    let c = w.c()?;
    for d in &docs {
        version += 1;
        c.open_doc(&d.uri, &d.texts[0].0, version);
        c.diagnostics()?;
    }
    // Warm up: all texts, all kinds of messages
    for k in 0..docs.len() {
        for n in 0..docs[k].texts.len() {
            version += 1;
            let (u, t) = (docs[k].uri.clone(), docs[k].texts[n].0.clone());
            c.change_doc(&u, &t, version);
            c.diagnostics()?;
            for q in &docs[k].pools[n] {
                ask(c, q)?;
                if q.1["newName"].is_string() {
                    let mut q = q.clone();
                    q.1["newName"] = json!("q100000000");
                    ask(c, &q)?;
                }
            }
            version += 1;
            c.change_doc(&u, &(t + &fresh(r)), version);
            c.diagnostics()?;
            let names: Vec<String> = docs[k].texts[n].1.funcs().map(|f| f.name.s.clone()).collect();
            for f in names {
                show(c, &u, &f, false, false)?;
            }
        }
    }
    c.notes.clear();
    let begin = std::time::Instant::now();
    let mut seen: Vec<Use> = vec![];
    let mut sent = 0;
    // Growth which ends is none: what has grown in every stretch gets some more to settle
    let (mut phases, mut phase) = (4, 0);
    let mut w_slow = false;
    while phase < phases {
        let before = c.log_bytes;
        for _ in 0..if phase == 0 { 100 } else { ops } {
            let kind = if phase == 0 { *r.pick(KINDS) } else { *r.pick(&kinds) };
            step(c, r, &mut docs, kind, &mut version)?;
        }
        restore(c, &mut docs, &mut version)?;
        seen.push(measure(c, &file)?);
        if phase > 0 {
            sent += c.log_bytes - before;
        }
        c.log.clear();
        phase += 1;
        if phase == 4 && phases == 4 && (!growing(&seen, sent, c.largest()).is_empty() || seen[3].bytes - seen[1].bytes >= 900) {
            phases = 12;
        }
        // One block which doubles now and then: look whether it goes on
        if phase == 12 && phases == 12 && growing(&seen, sent, c.largest()).is_empty() && seen[11].bytes - seen[5].bytes >= 2000 {
            phases = 51;
        }
        if phases == 51 && (begin.elapsed().as_secs() > 60 || phase == 25 && seen[24].bytes - seen[11].bytes < 2000) {
            w_slow = phase < 25;
            break;
        }
    }
    let mut grown = growing(&seen, sent, c.largest());
    if seen.len() == 51 && [(5, 11), (11, 24), (24, 50)].iter().all(|(a, b)| seen[*b].bytes - seen[*a].bytes >= 2000) && seen[50].bytes - seen[5].bytes >= 12000 + 8 * c.largest() as i64 {
        grown.push("memory in ever larger blocks");
    }
    if !grown.is_empty() {
        return bad(
            format!("the server accumulates {} in a session which returns to its first texts", grown.join(", ")),
            json!({"messages": kinds, "messages_per_stretch": ops, "bytes_sent": sent,
                   "measured": seen.iter().map(|u| json!({"bytes": u.bytes, "blocks": u.blocks, "files": u.files, "threads": u.threads})).collect::<Vec<_>>()}),
        );
    }
    if std::env::var("HIRMON_HEAP_SHOW").is_ok() {
        eprintln!("{} {:?} ops {} sent {} {:?}", i, kinds, ops, sent, seen);
    }
    let _ = std::fs::remove_file(&file);
    w.see("messages_between_measurements", 3 * ops as u64);
    w.see("measurements", seen.len() as u64);
    w.see("extended_sessions", (seen.len() > 4) as u64);
    w.see("long_sessions", (seen.len() > 12) as u64);
    w.see("long_sessions_cut", w_slow as u64);
    w.see("bytes_sent_between_measurements", sent as u64);
    let key = format!("{:?} {}", kinds, docs.iter().flat_map(|d| &d.texts).map(|t| t.0.as_str()).collect::<String>());
    let last = *seen.last().unwrap();
    w.nontrivial(&key, || json!({"messages": kinds, "messages_per_stretch": ops, "live_bytes": last.bytes, "live_blocks": last.blocks}));
    w.end()?;
    w.opts.env = vec![];
    Ok(())
}

/// What has grown in every stretch
fn growing(seen: &[Use], sent: usize, largest: usize) -> Vec<&'static str> {
    let every = |f: &dyn Fn(&Use, &Use) -> bool| seen.windows(2).skip(1).all(|p| f(&p[0], &p[1]));
    let mut out = vec![];
    if every(&|a, b| b.blocks - a.blocks >= 4 + 12 * b.threads.saturating_sub(a.threads) as i64) {
        out.push("blocks of memory");
    }
    let (first, last) = (seen[1], seen[seen.len() - 1]);
    if last.bytes - first.bytes > 400_000 + 8 * largest as i64 && last.bytes - first.bytes > sent as i64 / 8 {
        out.push("memory");
    }
    if every(&|a, b| b.files > a.files) {
        out.push("open files");
    }
    if every(&|a, b| b.threads > a.threads + 3) {
        out.push("threads");
    }
    out
}
