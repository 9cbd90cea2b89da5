//! Runs the cases of a check on parallel workers and collects what the monitors observed.

use crate::client::{Client, Counters, Opts, Res, Stop};
use crate::rng::{hash_str, mix, Rng};
use crate::text::{Pos, Rng2, Text};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Ctx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub server: String,
    pub root: String,
    /// Scratch directory of this run
    pub scratch: String,
    pub repo: String,
}

/// State of one worker
pub struct W {
    pub ctx: Ctx,
    pub id: usize,
    pub opts: Opts,
    client: Option<Client>,
    pub count: Counters,
    pub distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub uris: usize,
    pub version: i64,
    pub known: Vec<String>,
}

#[derive(Clone)]
pub struct Violation {
    pub index: usize,
    pub what: String,
    pub detail: Value,
    pub log: Vec<Value>,
    pub init: Value,
}

impl W {
    pub fn new(ctx: &Ctx, id: usize) -> W {
        W {
            ctx: ctx.clone(),
            id,
            opts: Opts::new(&ctx.server),
            client: None,
            count: Counters::default(),
            distinct: HashSet::new(),
            samples: vec![],
            uris: 0,
            version: 0,
            known: vec![],
        }
    }

    /// Ends a session which has grown old
    fn renew(&mut self) -> Res<()> {
        match &self.client {
            Some(c) if c.log_bytes > 2_000_000 => self.end(),
            _ => Ok(()),
        }
    }

    /// The current session
    pub fn c(&mut self) -> Res<&mut Client> {
        if self.client.is_none() {
            self.client = Some(Client::start(&self.opts)?);
            self.count.add("server_sessions", 1);
        }
        Ok(self.client.as_mut().unwrap())
    }

    /// Ends the session in an orderly way
    pub fn end(&mut self) -> Res<()> {
        if let Some(c) = self.client.take() {
            let n = c.finish()?;
            self.count.merge(&n);
        }
        Ok(())
    }

    /// Changes how further sessions are started
    pub fn session(&mut self, init: Value) -> Res<()> {
        if self.opts.init != init {
            self.end()?;
            self.opts.init = init;
        }
        Ok(())
    }

    pub fn abandon(&mut self) -> Vec<Value> {
        match self.client.take() {
            Some(c) => {
                self.count.merge(&c.count);
                c.log.clone()
            }
            None => vec![],
        }
    }

    /// Loads a text into the server, sometimes as a new document, sometimes as a new version of
    /// an old one. Returns its URI and diagnostics.
    pub fn load(&mut self, r: &mut Rng, text: &str) -> Res<(String, Vec<Value>)> {
        let n = r.below(4);
        let uri = format!(
            "file:///w{}/{}",
            self.id,
            *r.pick(&["a.hir", "b%20c.hir", "%C3%A9.hir", "d.hir", "a.hir#x", "a.hir?x=%25", "D.HIR", "e"])
        );
        self.version += 1;
        let v = self.version;
        let c = self.c()?;
        if n == 0 {
            c.open_doc(&uri, text, v);
        } else {
            if c.opened.contains(&uri) {
                c.change_doc(&uri, text, v);
            } else {
                c.open_doc(&uri, text, v);
            }
        }
        let d = c.diagnostics()?;
        if d["uri"] != uri || d["version"] != v {
            return crate::client::bad(
                "diagnostics for another document or version",
                json!({"uri": uri, "version": v, "got": d}),
            );
        }
        self.count.add("documents_analysed", 1);
        Ok((uri, d["diagnostics"].as_array().cloned().unwrap_or_default()))
    }

    pub fn see(&mut self, what: &str, n: u64) {
        self.count.add(what, n);
    }

    /// Registers a distinct, non-trivial case
    pub fn nontrivial(&mut self, key: &str, sample: impl FnOnce() -> Value) {
        if self.distinct.insert(hash_str(key)) && self.samples.len() < 2 {
            self.samples.push(sample());
        }
    }
}

pub type CaseFn = fn(&mut W, &mut Rng, usize) -> Res<()>;

pub struct Plan {
    pub case: CaseFn,
    pub workers: usize,
    pub cases: usize,
    pub limit: Duration,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
}

pub struct Outcome {
    pub evaluations: usize,
    pub distinct: usize,
    pub count: Counters,
    pub samples: Vec<Value>,
    pub violations: Vec<Violation>,
    pub broken: Option<String>,
    pub known: Vec<String>,
}

pub fn case_rng(seed: u64, prop: &str, index: usize) -> Rng {
    Rng::new(mix(seed ^ hash_str(prop)).wrapping_add(index as u64))
}

pub fn run(ctx: &Ctx, plan: &Plan, only: Option<usize>) -> Outcome {
    let next = AtomicUsize::new(only.unwrap_or(0));
    let last = only.map_or(plan.cases, |i| i + 1);
    let stop = AtomicBool::new(false);
    let start = Instant::now();
    let out = Mutex::new(Outcome {
        evaluations: 0,
        distinct: 0,
        count: Counters::default(),
        samples: vec![],
        violations: vec![],
        broken: None,
        known: vec![],
    });
    let distinct = Mutex::new(HashSet::new());
    let workers = if only.is_some() { 1 } else { plan.workers };
    std::thread::scope(|s| {
        for id in 0..workers {
            let (next, stop, out, distinct) = (&next, &stop, &out, &distinct);
            s.spawn(move || {
                let mut w = W::new(ctx, id);
                let mut evals = 0;
                let mut broken = 0;
                let mut fail = |w: &mut W, e: Stop, index: usize| {
                    let log = w.abandon();
                    let mut o = out.lock().unwrap();
                    match e {
                        Stop::Bad(b) => {
                            if o.violations.len() < 5 {
                                o.violations.push(Violation {
                                    index,
                                    what: b.what,
                                    detail: b.detail,
                                    log,
                                    init: w.opts.init.clone(),
                                });
                            }
                            if o.violations.len() >= 3 {
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                        Stop::Broken(m) => {
                            // Keep looking for a while: a violation weighs more than no verdict
                            o.broken.get_or_insert(m);
                            broken += 1;
                            if broken > 20 {
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                };
                let mut index = 0;
                while !stop.load(Ordering::SeqCst) && start.elapsed() < plan.limit {
                    index = next.fetch_add(1, Ordering::SeqCst);
                    if index >= last {
                        break;
                    }
                    let mut r = case_rng(ctx.seed, &ctx.prop, index);
                    evals += 1;
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        w.renew()?;
                        (plan.case)(&mut w, &mut r, index)
                    }));
                    match res {
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => fail(&mut w, e, index),
                        Err(_) => {
                            let m = format!("the monitor panicked in case {}", index);
                            fail(&mut w, Stop::Broken(m), index)
                        }
                    }
                }
                if let Err(e) = w.end() {
                    fail(&mut w, e, index);
                }
                let mut o = out.lock().unwrap();
                o.evaluations += evals;
                o.count.merge(&w.count);
                if o.samples.len() < 4 {
                    o.samples.extend(w.samples.drain(..));
                }
                o.known.extend(w.known.drain(..));
                distinct.lock().unwrap().extend(w.distinct.drain());
            });
        }
    });
    let mut o = out.into_inner().unwrap();
    o.distinct = distinct.into_inner().unwrap().len();
    o.violations.sort_by_key(|v| v.index);
    o
}

// ---- JSON helpers ----

pub fn jpos(p: Pos) -> Value {
    json!({"line": p.line, "character": p.col})
}
pub fn jrange(r: Rng2) -> Value {
    json!({"start": jpos(r.start), "end": jpos(r.end)})
}
pub fn pos_of(v: &Value) -> Option<Pos> {
    Some(Pos {
        line: v["line"].as_u64()?.try_into().ok()?,
        col: v["character"].as_u64()?.try_into().ok()?,
    })
}
pub fn range_of(v: &Value) -> Option<Rng2> {
    Some(Rng2 { start: pos_of(&v["start"])?, end: pos_of(&v["end"])? })
}
pub fn td(uri: &str) -> Value {
    json!({"textDocument": {"uri": uri}})
}
pub fn tdp(uri: &str, p: Pos) -> Value {
    json!({"textDocument": {"uri": uri}, "position": jpos(p)})
}

/// Applies edits; None if a range is invalid or two edits overlap
pub fn apply_edits(t: &Text, edits: &[(Rng2, String)]) -> Option<String> {
    let mut v = vec![];
    for (r, s) in edits {
        v.push((t.exact(r.start)?, t.exact(r.end)?, s));
    }
    v.sort();
    let mut out = String::new();
    let mut at = 0;
    for (a, b, s) in v {
        if a < at || b < a {
            return None;
        }
        out.extend(&t.chars[at..a]);
        out.push_str(s);
        at = b;
    }
    out.extend(&t.chars[at..]);
    Some(out)
}
