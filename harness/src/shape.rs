//! Monitors for diagnostics, error recovery, semantic tokens, structure and control flow
//! (C06, C07, C09, C10, C11).

use crate::client::{bad, Res};
use crate::gen::{self, Cfg};
use crate::lex::T;
use crate::model::{analyse, Func, Model};
use crate::nav::locations;
use crate::rng::Rng;
use crate::run::*;
use crate::text::{Pos, Rng2, Span, Text};
use serde_json::{json, Value};
use std::collections::BTreeSet;

pub fn result(r: &Value, method: &str) -> Res<Value> {
    match r.get("result") {
        Some(v) => Ok(v.clone()),
        None => bad(format!("{} was refused", method), r.clone()),
    }
}

// ---------------------------------------------------------------- diagnostics

/// 'u'ndefined, 'd'uplicate, 'b'ranch targets, 's'yntax
pub fn diag_kind(d: &Value) -> char {
    let m = d["message"].as_str().unwrap_or("").to_lowercase();
    if m.contains("undefined symbol") {
        'u'
    } else if m.contains("already defined") {
        'd'
    } else if m.contains("basic block") {
        'b'
    } else {
        's'
    }
}

type SemDiag = (char, Rng2, String, Option<Rng2>);

/// The semantic diagnostics among `diags`; None if one is malformed
fn semantic(diags: &[Value], uri: &str) -> Option<Vec<SemDiag>> {
    let mut v = vec![];
    for d in diags {
        let k = diag_kind(d);
        if k == 's' {
            continue;
        }
        let name = d["message"].as_str()?.split('`').nth(1)?.to_string();
        let rel = match d["relatedInformation"].as_array() {
            Some(a) => {
                let l = &a.first()?["location"];
                if l["uri"] != uri || a.len() != 1 {
                    return None;
                }
                Some(range_of(&l["range"])?)
            }
            None => None,
        };
        v.push((k, range_of(&d["range"])?, name, rel));
    }
    v.sort();
    Some(v)
}

pub fn check_semantic(w: &mut W, m: &Model, uri: &str, diags: &[Value], text: &str) -> Res<()> {
    check_semantic_outside(w, m, uri, diags, text, &[])
}

/// As above, but nothing is expected of the diagnostics inside of the holes
fn check_semantic_outside(w: &mut W, m: &Model, uri: &str, diags: &[Value], text: &str, holes: &[Span]) -> Res<()> {
    let inside = |x: Rng2| {
        holes.iter().any(|h| {
            let h = m.text.range(*h);
            x.start >= h.start && x.end <= h.end
        })
    };
    let mut want: Vec<SemDiag> = m
        .semantic_diags()
        .into_iter()
        .map(|(k, s, n, f)| (k, m.text.range(s), n, f.map(|f| m.text.range(f))))
        .collect();
    want.retain(|x| !inside(x.1));
    want.sort();
    let mut got = semantic(diags, uri);
    if let Some(got) = got.as_mut() {
        got.retain(|x| !inside(x.1));
    }
    if got.as_ref() != Some(&want) {
        return bad(
            "the semantic diagnostics are not exact",
            json!({"text": text, "diagnostics": diags,
                   "expected": want.iter().map(|x| json!([x.0.to_string(), jrange(x.1), x.2, x.3.map(jrange)])).collect::<Vec<_>>()}),
        );
    }
    for x in &want {
        w.see(
            match x.0 {
                'u' => "undefined_use_diagnostics",
                'd' => "duplicate_definition_diagnostics",
                _ => "branch_target_diagnostics",
            },
            1,
        );
    }
    Ok(())
}

pub fn c06(w: &mut W, r: &mut Rng, i: usize) -> Res<()> {
    let files: &[&str] = if w.ctx.thorough {
        &["fcf.hir", "relation.hir", "insert.hir", "query.hir"]
    } else {
        &["fcf.hir", "relation.hir", "insert.hir"]
    };
    let text = if i < files.len() {
        let p = format!("{}/examples/{}", w.ctx.repo, files[i]);
        match std::fs::read_to_string(p) {
            Ok(t) => t,
            Err(_) => return Ok(()),
        }
    } else {
        let mut c = if r.chance(1, 3) { Cfg::clean(r) } else { Cfg::random(r) };
        if r.chance(1, 2) {
            c.funcs = c.funcs.max(1);
            c.blocks = c.blocks.max(2);
            c.instrs = c.instrs.max(2);
        }
        let t = gen::module(r, c).text(r);
        gen::far(r, t, 800)
    };
    let m = analyse(&text);
    if !m.valid || m.collision {
        w.see("skipped_invalid_or_collision", 1);
        return Ok(());
    }
    let (uri, diags) = w.load(r, &text)?;
    if let Some(d) = diags.iter().find(|d| diag_kind(d) == 's') {
        return bad(
            "an unexpected diagnostic for a syntactically valid module",
            json!({"text": text, "diagnostic": d}),
        );
    }
    check_semantic(w, &m, &uri, &diags, &text)?;
    if diags.is_empty() {
        w.see("modules_without_diagnostics", 1);
    }
    if m.syms.len() >= 3 {
        w.nontrivial(&text, || json!({"text": clip(&text), "diagnostics": diags.len()}));
    }
    Ok(())
}

pub fn clip(s: &str) -> String {
    s.chars().take(1500).collect()
}

// ---------------------------------------------------------------- semantic tokens

fn class(t: T) -> Option<&'static str> {
    Some(match t {
        T::Comment => "comment",
        T::Num | T::Hex => "number",
        T::Str => "string",
        T::Local | T::Global => "variable",
        T::Type => "type",
        T::Declare | T::Define => "keyword",
        T::Modifier => "modifier",
        T::Ident | T::Dbg | T::Punct | T::Newline => return None,
    })
}

/// Splits a span at the line breaks of the text
fn split_lines(t: &Text, s: Span) -> Vec<Span> {
    let mut v = vec![];
    let mut a = s.0;
    while a < s.1 {
        let line = t.line_of(a);
        let e = t.ends[line].min(s.1);
        if a < e {
            v.push((a, e));
        }
        if line + 1 >= t.lines.len() {
            break;
        }
        a = t.lines[line + 1];
    }
    v
}

pub fn check_tokens(w: &mut W, r: Value, m: &Model, text: &str) -> Res<()> {
    let legend: Vec<String> = w.c()?.server_info["capabilities"]["semanticTokensProvider"]["legend"]
        ["tokenTypes"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|x| x.as_str().unwrap_or("").to_string())
        .collect();
    check_tokens_legend(w, &legend, r, m, text)
}

pub fn check_tokens_legend(w: &mut W, legend: &[String], r: Value, m: &Model, text: &str) -> Res<()> {
    let mut want: Vec<(u64, u64, u64, String)> = vec![];
    for t in &m.toks {
        if let Some(c) = class(t.t) {
            for s in split_lines(&m.text, t.span) {
                let p = m.text.range(s);
                want.push((
                    p.start.line.into(),
                    p.start.col.into(),
                    (p.end.col - p.start.col).into(),
                    c.to_string(),
                ));
            }
        }
    }
    let mut got = vec![];
    let (mut line, mut col) = (0u64, 0u64);
    let data = match r["data"].as_array() {
        Some(d) if d.len() % 5 == 0 => d.clone(),
        _ => return bad("malformed semantic tokens", json!({"text": text, "answer": r})),
    };
    for q in data.chunks(5) {
        let n: Vec<u64> = q.iter().map(|x| x.as_u64().unwrap_or(1 << 40)).collect();
        if n[0] > 0 {
            line += n[0];
            col = n[1];
        } else {
            col += n[1];
        }
        let ty = legend.get(n[3] as usize).cloned().unwrap_or_else(|| format!("#{}", n[3]));
        if n[4] != 0 {
            return bad("a token has an unadvertised modifier", json!({"text": text, "token": q}));
        }
        got.push((line, col, n[2], ty));
    }
    if got != want {
        let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return bad(
            "the semantic tokens are not exact",
            json!({"text": text, "first_difference": k, "got": got.get(k).map(|x| json!(x)),
                   "expected": want.get(k).map(|x| json!(x)), "got_len": got.len(), "expected_len": want.len()}),
        );
    }
    for g in &got {
        w.see(&format!("tokens_{}", g.3), 1);
    }
    Ok(())
}

pub fn c09(w: &mut W, r: &mut Rng, i: usize) -> Res<()> {
    let files = ["fcf.hir", "relation.hir"];
    let text = if i < files.len() {
        std::fs::read_to_string(format!("{}/examples/{}", w.ctx.repo, files[i])).unwrap_or_default()
    } else {
        match r.below(5) {
            0 | 1 => gen::hostile(r),
            2 if r.chance(1, 500) => {
                // Very many tokens
                let n = r.range(1500, 4000);
                (0..n).map(|k| format!("declare pure int32 @f{}(ptr %a, int8 %é) = 0x5 !1 # {}\n", k, k % 7)).collect()
            }
            2 => lexical(r),
            _ => {
                let t = gen::doc(r);
                gen::far(r, t, 800)
            }
        }
    };
    let m = analyse(&text);
    let (uri, _) = w.load(r, &text)?;
    let a = w.c()?.ok("textDocument/semanticTokens/full", td(&uri))?;
    check_tokens(w, a, &m, &text)?;
    let kinds: BTreeSet<T> = m.toks.iter().map(|t| t.t).collect();
    w.see("unrecognised_characters", m.bad.len() as u64);
    if kinds.len() >= 4 {
        w.nontrivial(&text, || json!({"text": clip(&text), "tokens": m.toks.len()}));
    }
    Ok(())
}

/// Dense lexical corner cases
fn lexical(r: &mut Rng) -> String {
    let parts = [
        "0", "00", "007", "0x", "0x0", "0x01", "0xg", "0xfG", "0XAB", "12", "12a", "1.5", "1:2", "a:", "a::",
        "a:b", ":a", "::", "%", "%:", "%:a", "%a:", "@", "@@", "@a@b", "!!", "!a!b", "%%a", "\"\"", "\"a\"\"b\"", "\"",
        "#", "##\n", "\"#\"", "#\"\n", "#\"\"", "\"\n\"", "\"\r\n\"", "\"\r\"", "\"a\n\nb\"", "#a\rb\n", "\r", "\r\r\n", "\n",
        "\r\n", "declare", "define", "declared", "defin", "Define", "exported", "async", "memberfunc", "noreturn",
        "nosideeffects", "pure", "puree", "void", "int1", "int8", "int16", "int32", "int64", "int128", "float32",
        "float64", "data128", "ptr", "ptr2", "int32:", "int32::x", "int32x", "_", "_1", "é", "日本", "𝒳", "a\u{301}b", "²",
        "a²", "٣", "a٣", "😀", "a😀b", "-", "->", "<=", ";", "*", ".", "..", "\u{a0}", "\t", " ", "  ", "\u{feff}",
        "[", "]", "{", "}", "(", ")", "<", ">", "=", ",",
    ];
    let mut s = String::new();
    for _ in 0..r.range(1, 60) {
        s.push_str(*r.pick(&parts));
        if r.chance(1, 3) {
            s.push_str(*r.pick(&[" ", "\t", "\n"]));
        }
    }
    s
}

// ---------------------------------------------------------------- structure

pub fn check_outline(w: &mut W, a: &Value, m: &Model, text: &str) -> Res<()> {
    let mut want: Vec<(String, u64, Rng2, Rng2)> = vec![];
    for (s, _) in &m.stmts {
        match s {
            crate::model::Stmt::GVar { name } => {
                let x = m.text.range(name.span);
                want.push((name.s.clone(), 14, x, x));
            }
            crate::model::Stmt::Def(f) => want.push((
                f.name.s.clone(),
                12,
                m.text.range(f.span),
                m.text.range(f.name.span),
            )),
            _ => {}
        }
    }
    want.sort();
    let got: Option<Vec<_>> = a
        .as_array()
        .into_iter()
        .flatten()
        .map(|s| {
            Some((
                s["name"].as_str()?.to_string(),
                s["kind"].as_u64()?,
                range_of(&s["range"])?,
                range_of(&s["selectionRange"])?,
            ))
        })
        .collect();
    let got = got.map(|mut g| {
        g.sort();
        g
    });
    if got.as_ref() != Some(&want) {
        return bad(
            "the outline is not exact",
            json!({"text": text, "answer": a, "expected":
                want.iter().map(|x| json!([x.0, x.1, jrange(x.2), jrange(x.3)])).collect::<Vec<_>>()}),
        );
    }
    w.see("outline_entries", want.len() as u64);
    Ok(())
}

pub fn check_folds(w: &mut W, a: &Value, m: &Model, text: &str) -> Res<()> {
    let mut want: Vec<(u64, u64, String, u64)> = vec![];
    let lines = |s: Span| (m.text.pos(s.0).line as u64, m.text.pos(s.1).line as u64);
    for f in m.funcs() {
        let (x, y) = lines(f.span);
        want.push((x, y, "block".into(), f.blocks.len() as u64));
        for b in &f.blocks {
            let (x, y) = lines(b.span);
            want.push((x, y, "instruction".into(), b.instrs.len() as u64));
        }
    }
    want.sort();
    let got: Option<Vec<_>> = a
        .as_array()
        .into_iter()
        .flatten()
        .map(|s| {
            let t = s["collapsedText"].as_str()?;
            let n: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
            let k = if t.contains("block") { "block" } else { "instruction" };
            if !t.contains(k) {
                return None;
            }
            Some((s["startLine"].as_u64()?, s["endLine"].as_u64()?, k.to_string(), n.parse().ok()?))
        })
        .collect();
    let got = got.map(|mut g| {
        g.sort();
        g
    });
    if got.as_ref() != Some(&want) {
        return bad("the folds are not exact", json!({"text": text, "answer": a, "expected": want}));
    }
    w.see("folds", want.len() as u64);
    Ok(())
}

/// Parts with a link: (value, range)
fn linked(h: &Value, uri: &str) -> Option<Vec<(String, Rng2)>> {
    let mut v = vec![];
    for p in h["label"].as_array()? {
        if let Some(l) = p.get("location").filter(|l| !l.is_null()) {
            if l["uri"] != uri {
                return None;
            }
            v.push((p["value"].as_str()?.to_string(), range_of(&l["range"])?));
        }
    }
    Some(v)
}

pub fn hints_request(m: &Model, uri: &str) -> Value {
    let mut q = td(uri);
    q["range"] =
        jrange(Rng2 { start: Pos { line: 0, col: 0 }, end: m.text.pos(m.text.len()) });
    q
}

fn hints_at<'a>(a: &'a Value, p: Pos) -> Vec<&'a Value> {
    a.as_array().into_iter().flatten().filter(|h| pos_of(&h["position"]) == Some(p)).collect()
}

pub fn check_end_hints(w: &mut W, a: &Value, m: &Model, uri: &str, text: &str) -> Res<()> {
    for f in m.funcs() {
        let p = m.text.pos(f.span.1);
        let hs = hints_at(a, p);
        let want = vec![(f.name.s.clone(), m.text.range(f.name.span))];
        if hs.len() != 1 || linked(hs[0], uri).as_ref() != Some(&want) {
            return bad(
                "not exactly one correct hint after a function body",
                json!({"text": text, "function": f.name.s, "position": jpos(p), "hints": hs}),
            );
        }
        w.see("end_of_function_hints", 1);
    }
    // No hints elsewhere
    let mut places: BTreeSet<Pos> = BTreeSet::new();
    for f in m.funcs() {
        places.insert(m.text.pos(f.span.1));
        for b in &f.blocks {
            if let Some(c) = b.colon {
                places.insert(m.text.pos(c.1));
            }
            for x in &b.instrs {
                if let Some(d) = &x.dbg {
                    places.insert(m.text.pos(d.span.1));
                }
            }
        }
    }
    for h in a.as_array().into_iter().flatten() {
        if !pos_of(&h["position"]).map_or(false, |p| places.contains(&p)) {
            return bad("a hint at an unexpected place", json!({"text": text, "hint": h}));
        }
    }
    Ok(())
}

pub fn check_incoming(w: &mut W, a: &Value, m: &Model, uri: &str, text: &str) -> Res<()> {
    for f in m.funcs() {
        for b in &f.blocks {
            let (label, colon) = match (&b.label, &b.colon) {
                (Some(l), Some(c)) => (l, c),
                _ => continue,
            };
            let mut want = vec![];
            for s in &f.blocks {
                if let Some(sl) = &s.label {
                    let edge = s.instrs.iter().any(|x| {
                        x.branching() && x.refs.iter().any(|t| t.s == label.s)
                    });
                    if edge {
                        want.push((sl.s.clone(), m.text.range(sl.span)));
                    }
                }
            }
            let hs = hints_at(a, m.text.pos(colon.1));
            let fine = if want.is_empty() {
                hs.is_empty()
            } else {
                hs.len() == 1 && linked(hs[0], uri).as_ref() == Some(&want)
            };
            if !fine {
                return bad(
                    "the incoming edges of a block are not exact",
                    json!({"text": text, "function": f.name.s, "block": label.s, "hints": hs,
                           "expected": want.iter().map(|x| json!([x.0, jrange(x.1)])).collect::<Vec<_>>()}),
                );
            }
            w.see("incoming_edges", want.len() as u64);
            w.see(if want.is_empty() { "blocks_without_incoming" } else { "blocks_with_incoming" }, 1);
        }
    }
    Ok(())
}

pub fn check_lenses(w: &mut W, a: &Value, m: &Model, uri: &str, text: &str) -> Res<()> {
    let mut want: Vec<(Rng2, String)> = vec![];
    for (k, s) in &m.syms {
        if k.kind == crate::model::Kind::Function && s.defs.len() == 1 {
            want.push((m.text.range(s.defs[0]), k.name.clone()));
        }
    }
    want.sort();
    let got: Option<Vec<(Rng2, String)>> = a
        .as_array()
        .into_iter()
        .flatten()
        .map(|l| {
            let c = &l["command"];
            let args = c["arguments"].as_array()?;
            if c["command"] != "visualize-cfg" || args.len() != 2 || args[0] != uri {
                return None;
            }
            Some((range_of(&l["range"])?, args[1].as_str()?.to_string()))
        })
        .collect();
    let got = got.map(|mut g| {
        g.sort();
        g
    });
    if got.as_ref() != Some(&want) {
        return bad(
            "the lenses are not exact",
            json!({"text": text, "answer": a, "expected":
                want.iter().map(|x| json!([jrange(x.0), x.1])).collect::<Vec<_>>()}),
        );
    }
    w.see("lenses", want.len() as u64);
    Ok(())
}

pub fn c10(w: &mut W, r: &mut Rng, i: usize) -> Res<()> {
    let files = ["fcf.hir", "relation.hir"];
    let text = if i < files.len() {
        std::fs::read_to_string(format!("{}/examples/{}", w.ctx.repo, files[i])).unwrap_or_default()
    } else {
        let t = gen::doc(r);
        gen::far(r, t, 600)
    };
    let m = analyse(&text);
    if !m.valid {
        w.see("skipped_invalid", 1);
        return Ok(());
    }
    let (uri, _) = w.load(r, &text)?;
    structure(w, &m, &uri, &text)?;
    if m.funcs().next().is_some() {
        w.nontrivial(&text, || json!({"text": clip(&text), "functions": m.funcs().count()}));
    }
    Ok(())
}

fn structure(w: &mut W, m: &Model, uri: &str, text: &str) -> Res<()> {
    let reqs = vec![
        ("textDocument/documentSymbol", td(uri)),
        ("textDocument/foldingRange", td(uri)),
        ("textDocument/inlayHint", hints_request(m, uri)),
        ("textDocument/codeLens", td(uri)),
    ];
    let ans = w.c()?.batch(reqs.clone())?;
    let mut v = vec![];
    for (a, q) in ans.iter().zip(&reqs) {
        v.push(result(a, q.0)?);
    }
    check_outline(w, &v[0], m, text)?;
    check_folds(w, &v[1], m, text)?;
    check_end_hints(w, &v[2], m, uri, text)?;
    check_lenses(w, &v[3], m, uri, text)
}

// ---------------------------------------------------------------- control flow

/// The edges of a DOT graph; None if there is something we do not understand
pub fn dot_edges(dot: &str) -> Option<BTreeSet<(String, String)>> {
    let body: String = dot
        .lines()
        .filter(|l| !l.trim_start().starts_with("//"))
        .collect::<Vec<_>>()
        .join("\n");
    let open = body.find('{')?;
    let close = body.rfind('}')?;
    if !body[..open].contains("digraph") {
        return None;
    }
    let cs: Vec<char> = body[open + 1..close].chars().collect();
    // Tokens: quoted or bare identifiers, "->", ";", "[...]"
    let mut toks: Vec<String> = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c == '"' {
            let mut s = String::from("\"");
            i += 1;
            while i < cs.len() && cs[i] != '"' {
                s.push(cs[i]);
                i += 1;
            }
            if i >= cs.len() {
                return None;
            }
            i += 1;
            toks.push(s);
        } else if c == '-' && cs.get(i + 1) == Some(&'>') {
            toks.push("->".into());
            i += 2;
        } else if c == '[' {
            while i < cs.len() && cs[i] != ']' {
                i += 1;
            }
            i += 1;
            toks.push(";".into());
        } else if c == ';' || c == '\n' {
            toks.push(";".into());
            i += 1;
        } else if c.is_whitespace() {
            i += 1;
        } else {
            let mut s = String::from("\"");
            // A bare name; a colon would start the port of a node
            while i < cs.len() && (cs[i].is_ascii_alphanumeric() || cs[i] == '_' || cs[i] >= '\u{80}') {
                s.push(cs[i]);
                i += 1;
            }
            if s.len() == 1 {
                return None;
            }
            let bare = &s[1..];
            if bare.starts_with(|c: char| c.is_ascii_digit()) && !bare.bytes().all(|c| c.is_ascii_digit()) {
                return None;
            }
            if ["node", "edge", "graph", "digraph", "subgraph", "strict"].contains(&bare.to_ascii_lowercase().as_str()) {
                // Keywords name no blocks
                s = format!("keyword {}", bare);
            }
            toks.push(s);
        }
    }
    let mut e = BTreeSet::new();
    for k in 0..toks.len() {
        if toks[k] == "->" {
            let a = toks.get(k.checked_sub(1)?)?.strip_prefix('"')?;
            let b = toks.get(k + 1)?.strip_prefix('"')?;
            e.insert((a.to_string(), b.to_string()));
        }
    }
    Some(e)
}

pub fn model_edges(f: &Func) -> BTreeSet<(String, String)> {
    let mut e = BTreeSet::new();
    for b in &f.blocks {
        if let Some(l) = &b.label {
            for x in b.instrs.iter().filter(|x| x.branching()) {
                for t in &x.refs {
                    e.insert((l.s.clone(), t.s.clone()));
                }
            }
        }
    }
    e
}

pub fn c11(w: &mut W, r: &mut Rng, i: usize) -> Res<()> {
    let files = ["fcf.hir", "relation.hir"];
    let text = if i < files.len() {
        std::fs::read_to_string(format!("{}/examples/{}", w.ctx.repo, files[i])).unwrap_or_default()
    } else {
        let mut c = Cfg::random(r);
        c.funcs = c.funcs.max(1);
        c.blocks = c.blocks.max(3);
        c.instrs = c.instrs.max(3);
        let t = gen::module(r, c).text(r);
        gen::far(r, t, 600)
    };
    let m = analyse(&text);
    if !m.valid {
        w.see("skipped_invalid", 1);
        return Ok(());
    }
    let (uri, _) = w.load(r, &text)?;
    let h = w.c()?.ok("textDocument/inlayHint", hints_request(&m, &uri))?;
    check_incoming(w, &h, &m, &uri, &text)?;
    let mut total = 0;
    for f in m.funcs() {
        if m.funcs().filter(|g| g.name.s == f.name.s).count() > 1 {
            continue;
        }
        let c = w.c()?;
        let id = c.send(
            "workspace/executeCommand",
            json!({"command": "visualize-cfg", "arguments": [uri, f.name.s]}),
        );
        let q = c.server_request()?;
        if q["method"] != "hyperir/showDot" {
            return bad("not the graph request", q);
        }
        c.reply(&q["id"], json!({}));
        let a = c.answer(id)?;
        if a.get("result").is_none() {
            return bad("visualising a function failed", json!({"text": text, "answer": a}));
        }
        let want = model_edges(f);
        let dot = q["params"]["dotGraph"].as_str().unwrap_or("").to_string();
        let got = dot_edges(&dot);
        if got.as_ref() != Some(&want) {
            return bad(
                "the control-flow graph is not exact",
                json!({"text": text, "function": f.name.s, "graph": dot, "expected": want}),
            );
        }
        if !q["params"]["title"].as_str().unwrap_or("").contains(&f.name.s) {
            return bad("the title does not name the function", q["params"].clone());
        }
        w.see("graphs_checked", 1);
        w.see("graph_edges", want.len() as u64);
        total += want.len();
    }
    if total >= 2 {
        w.nontrivial(&text, || json!({"text": clip(&text), "edges": total}));
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

fn malformed(r: &mut Rng, nl: &str) -> String {
    let q = "q__1";
    let all = [
        format!("declare void @{}(", q),
        format!("declare int32 @{}() = 5", q),
        format!("declare @{}()", q),
        format!("declare int32 @{}(int32)", q),
        format!("declare int32 @{}(int32 %a,)", q),
        format!("declare int32 {}()", q),
        format!("declare int32 @{}() !1 !2", q),
        format!("define void @{}() {{{}  ret", q, nl),
        format!("define void @{}() {{{}b_0:{}  br b_0", q, nl, nl),
        format!("define void @{}( {{{}  ret{}}}", q, nl, nl),
        format!("define void @{}() {{ ret }}", q),
        format!("define void @{}() {{ret{}}}", q, nl),
        format!("define void @{}() {{{}  x !1 y{}}}", q, nl, nl),
        format!("define void @{}() {{{}  foo: bar{}}}", q, nl, nl),
        format!("define void @{}() {{{}  int32 %v1 = {}  ret{}}}", q, nl, nl, nl),
        format!("define void @{}() {{{}  %v1 = add{}}}", q, nl, nl),
        format!("define @{}() {{{}}}", q, nl),
        format!("define void @{}()", q),
        format!("define void @{}() {{{}}} foo", q, nl),
        "define".into(),
        "declare".into(),
        "foo bar".into(),
        "}".into(),
        "{".into(),
        format!("@{}", q),
        format!("@{} foo", q),
        format!("@{} depends", q),
        format!("@{} depends off @{}", q, q),
        format!("depends on @{}", q),
        format!("!{} foo", q),
        format!("!{}", q),
        "int32 %x = add".into(),
        "= 5".into(),
        "exported".into(),
        "b_0:".into(),
        "br b_0".into(),
        "12".into(),
        "\"str\"".into(),
        "%v1".into(),
        ", , ,".into(),
        "declare declare".into(),
        "-".into(),
        "$ ? 😀".into(),
        "define void @q__1() {\u{fffd}".into(),
    ];
    r.pick(&all).clone()
}

/// A statement with a changed token or character
fn damaged(r: &mut Rng, s: &str) -> String {
    let toks = crate::lex::lex(&s.chars().collect::<Vec<_>>());
    let cs: Vec<char> = s.chars().collect();
    let spans: Vec<Span> = toks.toks.iter().map(|t| t.span).collect();
    if spans.is_empty() {
        return "}".into();
    }
    let mut out = cs.clone();
    let (a, b) = *r.pick(&spans);
    match r.below(6) {
        0 | 1 => {
            out.drain(a..b);
        }
        2 => {
            let (c, d) = *r.pick(&spans);
            let mut x = vec![' '];
            x.extend_from_slice(&cs[c..d]);
            x.push(' ');
            out.splice(a..b, x);
        }
        3 => {
            let x = *r.pick(&[" = ", " , ", " ( ", " ) ", " } ", " { ", " ; ", " : ", " 5 ", " define ", " declare ", " int32 ", " x ", " %x ", " !x ", " ] ", "$", "^"]);
            out.splice(a..a, x.chars());
        }
        4 => {
            // Cut off
            out.truncate(a);
        }
        _ => {
            out.drain(..a.max(1).min(cs.len()));
        }
    }
    out.into_iter().collect()
}

/// The symbols, functions and tokens outside of the (sorted) holes, with offsets after them moved back
fn outside(m: &Model, holes: &[Span]) -> Vec<String> {
    let adj = |s: Span| -> Option<Span> {
        let mut n = 0;
        for hole in holes {
            if s.1 <= hole.0 {
                break;
            } else if s.0 >= hole.1 {
                n += hole.1 - hole.0;
            } else {
                return None;
            }
        }
        Some((s.0 - n, s.1 - n))
    };
    let mut v = vec![];
    for t in m.toks.iter().filter(|t| t.t != T::Newline) {
        if let Some(s) = adj(t.span) {
            v.push(format!("{:?} {:?} {}", s, t.t, t.s));
        }
    }
    for (s, k) in m.occ.values() {
        if let Some(s) = adj(*s) {
            let sym = &m.syms[k];
            let role = |l: &Vec<Span>| l.iter().any(|x| adj(*x) == Some(s));
            v.push(format!("{:?} {:?} {} {}", s, k, role(&sym.defs), role(&sym.decls)));
        }
    }
    for f in m.funcs() {
        if let Some(s) = adj(f.span) {
            v.push(format!("fn {:?}", s));
            for b in &f.blocks {
                v.push(format!("block {:?} {}", adj(b.span), b.instrs.len()));
            }
        }
    }
    v
}

pub fn c07(w: &mut W, r: &mut Rng, _i: usize) -> Res<()> {
    let mode = r.below(5);
    if mode == 0 {
        // Exactly the invalid texts get a syntax diagnostic
        let text = if r.chance(1, 3) {
            let d = gen::doc(r);
            gen::mutate(r, &d)
        } else {
            gen::hostile(r)
        };
        let m = analyse(&text);
        let (_, diags) = w.load(r, &text)?;
        let got = diags.iter().any(|d| diag_kind(d) == 's');
        if got == m.valid {
            return bad(
                if m.valid { "a syntax error in a valid text" } else { "no syntax error in an invalid text" },
                json!({"text": text, "diagnostics": diags}),
            );
        }
        w.see(if m.valid { "valid_texts" } else { "invalid_texts" }, 1);
        if !m.valid {
            w.nontrivial(&text, || json!({"text": clip(&text), "diagnostics": diags.len()}));
        }
        return Ok(());
    }
    let mut c = Cfg::random(r);
    if r.chance(1, 6) {
        // Hardly anything else in the document
        c = Cfg { funcs: r.below(2), globals: r.below(2), anns: r.below(2), decls: r.below(2), deps: 0, blocks: r.below(2), instrs: r.below(3), ..c };
    } else {
        c.funcs = c.funcs.max(1);
    }
    let tiny = c.funcs + c.globals + c.anns + c.decls <= 2;
    let mut module = gen::module(r, c);
    if tiny {
        let n = r.range(1, 3);
        module.stmts.truncate(n);
    }
    let (orig, text, holes) = if mode <= 2 {
        // Stray characters between two tokens
        let orig = module.text(r);
        let m = analyse(&orig);
        let mut places: Vec<usize> = vec![0];
        for (k, t) in m.toks.iter().enumerate() {
            if t.t != T::Comment {
                places.push(t.span.1);
            }
            if k == 0 || m.toks[k - 1].t != T::Comment {
                places.push(t.span.0);
            }
        }
        let o = *r.pick(&places);
        let mut g = String::new();
        for _ in 0..if r.chance(1, 30) { 300 } else { r.range(1, 4) } {
            let c = *r.pick(gen::GARBAGE);
            if !c.is_alphanumeric() {
                g.push(c);
                if r.chance(1, 5) {
                    g.push(' ');
                }
            }
        }
        g.push('$');
        let n = g.chars().count();
        let mut cs = m.text.chars.clone();
        cs.splice(o..o, g.chars());
        (orig, cs.into_iter().collect::<String>(), vec![(o, o + n)])
    } else {
        // Malformed statements between two statements
        let mut bads: Vec<(usize, String)> = vec![];
        for _ in 0..if r.chance(1, 6) { r.range(2, 4) } else { 1 } {
            let s = if r.chance(1, 2) || module.stmts.is_empty() {
                malformed(r, module.nl)
            } else if r.chance(1, 2) {
                let s = r.pick(&module.stmts).clone();
                damaged(r, &s)
            } else {
                // Damage a statement of the module
                let k = r.below(module.stmts.len());
                let s = module.stmts.remove(k);
                bads.push((k, damaged(r, &s)));
                continue;
            };
            let k = match r.below(3) {
                0 => module.stmts.len(),
                _ => r.below(module.stmts.len() + 1),
            };
            bads.push((k, s));
        }
        let last_nl = r.chance(1, 2);
        let mut a = String::new();
        let mut b = String::new();
        let mut holes = vec![];
        for i in 0..=module.stmts.len() {
            for (k, bad_) in bads.iter_mut() {
                if *k == i {
                    let start = b.chars().count();
                    b.push_str(bad_);
                    if i < module.stmts.len() || last_nl || b.contains('#') {
                        b.push_str(module.nl);
                    }
                    holes.push((start, b.chars().count()));
                }
            }
            if i < module.stmts.len() {
                for x in [&mut a, &mut b] {
                    x.push_str(&module.stmts[i]);
                    x.push_str(module.nl);
                }
            }
        }
        (a, b, holes)
    };
    let hole = *r.pick(&holes);
    let m0 = analyse(&orig);
    let m = analyse(&text);
    if !m0.valid || m0.collision || m.valid || m.collision {
        w.see("skipped_unsuitable", 1);
        return Ok(());
    }
    if outside(&m, &holes) != outside(&m0, &[]) {
        // The corruption is not confined to one statement
        w.see("skipped_not_local", 1);
        return Ok(());
    }
    // What becomes of the malformed statement itself is not specified
    let inside = |s: Span| holes.iter().any(|h| s.0 >= h.0 && s.1 <= h.1);
    if m.syms.values().any(|s| s.defs.iter().chain(&s.decls).any(|d| inside(*d))) {
        w.see("skipped_symbols_inside", 1);
        return Ok(());
    }
    let (uri, diags) = w.load(r, &text)?;
    // Located at, or directly next to, the malformed spot
    let mut spots: Vec<Span> = vec![];
    for h in &holes {
        match spots.last_mut() {
            Some(l)
                if !m.toks.iter().any(|t| {
                    t.t != T::Newline && t.t != T::Comment && t.span.0 >= l.1 && t.span.1 <= h.0
                }) =>
            {
                l.1 = h.1
            }
            _ => spots.push(*h),
        }
    }
    for spot in &spots {
        if spots.len() > 1 {
            // Damage may leave a valid statement
            let part: String = m.text.chars[spot.0..spot.1].iter().collect();
            if analyse(&part).valid {
                continue;
            }
        }
        let before = m
            .toks
            .iter()
            .filter(|t| t.t != T::Newline && t.span.1 <= spot.0)
            .map(|t| t.span.0)
            .last()
            .unwrap_or(0);
        let after = m
            .toks
            .iter()
            .filter(|t| t.t != T::Newline && t.t != T::Comment && t.span.0 >= spot.1)
            .map(|t| t.span.1)
            .next()
            .unwrap_or(m.text.len());
        let (lo, hi) = (m.text.pos(before), m.text.pos(after));
        let near = diags.iter().filter(|d| diag_kind(d) == 's').any(|d| {
            range_of(&d["range"]).map_or(false, |x| x.end >= lo && x.start <= hi)
        });
        if !near {
            return bad(
                "no syntax error at the malformed spot",
                json!({"text": text, "spot": [spot.0, spot.1], "diagnostics": diags}),
            );
        }
    }
    if spots.len() > 1 {
        w.see("several_spots", 1);
    }
    w.see(if mode <= 2 { "stray_characters" } else { "malformed_statements" }, 1);
    // Everything else is analysed as without it
    check_semantic_outside(w, &m, &uri, &diags, &text, &holes)?;
    structure(w, &m, &uri, &text)?;
    let a = w.c()?.ok("textDocument/semanticTokens/full", td(&uri))?;
    check_tokens(w, a, &m, &text)?;
    let offs = crate::nav::probe_offsets(r, &m, 20);
    let mut reqs = vec![];
    for o in &offs {
        reqs.push(("textDocument/definition", tdp(&uri, m.text.pos(*o))));
    }
    let ans = w.c()?.batch(reqs.clone())?;
    for (k, o) in offs.iter().enumerate() {
        let a = result(&ans[k], "definition")?;
        let mut got = locations(&a).unwrap_or_default();
        got.sort();
        let want = m
            .at(*o)
            .map_or(vec![], |x| crate::nav::spans(&m.text, &uri, &m.syms[&x.1].defs));
        if got != want {
            return bad(
                "navigation is disturbed by a malformed spot",
                json!({"text": text, "params": reqs[k].1, "answer": a}),
            );
        }
    }
    w.see("navigation_queries", offs.len() as u64);
    w.nontrivial(&text, || json!({"text": clip(&text), "spot": [hole.0, hole.1]}));
    Ok(())
}
