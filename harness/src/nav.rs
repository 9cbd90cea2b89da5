//! Monitors for positions, navigation, rename and numbering shifts (C02 - C05).

use crate::client::{bad, Res};
use crate::gen::{self, Cfg};
use crate::lex::{single, T};
use crate::model::{analyse, Key, Kind, Model, Sym};
use crate::rng::Rng;
use crate::run::*;
use crate::text::{Pos, Rng2, Span, Text};
use serde_json::{json, Value};

/// (uri, range) of each location or link of an answer; null counts as empty
pub fn locations(v: &Value) -> Option<Vec<(String, Rng2)>> {
    let one = |v: &Value| -> Option<(String, Rng2)> {
        if let Some(u) = v["targetUri"].as_str() {
            let sel = range_of(&v["targetSelectionRange"])?;
            let full = range_of(&v["targetRange"])?;
            // The selection must lie inside the target range
            if !(full.start <= sel.start && sel.end <= full.end) {
                return None;
            }
            return Some((u.to_string(), sel));
        }
        Some((v["uri"].as_str()?.to_string(), range_of(&v["range"])?))
    };
    match v {
        Value::Null => Some(vec![]),
        Value::Array(a) => a.iter().map(one).collect(),
        _ => Some(vec![one(v)?]),
    }
}

fn result(r: &Value, method: &str) -> Res<Value> {
    match r.get("result") {
        Some(v) => Ok(v.clone()),
        None => bad(format!("{} was refused", method), r.clone()),
    }
}

pub fn spans(t: &Text, uri: &str, s: &[Span]) -> Vec<(String, Rng2)> {
    let mut v: Vec<_> = s.iter().map(|x| (uri.to_string(), t.range(*x))).collect();
    v.sort();
    v
}

/// Interesting offsets of a document: in, before and after every symbol, and random ones
pub fn probe_offsets(r: &mut Rng, m: &Model, max: usize) -> Vec<usize> {
    let mut v = vec![];
    for (s, _) in m.occ.values() {
        v.push(s.0);
        v.push(s.1 - 1);
        v.push(s.1);
        v.push(r.range(s.0, s.1));
        v.push(s.0.saturating_sub(1));
    }
    for t in &m.toks {
        if !matches!(t.t, T::Global | T::Local | T::Dbg) && r.chance(1, 3) {
            v.push(r.range(t.span.0, t.span.1));
        }
    }
    for _ in 0..10 {
        v.push(r.below(m.text.len() + 1));
    }
    v.push(m.text.len());
    // Drop offsets between CR and LF: they have no position
    v.retain(|o| m.text.exact(m.text.pos(*o)) == Some(*o));
    r.shuffle(&mut v);
    v.sort_by_key(|_| r.next());
    v.truncate(max);
    v
}

// ---------------------------------------------------------------- C03

pub fn c03(w: &mut W, r: &mut Rng, _i: usize) -> Res<()> {
    let text = if r.chance(1, 6) { gen::hostile(r) } else {
        let t = gen::doc_bulk(r, 60);
        gen::far(r, t, 300)
    };
    let m = analyse(&text);
    if m.collision {
        w.see("skipped_name_collision", 1);
        return Ok(());
    }
    let (uri, _) = w.load(r, &text)?;
    let offs = probe_offsets(r, &m, 160);
    let mut reqs = vec![];
    for o in &offs {
        let p = m.text.pos(*o);
        reqs.push(("textDocument/definition", tdp(&uri, p)));
        reqs.push(("textDocument/declaration", tdp(&uri, p)));
        let mut q = tdp(&uri, p);
        q["context"] = json!({ "includeDeclaration": r.chance(1, 2) });
        reqs.push(("textDocument/references", q));
    }
    let ans = w.c()?.batch(reqs.clone())?;
    let mut kinds = std::collections::BTreeSet::new();
    for (i, o) in offs.iter().enumerate() {
        let empty = Sym::default();
        let (key, sym, span) = match m.at(*o) {
            Some((s, k)) => (Some(k), &m.syms[k], Some(*s)),
            None => (None, &empty, None),
        };
        if let Some(k) = key {
            kinds.insert((k.kind, sym.defs.len().min(2), sym.uses.len().min(3)));
            w.see(&format!("queries_on_{:?}", k.kind), 3);
        } else {
            w.see("queries_outside_symbols", 3);
        }
        for (j, exp) in [&sym.defs, &sym.decls, &sym.uses].iter().enumerate() {
            let (method, params) = &reqs[i * 3 + j];
            let res = result(&ans[i * 3 + j], method)?;
            let detail = |got: &Value| {
                json!({"text": text, "method": method, "params": params, "answer": got,
                       "symbol": format!("{:?}", key),
                       "expected": spans(&m.text, &uri, exp).iter().map(|x| jrange(x.1)).collect::<Vec<_>>()})
            };
            let mut got = match locations(&res) {
                Some(g) => g,
                None => return bad("malformed locations", detail(&res)),
            };
            got.sort();
            let exp = spans(&m.text, &uri, exp);
            let fine = got == exp;
            if !fine {
                return bad(format!("{} is not exact", method), detail(&res));
            }
            if let (Value::Array(a), Some(s)) = (&res, span) {
                for l in a {
                    if let Some(o) = l.get("originSelectionRange") {
                        if range_of(o) != Some(m.text.range(s)) {
                            return bad("the origin is not the symbol under the cursor", detail(&res));
                        }
                    }
                }
            }
        }
    }
    if kinds.len() >= 2 {
        w.nontrivial(&text, || {
            json!({"text": text, "positions": offs.len(), "symbols": m.syms.len()})
        });
    }
    Ok(())
}

// ---------------------------------------------------------------- C02

/// Visits every position and range in a JSON value
fn walk(v: &Value, f: &mut dyn FnMut(Option<Pos>, Option<Rng2>)) {
    match v {
        Value::Object(o) => {
            if o.len() == 2 && o.contains_key("line") && o.contains_key("character") {
                f(pos_of(v), None);
            } else if o.len() == 2 && o.contains_key("start") && o.contains_key("end") {
                match range_of(v) {
                    Some(r) => f(Some(r.start), Some(r)),
                    None => f(None, None),
                }
            } else {
                for (k, x) in o {
                    if k != "data" {
                        walk(x, f);
                    }
                }
            }
        }
        Value::Array(a) => {
            for x in a {
                walk(x, f);
            }
        }
        _ => {}
    }
}

fn check_positions(w: &mut W, t: &Text, what: &str, v: &Value, text: &str) -> Res<()> {
    let mut wrong = None;
    let mut n = 0;
    walk(v, &mut |p, r| {
        n += 1;
        match (p, r) {
            (Some(p), None) => {
                if !t.valid(p) {
                    wrong.get_or_insert(json!({ "position": jpos(p) }));
                }
            }
            (_, Some(r)) => {
                if !t.valid(r.start) || !t.valid(r.end) || r.end < r.start {
                    wrong.get_or_insert(json!({ "range": jrange(r) }));
                }
            }
            _ => {
                wrong.get_or_insert(json!("malformed"));
            }
        }
    });
    w.see("positions_validated", n);
    match wrong {
        Some(x) => bad(
            format!("{} sends an invalid position", what),
            json!({"text": text, "invalid": x, "answer": v}),
        ),
        None => Ok(()),
    }
}

fn text_at(t: &Text, v: &Value) -> Option<String> {
    let r = range_of(v)?;
    Some(t.slice((t.exact(r.start)?, t.exact(r.end)?)))
}

pub const ODD_BREAKS: &[(&str, char)] = &[
    ("U+000B", '\u{b}'),
    ("U+000C", '\u{c}'),
    ("U+0085", '\u{85}'),
    ("U+2028", '\u{2028}'),
    ("U+2029", '\u{2029}'),
];

pub fn c02(w: &mut W, r: &mut Rng, i: usize) -> Res<()> {
    if i < ODD_BREAKS.len() * 2 {
        // Fixed inputs: characters which are no line breaks in LSP
        let (name, c) = ODD_BREAKS[i / 2];
        let (key, text) = if i % 2 == 0 {
            (format!("{} in a comment", name), format!("# x{}y\n@a = 1\n", c))
        } else {
            (format!("{} in a string", name), format!("@s = \"x{}y\" @a\n@a = 1\n", c))
        };
        return match c02_text(w, r, &text) {
            Err(crate::client::Stop::Bad(b)) if known(&w.ctx, &key) => {
                w.abandon();
                let _ = b;
                w.known.push(key);
                Ok(())
            }
            x => x,
        };
    }
    let text = match r.below(10) {
        0..=2 => {
            let t = if r.chance(1, 4) {
                let d = gen::doc(r);
                gen::mutate(r, &d)
            } else {
                gen::hostile(r)
            };
            // Further down
            let nl = *r.pick(&["\n", "\r\n", "\r"]);
            let n = if r.chance(1, 3) { r.range(1, 300) } else { 0 };
            format!("{}{}", nl.repeat(n), t)
        }
        3 => {
            // Very long lines
            let mut s = String::from("@a = ");
            for _ in 0..r.range(200, 3000) {
                s.push_str(*r.pick(&["1 ", "é ", "\"😀\" ", "@a ", "@𝒳 ", "\t"]));
            }
            s + "\n@𝒳 = 1"
        }
        4 if r.chance(1, 4) => {
            // Far to the right, or far down
            let far = "\n".repeat(70000);
            let pad = *r.pick(&["\"", "\"é", "\"😀", "\""]);
            let n = *r.pick(&[250usize, 4090, 32760, 65530, 65530]) + r.below(12);
            let fill = match pad {
                "\"é" => "é".repeat(n),
                "\"😀" => "😀".repeat(n / 2),
                _ if r.chance(1, 4) => far,
                _ => " ".repeat(n),
            };
            let d = gen::doc(r);
            format!("@qfar = \"{}\" @a @qfar\n@qfar = 1\n{}", fill, d)
        }
        _ => {
            let mut c = Cfg::random(r);
            c.uni = 50;
            c.comments = 30;
            let m = gen::module(r, c);
            m.text(r)
        }
    };
    c02_text(w, r, &text)
}

fn c02_text(w: &mut W, r: &mut Rng, text: &str) -> Res<()> {
    let m = analyse(text);
    let t = &m.text;
    let (uri, diags) = w.load(r, text)?;
    let diags = Value::Array(diags);
    check_positions(w, t, "diagnostics", &diags, text)?;
    // A diagnostic about a symbol covers the symbol
    for d in diags.as_array().unwrap() {
        let msg = d["message"].as_str().unwrap_or("");
        if msg.contains("undefined symbol") || msg.contains("already defined") || msg.contains("basic block references") {
            if let Some(name) = msg.split('`').nth(1) {
                let got = text_at(t, &d["range"]);
                if got.as_deref() != Some(name) {
                    return bad(
                        "a diagnostic does not cover its symbol",
                        json!({"text": text, "diagnostic": d, "covers": got}),
                    );
                }
                w.see("symbol_ranges_compared", 1);
                for i in d["relatedInformation"].as_array().into_iter().flatten() {
                    let got = text_at(t, &i["location"]["range"]);
                    if got.as_deref() != Some(name) {
                        return bad(
                            "a related location does not cover its symbol",
                            json!({"text": text, "diagnostic": d, "covers": got}),
                        );
                    }
                    w.see("symbol_ranges_compared", 1);
                }
            }
        }
    }
    // Whole-document requests
    let full = jrange(Rng2 { start: Pos { line: 0, col: 0 }, end: t.pos(t.len()) });
    let mut ih = td(&uri);
    ih["range"] = full;
    let whole = [
        ("textDocument/documentSymbol", td(&uri)),
        ("textDocument/foldingRange", td(&uri)),
        ("textDocument/inlayHint", ih),
        ("textDocument/codeLens", td(&uri)),
        ("textDocument/semanticTokens/full", td(&uri)),
    ];
    let ans = w.c()?.batch(whole.to_vec())?;
    for ((method, _), a) in whole.iter().zip(&ans) {
        let a = result(a, method)?;
        check_positions(w, t, method, &a, text)?;
        let detail = |x: &Value| json!({"text": text, "method": method, "item": x});
        match *method {
            "textDocument/documentSymbol" => {
                for s in a.as_array().into_iter().flatten() {
                    let sel = text_at(t, &s["selectionRange"]);
                    if sel.as_deref() != s["name"].as_str() {
                        return bad("an outline entry does not select its symbol", detail(s));
                    }
                    w.see("symbol_ranges_compared", 1);
                }
            }
            "textDocument/foldingRange" => {
                for s in a.as_array().into_iter().flatten() {
                    let (x, y) = (s["startLine"].as_u64(), s["endLine"].as_u64());
                    let ok = matches!((x, y), (Some(x), Some(y)) if x <= y && y < t.lines.len() as u64);
                    if !ok {
                        return bad("a fold lies outside the document", detail(s));
                    }
                }
            }
            "textDocument/inlayHint" => {
                for h in a.as_array().into_iter().flatten() {
                    for p in h["label"].as_array().into_iter().flatten() {
                        if p.get("location").map_or(false, |l| !l.is_null()) {
                            let got = text_at(t, &p["location"]["range"]);
                            if got.as_deref() != p["value"].as_str() {
                                return bad("a hint links to something else", detail(h));
                            }
                            w.see("symbol_ranges_compared", 1);
                        }
                    }
                }
            }
            "textDocument/codeLens" => {
                for l in a.as_array().into_iter().flatten() {
                    let got = text_at(t, &l["range"]);
                    if got.as_deref() != l["command"]["arguments"][1].as_str() {
                        return bad("a lens does not cover its function", detail(l));
                    }
                    w.see("symbol_ranges_compared", 1);
                }
            }
            _ => {
                let mut line = 0u64;
                let mut col = 0u64;
                let data = a["data"].as_array().cloned().unwrap_or_default();
                for q in data.chunks(5) {
                    let n: Vec<u64> = q.iter().map(|x| x.as_u64().unwrap_or(u64::MAX)).collect();
                    if n.len() != 5 || n.iter().any(|x| *x > u64::from(u32::MAX)) {
                        return bad("malformed semantic tokens", detail(&a));
                    }
                    if n[0] > 0 {
                        line += n[0];
                        col = n[1];
                    } else {
                        col += n[1];
                    }
                    let p = Pos { line: line as u32, col: col as u32 };
                    let e = Pos { line: line as u32, col: (col + n[2]) as u32 };
                    if !t.valid(p) || !t.valid(e) {
                        return bad(
                            "a semantic token lies outside its line",
                            json!({"text": text, "line": line, "col": col, "len": n[2]}),
                        );
                    }
                    w.see("positions_validated", 2);
                }
            }
        }
    }
    if m.collision {
        return Ok(());
    }
    // Client positions are read as UTF-16 positions, columns past the line end as its end
    let offs = probe_offsets(r, &m, 60);
    let mut reqs = vec![];
    let mut want: Vec<Option<Span>> = vec![];
    for o in &offs {
        let p = t.pos(*o);
        reqs.push(("textDocument/prepareRename", tdp(&uri, p)));
        want.push(m.at(*o).map(|x| x.0));
    }
    for _ in 0..12 {
        let line = r.below(t.lines.len());
        let end = t.ends[line];
        let pe = t.pos(end);
        let over = *r.pick(&[1u32, 2, 5, 1000, 1 << 30, u32::MAX - pe.col]);
        let p = Pos { line: pe.line, col: pe.col.saturating_add(over) };
        reqs.push(("textDocument/prepareRename", tdp(&uri, p)));
        want.push(m.at(end).map(|x| x.0));
        w.see("positions_past_line_end", 1);
    }
    let ans = w.c()?.batch(reqs.clone())?;
    for (k, a) in ans.iter().enumerate() {
        let a = result(a, "prepareRename")?;
        let got = if a.get("range").is_some() { range_of(&a["range"]) } else { range_of(&a) };
        let exp = want[k].map(|s| t.range(s));
        if got != exp {
            return bad(
                "a query position designates another symbol, or the range is not the symbol's",
                json!({"text": text, "params": reqs[k].1, "answer": a, "expected": exp.map(jrange)}),
            );
        }
        w.see("query_positions_checked", 1);
    }
    // Links and edits
    let mut reqs = vec![];
    for o in offs.iter().filter(|o| m.at(**o).is_some()).take(12) {
        let p = t.pos(*o);
        reqs.push(("textDocument/definition", tdp(&uri, p)));
        reqs.push(("textDocument/declaration", tdp(&uri, p)));
        let mut q = tdp(&uri, p);
        q["context"] = json!({"includeDeclaration": false});
        reqs.push(("textDocument/references", q));
        let mut q = tdp(&uri, p);
        q["newName"] = json!("renamed");
        reqs.push(("textDocument/rename", q));
        let mut q = td(&uri);
        q["range"] = jrange(Rng2 { start: p, end: p });
        q["context"] = json!({"diagnostics": []});
        reqs.push(("textDocument/codeAction", q));
    }
    let ans = w.c()?.batch(reqs.clone())?;
    for ((method, params), a) in reqs.iter().zip(&ans) {
        let a = result(a, method)?;
        check_positions(w, t, method, &a, text)?;
        let off = pos_of(&params["position"]).or(pos_of(&params["range"]["start"]));
        let name = off.and_then(|p| t.offset(p)).and_then(|o| m.at(o)).map(|x| x.1.name.clone());
        let mut ranges = vec![];
        if let Some(ls) = locations(&a) {
            ranges.extend(ls.into_iter().map(|x| x.1));
        }
        if *method == "textDocument/rename" {
            ranges.extend(edits_of(&a, &uri).unwrap_or_default().into_iter().map(|e| e.0));
        }
        for x in ranges {
            let got = text_at(t, &jrange(x));
            if got != name {
                return bad(
                    format!("a range of {} does not cover exactly the symbol", method),
                    json!({"text": text, "params": params, "range": jrange(x), "covers": got}),
                );
            }
            w.see("symbol_ranges_compared", 1);
        }
    }
    let has_uni = text.chars().any(|c| c.len_utf16() != c.len_utf8());
    if (has_uni || text.contains('\r')) && !m.occ.is_empty() {
        w.nontrivial(text, || json!({"text": text, "query_positions": offs.len()}));
    }
    Ok(())
}

/// Whether the committed known-findings file lists this input for the property
pub fn known(ctx: &Ctx, key: &str) -> bool {
    let f = std::fs::read_to_string(format!("{}/known-findings.txt", ctx.root)).unwrap_or_default();
    let line = format!("known: property={} input=[{}]", ctx.prop, key);
    f.lines().any(|l| l.starts_with(&line))
}

// ---------------------------------------------------------------- C04

/// The edits of a workspace edit which concern `uri`; None if it is malformed or touches others
pub fn edits_of(v: &Value, uri: &str) -> Option<Vec<(Rng2, String)>> {
    let mut out = vec![];
    let mut take = |u: &str, a: &Value| -> Option<()> {
        if u != uri {
            return None;
        }
        for e in a.as_array()? {
            out.push((range_of(&e["range"])?, e["newText"].as_str()?.to_string()));
        }
        Some(())
    };
    if let Some(c) = v.get("changes").and_then(|c| c.as_object()) {
        for (u, a) in c {
            take(u, a)?;
        }
    }
    if let Some(d) = v.get("documentChanges").and_then(|c| c.as_array()) {
        for x in d {
            take(x["textDocument"]["uri"].as_str()?, &x["edits"])?;
        }
    }
    Some(out)
}

fn sigil(k: Kind) -> &'static str {
    match k {
        Kind::Function | Kind::GlobalVar => "@",
        Kind::Dbg => "!",
        Kind::Local => "%",
        Kind::Label => "",
    }
}

fn class(k: Kind) -> T {
    match k {
        Kind::Function | Kind::GlobalVar => T::Global,
        Kind::Dbg => T::Dbg,
        Kind::Local => T::Local,
        Kind::Label => T::Ident,
    }
}

const NEW_NAMES: &[&str] = &[
    "new_1", "n::m", "é", "𝒳", "zz9", "_", "__x", "int32", "declare", "pure", "define", "br", "phi",
    "a:b", ":a", "::a::b", "", "a b", "a-b", "1a", "1", "007", "a:", "a::", "a\n", " a", "a ", "é b",
    "a@b", "@a", "%a", "!a", "@@a", "%%a", "!!a", "@", "%", "!", "@1", "%1", "!1", "a$", "a.b", "\"a\"", "#a", "0x1f", "²", "a²",
    "٣", "a\u{301}", "日本::語1", "renamed", "@renamed", "%renamed", "!renamed", ":", "::", "@:", "a(b", "a=", "a,b", "a\u{a0}", "x!y", "\t",
    "v1", "b_0", "a'", "void", "exported", "A", "@a:", "%b:", "!c:", "é:",
];

fn acceptable(k: Kind, new: &str) -> Option<String> {
    let body = new.strip_prefix(sigil(k)).unwrap_or(new);
    if body.is_empty() {
        return None;
    }
    if k != Kind::Dbg && body.starts_with(char::is_numeric) {
        return None;
    }
    let full = format!("{}{}", sigil(k), body);
    if single(&full, class(k)) {
        Some(full)
    } else {
        None
    }
}

pub fn c04(w: &mut W, r: &mut Rng, _i: usize) -> Res<()> {
    let text = if r.chance(1, 8) { gen::hostile(r) } else {
        let t = gen::doc(r);
        gen::far(r, t, 400)
    };
    let m = analyse(&text);
    if m.collision || m.text.len() == 0 {
        return Ok(());
    }
    let (uri, diags) = w.load(r, &text)?;
    // prepareRename everywhere
    let offs = probe_offsets(r, &m, 60);
    let reqs: Vec<_> = offs
        .iter()
        .map(|o| ("textDocument/prepareRename", tdp(&uri, m.text.pos(*o))))
        .collect();
    let ans = w.c()?.batch(reqs.clone())?;
    for (k, a) in ans.iter().enumerate() {
        let a = result(a, "prepareRename")?;
        let got = if a.get("range").is_some() { range_of(&a["range"]) } else { range_of(&a) };
        let exp = m.at(offs[k]).map(|s| m.text.range(s.0));
        if got != exp || (exp.is_none() && !a.is_null()) {
            return bad(
                "prepareRename is not exact",
                json!({"text": text, "params": reqs[k].1, "answer": a, "expected": exp.map(jrange)}),
            );
        }
        w.see(if exp.is_some() { "prepare_on_symbol" } else { "prepare_elsewhere" }, 1);
    }
    // rename
    let mut reqs = vec![];
    let mut exp: Vec<(Option<&Key>, Option<String>)> = vec![];
    for o in offs.iter().take(40) {
        let mut q = tdp(&uri, m.text.pos(*o));
        let mut new = r.pick(NEW_NAMES).to_string();
        let key = m.at(*o).map(|x| &x.1);
        if r.chance(1, 2) {
            new = if r.chance(1, 2) { gen::synth(r, 20, &[]) } else { format!("ren_{}", r.below(1000)) };
            if let Some(k) = key {
                if r.chance(1, 2) {
                    new = format!("{}{}", sigil(k.kind), new);
                }
            }
        }
        if r.chance(1, 12) {
            new.push(*r.pick(gen::GARBAGE));
        }
        if new.starts_with('+') || new.starts_with('-') {
            continue;
        }
        q["newName"] = json!(new);
        reqs.push(("textDocument/rename", q));
        exp.push((key, key.and_then(|k| acceptable(k.kind, &new))));
    }
    let ans = w.c()?.batch(reqs.clone())?;
    let mut renamed: Option<(String, usize)> = None;
    for (k, a) in ans.iter().enumerate() {
        let detail = |e: Value| {
            json!({"text": text, "params": reqs[k].1, "answer": a, "symbol": format!("{:?}", exp[k].0), "expected": e})
        };
        match (&exp[k].0, &exp[k].1) {
            (Some(key), Some(full)) => {
                let mut got = match a.get("result").and_then(|v| edits_of(v, &uri)) {
                    Some(g) => g,
                    None => return bad("a valid rename was not carried out", detail(json!(full))),
                };
                got.sort();
                let want: Vec<(Rng2, String)> =
                    m.syms[*key].all().iter().map(|s| (m.text.range(*s), full.clone())).collect();
                if got != want {
                    return bad(
                        "rename does not edit exactly the occurrences of the symbol",
                        detail(json!(want.iter().map(|e| json!([jrange(e.0), e.1])).collect::<Vec<_>>())),
                    );
                }
                w.see(&format!("renames_of_{:?}", key.kind), 1);
                w.see("edits_checked", got.len() as u64);
                if full.contains("ren_") && renamed.is_none() {
                    if let Some(t2) = apply_edits(&m.text, &got) {
                        renamed = Some((t2, diags.len()));
                    }
                }
            }
            _ => {
                if a.get("error").is_none() {
                    return bad("an invalid rename was not refused", detail(json!("an error")));
                }
                w.see("invalid_renames_refused", 1);
            }
        }
    }
    // The edited document analyses like the original
    if let Some((t2, n)) = renamed {
        let (_, d2) = w.load(r, &t2)?;
        if d2.len() != n {
            return bad(
                "the renamed document analyses differently",
                json!({"text": text, "renamed": t2, "diagnostics_before": n, "after": d2}),
            );
        }
        w.see("renamed_documents_reanalysed", 1);
        w.nontrivial(&text, || json!({"text": text, "after_one_rename": t2}));
    }
    Ok(())
}

// ---------------------------------------------------------------- C05

fn number(name: &str) -> Option<(&str, i128)> {
    let digits = name.chars().rev().take_while(|c| c.is_ascii_digit()).count();
    if digits == 0 {
        return None;
    }
    let (a, b) = name.split_at(name.len() - digits);
    Some((a, b.parse::<i64>().ok()?.into()))
}

fn shifted(m: &Model, key: &Key, shift: i128) -> Option<Vec<(Rng2, String)>> {
    let (_, from) = number(&key.name)?;
    let mut v = vec![];
    for (k, s) in &m.syms {
        if k.kind != key.kind || k.scope != key.scope {
            continue;
        }
        if let Some((p, n)) = number(&k.name) {
            if n >= from {
                let new = format!("{}{}", p, (n + shift).abs());
                v.extend(s.all().iter().map(|x| (m.text.range(*x), new.clone())));
            }
        }
    }
    v.sort();
    Some(v)
}

pub fn init_caps(caps: Value) -> Value {
    json!({"processId": null, "rootUri": null, "capabilities": caps})
}

pub fn lazy_caps(resolve: Option<Vec<&str>>, data: Option<bool>) -> Value {
    let mut ca = json!({});
    if let Some(p) = resolve {
        ca["resolveSupport"] = json!({ "properties": p });
    }
    if let Some(d) = data {
        ca["dataSupport"] = json!(d);
    }
    json!({"textDocument": {"codeAction": ca}})
}

pub fn c05(w: &mut W, r: &mut Rng, i: usize) -> Res<()> {
    // Blocks of cases share a session configuration
    let lazy = (i / 16) % 2 == 1;
    let caps = if lazy { lazy_caps(Some(vec!["edit"]), Some(true)) } else { json!({}) };
    w.session(init_caps(caps))?;
    let mut c = Cfg::random(r);
    c.funcs = c.funcs.max(2);
    c.blocks = c.blocks.max(3);
    c.instrs = c.instrs.max(2);
    let text = gen::module(r, c).text(r);
    let text = gen::far(r, text, 500);
    let m = analyse(&text);
    if m.collision {
        return Ok(());
    }
    let (uri, _) = w.load(r, &text)?;
    let offs: Vec<usize> = probe_offsets(r, &m, 50).into_iter().take(40).collect();
    let mut reqs = vec![];
    let mut shifts = vec![];
    for o in &offs {
        let p = m.text.pos(*o);
        let mut q = tdp(&uri, p);
        let s: i128 = match r.below(8) {
            0 => 1,
            1 => -1,
            2 => 0,
            3 => i128::from(i64::MAX) - r.below(100) as i128,
            4 => -(i128::from(i64::MAX) - r.below(100) as i128),
            5 => -(r.below(20) as i128),
            _ => r.below(50) as i128,
        };
        let mut name = if s < 0 { s.to_string() } else { format!("+{}", s) };
        if s == 0 && r.chance(1, 2) {
            name = "-0".into();
        }
        let valid = !r.chance(1, 15);
        if !valid {
            name = r.pick(&["+", "-", "+a", "-1x", "+ 1", "+1.5", "+0x3", "+99999999999999999999"]).to_string();
        }
        q["newName"] = json!(name);
        reqs.push(("textDocument/rename", q));
        let mut q = td(&uri);
        q["range"] = jrange(Rng2 { start: p, end: p });
        q["context"] = json!({"diagnostics": []});
        reqs.push(("textDocument/codeAction", q));
        shifts.push(if valid { Some(s) } else { None });
    }
    let ans = w.c()?.batch(reqs.clone())?;
    for (k, o) in offs.iter().enumerate() {
        let key = m.at(*o).map(|x| &x.1);
        let a = &ans[2 * k];
        let detail = |a: &Value, e: &Option<Vec<(Rng2, String)>>| {
            json!({"text": text, "params": reqs[2*k].1, "answer": a, "lazy": lazy, "symbol": format!("{:?}", key),
                   "expected": e.as_ref().map(|v| v.iter().map(|e| json!([jrange(e.0), e.1])).collect::<Vec<_>>())})
        };
        let want = match (key, shifts[k]) {
            (Some(key), Some(s)) => shifted(&m, key, s),
            _ => None,
        };
        match &want {
            None => {
                if a.get("error").is_none() {
                    return bad("an impossible shift was not refused", detail(a, &want));
                }
                w.see("shifts_refused", 1);
            }
            Some(want_v) => {
                let got = a.get("result").and_then(|v| edits_of(v, &uri)).map(|mut g| {
                    g.sort();
                    g
                });
                if got.as_ref() != Some(want_v) {
                    return bad("a relative rename shifts wrongly", detail(a, &want));
                }
                w.see("shifts_checked", 1);
                w.see("edits_checked", want_v.len() as u64);
            }
        }
        // The code action
        let a = result(&ans[2 * k + 1], "codeAction")?;
        let list: Vec<Value> = a.as_array().cloned().unwrap_or_default();
        let want = key.and_then(|key| shifted(&m, key, 1));
        match &want {
            None => {
                if !list.is_empty() {
                    return bad("an action is offered where there is no number", detail(&a, &want));
                }
                w.see("no_action_offered", 1);
            }
            Some(want_v) => {
                if list.len() != 1 || !list[0]["title"].as_str().unwrap_or("").contains("numbering") {
                    return bad("not exactly one numbering action", detail(&a, &want));
                }
                let mut act = list[0].clone();
                let has_edit = act.get("edit").map_or(false, |e| !e.is_null());
                if has_edit == lazy {
                    return bad("the edit is not delivered as negotiated", detail(&act, &want));
                }
                if lazy {
                    act = w.c()?.ok("codeAction/resolve", act)?;
                    w.see("actions_resolved_lazily", 1);
                }
                let got = edits_of(&act["edit"], &uri).map(|mut g| {
                    g.sort();
                    g
                });
                if got.as_ref() != Some(want_v) {
                    return bad("the numbering action does not shift by +1", detail(&act, &want));
                }
                if act["title"] != list[0]["title"] {
                    return bad("resolving changes the action", detail(&act, &want));
                }
                w.see("actions_checked", 1);
                if want_v.len() > 1 {
                    w.nontrivial(&text, || {
                        json!({"text": text, "symbol": format!("{:?}", key), "edits": want_v.len()})
                    });
                }
            }
        }
    }
    Ok(())
}
