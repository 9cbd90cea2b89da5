//! Monitors for the protocol behaviour: survival (C01), histories (C08), requests of the server
//! (C14), lifecycle and capabilities (C16).

use crate::client::{bad, Client, Res};
use crate::gen::{self, Cfg};
use crate::model::{analyse, Model};
use crate::nav::{init_caps, lazy_caps};
use crate::rng::Rng;
use crate::run::*;
use crate::shape::{self, clip};
use crate::text::{Pos, Rng2};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};

// ---------------------------------------------------------------- requests

/// A position: inside the text, near its borders, or far away
pub fn position(r: &mut Rng, m: &Model) -> Pos {
    match r.below(8) {
        0 => Pos { line: u32::MAX, col: u32::MAX },
        1 => Pos { line: r.below(5) as u32, col: u32::MAX - r.below(2) as u32 },
        2 => Pos { line: u32::MAX - r.below(2) as u32, col: r.below(3) as u32 },
        3 => Pos { line: r.below(40) as u32, col: r.below(80) as u32 },
        _ => {
            let o = if m.occ.is_empty() || r.chance(1, 4) {
                r.below(m.text.len() + 1)
            } else {
                let n = r.below(m.occ.len());
                let s = m.occ.values().nth(n).unwrap().0;
                s.0 + r.below(s.1 - s.0 + 2)
            };
            let mut p = m.text.pos(o.min(m.text.len()));
            if r.chance(1, 10) {
                p.col = p.col.saturating_add(r.below(3) as u32);
            }
            p
        }
    }
}

fn a_name(r: &mut Rng) -> String {
    let names = [
        "x", "foo_1", "%v1", "@f", "!3", "", " ", "+1", "-1", "+", "-", "+9223372036854775807",
        "-9223372036854775808", "+9223372036854775808", "-99999999999999999999", "+0", "a b", "9", "é9",
        "😀", "define", "int32", "+é", "-\u{301}", "a\nb", "\u{0}", "%", "@", "!", "a:", ":a", "a::b", "\"x\"", "#", "x#y",
    ];
    const PIECES: &[&str] = &[
        "+", "-", "\u{2212}", "\u{ff0b}", "\u{2013}", "%", "@", "!", ":", "_", " ", "\t", "\n", "1", "0", "٣", "²", "é", "😀", "x", "Foo",
        "9223372036854775807", "9223372036854775808", "\u{301}", "\u{202e}", "\u{feff}", "\"", "#", "$", "{", "=", ".", ",", "1e5", "0x1", "\u{0}",
    ];
    if r.chance(1, 8) {
        // Signed numbers of any kind
        let sign = *r.pick(&["+", "-"]);
        let inner = *r.pick(&["", "+", "-"]);
        let n: i128 = *r.pick(&[0, 1, 1 << 31, 1 << 32, 1 << 63, 1 << 63, 1 << 64, 1 << 100]) + *r.pick(&[-1, 0, 0, 1]);
        format!("{}{}{}", sign, inner, n.abs())
    } else if r.chance(1, 20) {
        "n".repeat(r.range(1, 5000))
    } else if r.chance(1, 2) {
        (0..r.range(1, 4)).map(|_| *r.pick(PIECES)).collect()
    } else if r.chance(1, 4) {
        gen::synth(r, 30, &[])
    } else {
        r.pick(&names).to_string()
    }
}

const DOC_METHODS: &[&str] = &[
    "textDocument/documentSymbol", "textDocument/semanticTokens/full", "textDocument/foldingRange",
    "textDocument/codeLens", "textDocument/inlayHint",
];
const POS_METHODS: &[&str] = &[
    "textDocument/definition", "textDocument/declaration", "textDocument/references",
    "textDocument/prepareRename", "textDocument/rename", "textDocument/codeAction",
];

/// A request about a document, as a client would send it
pub fn query(r: &mut Rng, uri: &str, m: &Model) -> (&'static str, Value) {
    let mut q = td(uri);
    if r.chance(2, 5) {
        let method = *r.pick(DOC_METHODS);
        if method == "textDocument/inlayHint" {
            q = if r.chance(3, 4) { shape::hints_request(m, uri) } else {
                q["range"] = jrange(Rng2 { start: position(r, m), end: position(r, m) });
                q
            };
        }
        return (method, q);
    }
    let method = *r.pick(POS_METHODS);
    let p = position(r, m);
    if method == "textDocument/codeAction" {
        let end = if r.chance(1, 3) { position(r, m) } else { p };
        q["range"] = jrange(Rng2 { start: p, end });
        q["context"] = json!({"diagnostics": []});
    } else {
        q["position"] = jpos(p);
        match method {
            "textDocument/references" => q["context"] = json!({"includeDeclaration": r.chance(1, 2)}),
            "textDocument/rename" => q["newName"] = json!(a_name(r)),
            _ => {}
        }
    }
    (method, q)
}

/// Long texts of one shape
fn long_text(r: &mut Rng, max: usize) -> String {
    let n = r.range(1, max);
    let unit = *r.pick(&[
        "$", "(", "[", "{", "}", "\"", "#", "!", ":", "a:", "\n", "\r\n", " ", "@", "%", "0x", "foo bar\n", "\"\n", ", ",
        "define void @f() {\n", "declare void @f()\n", "@f depends on @f\n", "😀", "é", "\u{301}", "define ", "b:\n", "!1 = {\n", "= ", "0",
    ]);
    let body = unit.repeat((n / unit.len()).max(1));
    match r.below(8) {
        0 => format!("define void @f() {{\n{}\n}}\n", body),
        1 => format!("define void @f() {{\n  call @g({})\n}}\n", body),
        2 => format!("!1 = {}\ndefine void @f() {{\n  ret !1\n}}\n", body),
        3 => format!("define void @f() {{\n{}  ret\n}}\n", "  int32 %v1 = add int32 %v1, 1\n".repeat(n / 30)),
        4 => format!("define void @f() {{\n  switch int32 1, default=a{}\n}}\n", ", int32 1 label=b".repeat(n / 17)),
        5 => format!("define void @f() {{\n{}}}\n", (0..n / 12).map(|i| format!("b_{}:\n br b_{}\n", i, i / 2)).collect::<String>()),
        6 => format!("!1 = {{\"backtrace\": {}}}\ndefine void @f() {{\n  ret !1\n}}\n", "[".repeat(n / 8)),
        _ => body,
    }
}

/// A valid document as large as real dumps
fn big_text(r: &mut Rng) -> String {
    let n = r.range(8000, 30000);
    let mut s = String::new();
    match r.below(5) {
        4 => {
            (0..n + 50_000).for_each(|i| s.push_str(if i % 7 == 0 { "# x\n" } else { "\n" }));
            s.push_str("@v = 5 @v\n");
        }
        0 => (0..n).for_each(|i| s.push_str(&format!("@v{} = int32 5 \"a\" @v1\n", i))),
        1 => {
            s.push_str("define void @f() {\n");
            (0..n).for_each(|i| s.push_str(&format!("  int32 %v{} = add int32 5, int32 %v{} !{}\n", i + 1, i, i % 100)));
            s.push_str("}\n");
        }
        2 => (0..n / 5).for_each(|i| s.push_str(&format!("define void @f{}(int32 %a) {{\n b:\n  call @f{}(int32 %a)\n  br b\n}}\n", i, i / 2))),
        _ => {
            s.push_str("define void @f() {\n");
            (0..n / 2).for_each(|i| s.push_str(&format!("b_{}:\n  br int1 %c, b_{}, b_{}\n", i, i / 2, i + 1)));
            s.push_str("}\n");
        }
    }
    s
}

pub fn any_text(r: &mut Rng, repo: &str) -> String {
    match r.below(13) {
        0 if r.chance(1, 200) => big_text(r),
        0 | 12 => gen::doc(r),
        1 => long_text(r, 400),
        2 if r.chance(1, 8) => {
            let n = if r.chance(1, 20) { 30000 } else { 4000 };
            long_text(r, n)
        }
        3 if r.chance(1, 4) => {
            let f = *r.pick(&["fcf.hir", "relation.hir"]);
            let t = std::fs::read_to_string(format!("{}/examples/{}", repo, f)).unwrap_or_default();
            gen::mutate(r, &t)
        }
        4 => String::new(),
        5 => {
            // Any characters at all
            let mut s = String::new();
            for _ in 0..r.below(60) {
                let c = match r.below(4) {
                    0 => char::from_u32(r.below(0x11_0000) as u32),
                    1 => char::from_u32(r.below(0x300) as u32),
                    2 => char::from_u32(r.below(0x80) as u32),
                    _ => Some(*r.pick(&['\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{2029}', '"', '@', '\n', '\r', '9', 'x'])),
                };
                s.extend(c);
            }
            s
        }
        6 => bt_text(r),
        7 => crate::bt::bt_module(r, &mut crate::bt::annotation),
        _ => gen::hostile(r),
    }
}

/// Declarations and instructions with annotations of all kinds
fn bt_text(r: &mut Rng) -> String {
    let mut s = String::from("declare void @f(int32 %a) = 0x12 !1\n");
    for k in 1..r.range(2, 5) {
        let j = match r.below(6) {
            0 => format!("\"{}:{}\"", *r.pick(&["", "a.cpp", "../x", "/", "é", ".", "\t."]), *r.pick(&["0", "1", "4294967295", "4294967296", "-1", "", "x", "99999999999999999999", "٣", "+1", "1 "])),
            1 => "{\"backtrace\": []}".to_string(),
            2 => format!("{{\"backtrace\": [[{}, \"{}:{}\"]]}}", crate::bt::jstr(&crate::bt::mixed(r)), *r.pick(&["a", "hyper/ir/x", "", "/"]), r.below(9)),
            3 => "{\"backtrace\": [null, 1, [], {}, [[]], \"x\", [\"\", \"\"], [\"\", \":\"], [\"a\", \":5\"], [\"\", \"/:5\"]]}".to_string(),
            4 => format!("{{\"backtrace\": [[{}]]}}", crate::bt::jstr(&(crate::bt::mixed(r) + "Translator::consume"))),
            _ => "{\"backtrace\": {\"0\": 1}}".to_string(),
        };
        s.push_str(&format!("!{} = {}\n", k, j));
    }
    s.push_str("define void @g() {\n  call @f() !1\n  ret !2\n  ret !3\n}\n");
    s
}

const URIS: &[&str] = &[
    "file:///a.hir", "file:///A.hir", "file:///dir/b%20c.hir", "untitled:Untitled-1", "file://host/x.hir",
    "file:///%C3%A9.hir", "file:///a.hir#x", "file:///a.hir?y", "git:/x.hir?ref%3DHEAD", "file:///a/../b.hir", "x:", "file:///",
    "data:text/plain,hello", "vscode-notebook-cell:/n.ipynb#c1",
];

/// Different documents whose addresses are alike
const LIKE: &[&str] = &[
    "file:///d/a.hir", "file:///d/A.hir", "file:///d/a.hir/", "file:///d//a.hir", "file:///d/a.hir?", "file:///d/a.hir#", "file:///d/a.hir?x", "file:///d/a.hir#x",
    "file:///d/a.hi", "file:///d/a%2Ehir", "file:///d/%61.hir", "file:///d/a.hir%20", "file:///d/a.hir%2F", "file://h/d/a.hir", "http://d/a.hir", "file:///D/a.hir",
    "file:///d/e/a.hir", "file:///d/a.hir:1", "untitled:a.hir", "untitled:/d/a.hir", "file:///d/%C3%A9.hir", "file:///d/e%CC%81.hir", "vscode:///d/a.hir",
];

/// (method, capability, params without the document)
const OTHER: &[(&str, &str)] = &[
    ("textDocument/hover", "hoverProvider"),
    ("textDocument/completion", "completionProvider"),
    ("textDocument/signatureHelp", "signatureHelpProvider"),
    ("textDocument/typeDefinition", "typeDefinitionProvider"),
    ("textDocument/implementation", "implementationProvider"),
    ("textDocument/documentHighlight", "documentHighlightProvider"),
    ("textDocument/documentLink", "documentLinkProvider"),
    ("textDocument/documentColor", "colorProvider"),
    ("textDocument/formatting", "documentFormattingProvider"),
    ("textDocument/rangeFormatting", "documentRangeFormattingProvider"),
    ("textDocument/onTypeFormatting", "documentOnTypeFormattingProvider"),
    ("textDocument/selectionRange", "selectionRangeProvider"),
    ("textDocument/linkedEditingRange", "linkedEditingRangeProvider"),
    ("textDocument/prepareCallHierarchy", "callHierarchyProvider"),
    ("textDocument/prepareTypeHierarchy", "typeHierarchyProvider"),
    ("textDocument/moniker", "monikerProvider"),
    ("textDocument/inlineValue", "inlineValueProvider"),
    ("textDocument/diagnostic", "diagnosticProvider"),
    ("workspace/symbol", "workspaceSymbolProvider"),
    ("textDocument/semanticTokens/range", "semanticTokensProvider/range"),
    ("textDocument/semanticTokens/full/delta", "semanticTokensProvider/full/delta"),
    ("inlayHint/resolve", "inlayHintProvider/resolveProvider"),
    ("codeLens/resolve", "codeLensProvider/resolveProvider"),
    ("textDocument/definition", "definitionProvider"),
    ("textDocument/declaration", "declarationProvider"),
    ("textDocument/references", "referencesProvider"),
    ("textDocument/documentSymbol", "documentSymbolProvider"),
    ("textDocument/foldingRange", "foldingRangeProvider"),
    ("textDocument/inlayHint", "inlayHintProvider"),
    ("textDocument/codeLens", "codeLensProvider"),
    ("textDocument/rename", "renameProvider"),
    ("textDocument/prepareRename", "renameProvider/prepareProvider"),
    ("textDocument/codeAction", "codeActionProvider"),
    ("textDocument/semanticTokens/full", "semanticTokensProvider/full"),
    ("workspace/executeCommand", "executeCommandProvider"),
];

/// Parameters which suit every method on positions, ranges and documents
fn all_params(uri: &str) -> Value {
    json!({
        "textDocument": {"uri": uri},
        "position": {"line": 0, "character": 0},
        "positions": [{"line": 0, "character": 0}],
        "range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}},
        "context": {"diagnostics": [], "includeDeclaration": true, "frameId": 1, "triggerKind": 1, "isRetrigger": false,
                    "stoppedLocation": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}},
        "options": {"tabSize": 2, "insertSpaces": true},
        "ch": "}", "newName": "abc", "query": "x", "command": "visualize-cfg", "arguments": [], "previousResultId": "1",
        "label": "x", "title": "x",
    })
}

/// Messages beyond the questions about a document
pub fn sundry(r: &mut Rng, uri: &str) -> (&'static str, Value, bool) {
    match r.below(6) {
        0 => {
            let (method, _) = *r.pick(OTHER);
            (method, all_params(uri), true)
        }
        1 => {
            let args = match r.below(6) {
                0 => json!([]),
                1 => json!([uri]),
                2 => json!([1, null]),
                3 => json!([uri, "@nosuch", 1]),
                4 => json!([{"uri": uri}, "@f"]),
                _ => json!([uri, a_name(r)]),
            };
            ("workspace/executeCommand", json!({"command": *r.pick(&["visualize-cfg", "visualize", "", "visualize-cfg-all"]), "arguments": args}), true)
        }
        2 => {
            let m = *r.pick(&["unknown/request", "textDocument/unknown", "workspace/willRenameFiles", "workspace/willCreateFiles", "workspace/willDeleteFiles", "textDocument/willSaveWaitUntil", "completionItem/resolve", "documentLink/resolve"]);
            (m, json!({"textDocument": {"uri": uri}, "reason": 1, "files": [{"uri": uri, "oldUri": uri, "newUri": uri}], "label": "x"}), true)
        }
        3 => {
            let m = *r.pick(&["textDocument/willSave", "textDocument/didSave", "workspace/didRenameFiles", "workspace/didCreateFiles", "workspace/didDeleteFiles", "workspace/didChangeWatchedFiles", "window/workDoneProgress/cancel", "$/setTrace", "workspace/didChangeWorkspaceFolders", "workspace/didChangeConfiguration"]);
            (m, json!({"textDocument": {"uri": uri}, "text": "@x = 1", "reason": 1, "files": [{"uri": uri, "oldUri": uri, "newUri": uri}],
                       "changes": [{"uri": uri, "type": 2}], "token": 1, "value": "verbose", "settings": {"hyper-ir": {"trace": "/nonexistent-hirmon/x", "log": true}},
                       "event": {"added": [], "removed": []}}), false)
        }
        4 => ("textDocument/didSave", json!({"textDocument": {"uri": uri}, "text": "@x = 1"}), false),
        _ => (
            "codeAction/resolve",
            json!({"title": "x", "data": {"shiftNumbering": {"uri": uri, "symbol_kind": *r.pick(&["Function", "GlobalVar", "DbgAnnotation", "Label", "LocalVar"]),
                   "func_body_id": *r.pick(&[json!(null), json!(0), json!(77)]), "renamed_nr": r.below(9)}}}),
            true,
        ),
    }
}

// ---------------------------------------------------------------- C01

fn serve(c: &mut Client, r: &mut Rng) {
    while let Some(q) = c.reqs.pop_front() {
        let id = q["id"].clone();
        match r.below(6) {
            0 => c.reply_err(&id, -32603, "no viewer"),
            1 => c.reply(&id, json!({"extra": [1, 2]})),
            _ => c.reply(&id, json!({})),
        }
        c.count.add("requests_of_the_server_answered", 1);
    }
}

/// Waits for answers while answering the server's own requests
fn collect(c: &mut Client, r: &mut Rng, ids: &mut Vec<i64>) -> Res<Vec<Value>> {
    let mut out = vec![];
    for id in ids.drain(..) {
        loop {
            c.wait("answering a request", |c| c.answered(id) || !c.reqs.is_empty())?;
            serve(c, r);
            if c.answered(id) {
                break;
            }
        }
        out.push(c.answer(id)?);
    }
    Ok(out)
}

/// Requests with a method in the reserved name space: a known finding
fn reserved(w: &mut W) -> Res<()> {
    let c = w.c()?;
    let id = c.send("$/x", json!({}));
    // Requests are taken up in order
    for _ in 0..3 {
        c.request("textDocument/documentSymbol", td("file:///never.hir"))?;
    }
    if c.answered(id) {
        c.answer(id)?;
        return Ok(());
    }
    c.open.remove(&id);
    let key = "request whose method starts with $/";
    if crate::nav::known(&w.ctx, key) {
        w.known.push(key.to_string());
        return w.end();
    }
    bad("a request stays unanswered", json!({"method": "$/x"}))
}

pub fn c01(w: &mut W, r: &mut Rng, i: usize) -> Res<()> {
    if i == 0 {
        reserved(w)?;
    }
    // Some cases start a session of their own kind
    if i % 24 == 0 {
        w.end()?;
        let caps = if r.chance(1, 2) { lazy_caps(Some(vec!["edit"]), Some(true)) } else { json!({}) };
        let mut init = init_caps(caps);
        match r.below(4) {
            0 => init["rootUri"] = json!(*r.pick(&["file:///", "mailto:x", "file:///tmp", "untitled:x", "data:,x", "file://host/"])),
            1 => init["workspaceFolders"] = json!([{"uri": "mailto:x", "name": "a"}, {"uri": "file:///usr/", "name": ""}, {"uri": "http://x/", "name": "b"}]),
            2 => init["workspaceFolders"] = json!([]),
            _ => {}
        }
        w.opts.init = init;
        w.opts.string_ids = r.chance(1, 2);
        w.opts.env = match r.below(4) {
            0 => vec![("RUST_LOG".into(), "trace".into())],
            1 => vec![("RUST_LOG".into(), "debug".into())],
            _ => vec![],
        };
    }
    let repo = w.ctx.repo.clone();
    let mut texts: HashMap<String, Model> = HashMap::new();
    let uris: Vec<&str> = (0..r.range(1, 3)).map(|_| *r.pick(URIS)).collect();
    let mut ids = vec![];
    let mut vis = 0;
    let mut script = String::new();
    let mut published = 0u64;
    let empty = analyse("");
    let mut action: Option<Value> = None;
    let steps = r.range(8, 40);
    let mut got = 0;
    let mut lens: Vec<(i64, &str)> = vec![];
    for _ in 0..steps {
        let uri = *r.pick(&uris);
        let op = r.below(20);
        script.push_str(&format!("{}:{} ", op, uri));
        match op {
            0..=3 => {
                let text = any_text(r, &repo);
                let v = *r.pick(&[0, 1, -1, 7, i64::from(i32::MAX), i64::from(i32::MIN)]);
                script.push_str(&format!("{:x} ", crate::rng::hash_str(&text)));
                if op == 0 || !w.c()?.opened.contains(uri) {
                    w.c()?.open_doc(uri, &text, v);
                    published += 1;
                } else if r.chance(1, 8) {
                    // No content at all
                    w.c()?.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": v}, "contentChanges": []}));
                    continue;
                } else {
                    let mut ch = vec![];
                    for _ in 0..r.below(3) {
                        ch.push(json!({"text": any_text(r, &repo)}));
                    }
                    ch.push(json!({ "text": text }));
                    w.c()?.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": v}, "contentChanges": ch}));
                    published += 1;
                }
                let m = analyse(&text);
                if r.chance(1, 4) {
                    // All about this text
                    for method in DOC_METHODS {
                        let q = if *method == "textDocument/inlayHint" { shape::hints_request(&m, uri) } else { td(uri) };
                        ids.push(w.c()?.send(method, q));
                    }
                    if vis > 0 {
                        got += collect(w.c()?, r, &mut ids)?.len();
                        vis = 0;
                    }
                    for f in m.funcs().take(2) {
                        ids.push(w.c()?.send("workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": [uri, f.name.s]})));
                        vis += 1;
                    }
                }
                texts.insert(uri.to_string(), m);
            }
            4 => {
                let v = match r.below(7) {
                    0 => ("textDocument/didClose", td(uri)),
                    1 => ("textDocument/didSave", td(uri)),
                    2 => ("workspace/didChangeConfiguration", json!({"settings": {"a": [1, null]}})),
                    3 => ("workspace/didChangeWorkspaceFolders", json!({"event": {"added": [{"uri": "file:///x", "name": "x"}], "removed": []}})),
                    4 => ("$/setTrace", json!({"value": "verbose"})),
                    5 => ("$/unknown", json!({"a": 1})),
                    _ => ("unknown/notification", json!([1, 2])),
                };
                w.c()?.notify(v.0, v.1);
            }
            5 => {
                // A request of no supported kind
                let (method, _) = *r.pick(OTHER);
                ids.push(w.c()?.send(method, all_params(uri)));
            }
            6 => {
                let method = *r.pick(&["unknown/request", "textDocument/unknown", "initialize", "completionItem/resolve", "workspace/willRenameFiles"]);
                let p = match r.below(4) {
                    0 => Value::Null,
                    1 => json!([]),
                    2 => json!({}),
                    _ => all_params(uri),
                };
                ids.push(w.c()?.send(method, p));
            }
            7 => {
                // Ask the server to show a graph
                if vis >= 2 {
                    got += collect(w.c()?, r, &mut ids)?.len();
                    vis = 0;
                }
                let f = match texts.get(uri) {
                    Some(m) if r.chance(3, 4) && m.funcs().count() > 0 => {
                        let n = r.below(m.funcs().count());
                        let s = m.funcs().nth(n).unwrap().name.s.clone();
                        s
                    }
                    _ => a_name(r),
                };
                let args = match r.below(10) {
                    0 => json!([]),
                    1 => json!([uri]),
                    2 => json!([1, null]),
                    3 => json!([uri, f, 1]),
                    4 => json!([{"uri": uri}, f]),
                    _ => json!([uri, f]),
                };
                let cmd = if r.chance(1, 10) { "visualize" } else { "visualize-cfg" };
                let id = w.c()?.send("workspace/executeCommand", json!({"command": cmd, "arguments": args}));
                vis += 1;
                ids.push(id);
                if r.chance(1, 5) {
                    let c = w.c()?;
                    let id = c.wire_id(id);
                    c.notify("$/cancelRequest", json!({ "id": id }));
                }
            }
            8 => {
                // Resolve a made-up action, or one of another text
                let mut a = match &action {
                    Some(a) if r.chance(1, 2) => a.clone(),
                    _ => json!({"title": "x", "data": {"shiftNumbering": {
                        "uri": uri, "symbol_kind": *r.pick(&["Function", "GlobalVar", "DbgAnnotation", "Label", "LocalVar", "Nothing"]),
                        "func_body_id": *r.pick(&[json!(null), json!(0), json!(1), json!(2), json!(999999), json!(u64::MAX), json!(-1)]),
                        "renamed_nr": *r.pick(&[json!(0), json!(i64::MAX), json!(i64::MIN), json!(-1), json!("x")])}}}),
                };
                if r.chance(1, 8) {
                    a["data"] = (*r.pick(&[json!(null), json!(1), json!({}), json!([]), json!({"shiftNumbering": 1})])).clone();
                }
                ids.push(w.c()?.send("codeAction/resolve", a));
            }
            9 => {
                // Cancel something, open or not
                let c = w.c()?;
                let id = match ids.last() {
                    Some(id) if r.chance(3, 4) => c.wire_id(*id),
                    _ => json!(*r.pick(&[0, 999999, -1])),
                };
                c.notify("$/cancelRequest", json!({ "id": id }));
            }
            10 if r.chance(1, 3) => {
                // Parameters of a wrong shape
                let m = *r.pick(POS_METHODS);
                let p = (*r.pick(&[json!({}), json!([]), json!({"textDocument": {"uri": "no uri"}}), json!({"textDocument": 1, "position": {"line": -1, "character": 1.5}})])).clone();
                ids.push(w.c()?.send(m, p));
            }
            11 => {
                // Gather what the server offers for later
                let id = w.c()?.send("textDocument/codeLens", td(uri));
                lens.push((id, uri));
                ids.push(id);
            }
            _ => {
                let unopened = r.chance(1, 12);
                let u = if unopened { "file:///never/opened.hir" } else { uri };
                let (m, q) = query(r, u, texts.get(u).unwrap_or(&empty));
                let id = w.c()?.send(m, q);
                ids.push(id);
                if m == "textDocument/codeAction" && action.is_none() {
                    let a = collect(w.c()?, r, &mut ids)?;
                    vis = 0;
                    got += a.len();
                    action = a.last().and_then(|a| a["result"][0].as_object()).map(|o| Value::Object(o.clone()));
                }
            }
        }
        if r.chance(1, 8) {
            got += collect(w.c()?, r, &mut ids)?.len();
            vis = 0;
        }
    }
    got += collect(w.c()?, r, &mut ids)?.len();
    // Everything which was opened or changed has been analysed
    for _ in 0..published {
        w.c()?.diagnostics()?;
    }
    // The server is still of use
    let uri = "file:///sane.hir";
    let text = "@g_1 = 5\ndefine void @sane() {\nb_0:\n  br b_0\n}\n";
    w.version += 1;
    let v = w.version;
    let c = w.c()?;
    c.load(uri, text, v)?;
    let a = c.ok("textDocument/documentSymbol", td(uri))?;
    let m = analyse(text);
    shape::check_outline(w, &a, &m, text)?;
    let p = m.text.pos(m.funcs().next().unwrap().blocks[0].label.as_ref().unwrap().span.0);
    let a = w.c()?.ok("textDocument/definition", tdp(uri, p))?;
    if a.as_array().map_or(0, |a| a.len()) != 1 {
        return bad("navigation is lost", json!({"text": text, "answer": a}));
    }
    w.c()?.notes.clear();
    w.see("documents_analysed", published + 1);
    w.see("requests_answered", got as u64 + 2);
    if got >= 10 {
        w.nontrivial(&script, || json!({"script": clip(&script), "answers": got}));
    }
    if i % 24 == 23 && r.chance(1, 4) {
        w.end()?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C08

/// Answers up to the order of lists of objects
fn norm(v: &Value) -> Value {
    match v {
        Value::Array(a) => {
            let mut a: Vec<Value> = a.iter().map(norm).collect();
            if a.iter().all(|x| x.is_object()) {
                a.sort_by_key(|x| x.to_string());
            }
            Value::Array(a)
        }
        Value::Object(o) => Value::Object(
            o.iter()
                .map(|(k, v)| (k.clone(), if k == "label" { v.clone() } else { norm(v) }))
                .collect(),
        ),
        v => v.clone(),
    }
}

fn answer_norm(a: &Value) -> Value {
    match a.get("result") {
        Some(r) => json!({ "result": norm(r) }),
        None => json!({"error": a["error"]["code"]}),
    }
}

fn is_nothing(a: &Value) -> bool {
    match a.get("result") {
        None => true,
        Some(Value::Null) => true,
        Some(Value::Array(v)) => v.is_empty(),
        Some(Value::Object(o)) => {
            let empty = |k: &str| o.get(k).map_or(true, |v| v.as_array().map_or(v.as_object().map_or(v.is_null(), |o| o.is_empty()), |a| a.is_empty()));
            empty("data") && empty("changes") && empty("documentChanges") && empty("edit")
                && (o.contains_key("data") || o.contains_key("changes") || o.is_empty())
        }
        _ => false,
    }
}

const REF: &str = "file:///reference.hir";

/// The same with another address of the document
fn readdress(v: &Value, from: &str, to: &str) -> Value {
    match v {
        Value::String(s) if s == from => json!(to),
        Value::Array(a) => Value::Array(a.iter().map(|x| readdress(x, from, to)).collect()),
        Value::Object(o) => Value::Object(
            o.iter().map(|(k, x)| (if k == from { to.to_string() } else { k.clone() }, readdress(x, from, to))).collect(),
        ),
        v => v.clone(),
    }
}

/// Two texts which share names, so that stale answers look plausible
fn history_text(r: &mut Rng, prev: &[String]) -> String {
    match r.below(10) {
        0 => String::new(),
        1 if !prev.is_empty() => r.pick(prev).clone(),
        2 | 3 if !prev.is_empty() => {
            let p = r.pick(prev).clone();
            gen::mutate(r, &p)
        }
        4 if !prev.is_empty() => {
            let p = r.pick(prev).clone();
            format!("{}{}", *r.pick(&["\n", "# x\n", "declare void @added_1()\r\n", " "]), p)
        }
        5 => gen::hostile(r),
        6 if r.chance(1, 4) => {
            // Takes a while
            let mut c = Cfg::clean(r);
            c.funcs = 12;
            c.blocks = 12;
            c.instrs = 10;
            let m = gen::module(r, c);
            m.text(r)
        }
        7 => "define void @f() {\nb_0:\n  br b_1\nb_1:\n  br b_0\n}\n".replace("b_1", *r.pick(&["b_1", "b_2", "b_0"])),
        _ => gen::doc(r),
    }
}

pub fn c08(w: &mut W, r: &mut Rng, i: usize) -> Res<()> {
    let lazy = (i / 16) % 2 == 1;
    let init = init_caps(if lazy { lazy_caps(Some(vec!["edit"]), Some(true)) } else { json!({}) });
    w.session(init)?;
    let mut uris: Vec<&str> = vec![];
    let family: &[&str] = if r.chance(1, 2) { &URIS[..9] } else { LIKE };
    if family.len() == LIKE.len() && r.chance(1, 2) {
        uris.push(LIKE[0]);
    }
    for _ in 0..r.range(1, 4) {
        let u = *r.pick(family);
        if !uris.contains(&u) {
            uris.push(u);
        }
    }
    // Rarely, there are very many documents
    let many: Vec<String> = if i % 400 == 7 {
        (0..*r.pick(&[40usize, 80, 160, 300])).map(|n| format!("file:///many/{}.hir", n)).collect()
    } else {
        vec![]
    };
    struct Q {
        id: i64,
        uri: String,
        /// Index into `texts`
        text: Option<usize>,
        method: &'static str,
        params: Value,
    }
    let mut texts: Vec<String> = vec![];
    let mut models: Vec<Model> = vec![];
    let mut cur: HashMap<String, (usize, i64)> = HashMap::new();
    let mut diags: Vec<(String, i64, usize)> = vec![];
    let mut qs: Vec<Q> = vec![];
    let mut script: Vec<String> = vec![];
    let mut versions = 0;
    let empty = analyse("");
    for _ in 0..r.range(6, 30) {
        let uri = *r.pick(&uris);
        let known = cur.get(uri).copied();
        if r.chance(1, 3) || known.is_none() {
            let mut next = |r: &mut Rng, texts: &mut Vec<String>| {
                let t = history_text(r, texts);
                match texts.iter().position(|x| *x == t) {
                    Some(k) => k,
                    None => {
                        models.push(analyse(&t));
                        texts.push(t);
                        texts.len() - 1
                    }
                }
            };
            let n = r.below(10);
            match known {
                None => {
                    // A client closes a document before it opens it again
                    let old = w.c()?.opened.contains(uri);
                    if old {
                        w.c()?.notify("textDocument/didClose", td(uri));
                    }
                    let k = next(r, &mut texts);
                    let v = *r.pick(&[0, 1, 1, 5, 100, -1, -7, i64::from(i32::MIN), i64::from(i32::MAX) - 100_000]);
                    w.c()?.open_doc(uri, &texts[k], v);
                    cur.insert(uri.to_string(), (k, v));
                    diags.push((uri.to_string(), v, k));
                    script.push(format!("open {} v{} t{}", uri, v, k));
                    versions += 1;
                }
                Some((_, v)) if n == 0 => {
                    let v = v + 1;
                    w.c()?.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": v}, "contentChanges": []}));
                    cur.get_mut(uri).unwrap().1 = v;
                    script.push(format!("empty change {} v{}", uri, v));
                }
                Some(_) if n == 1 => {
                    w.c()?.notify("textDocument/didClose", td(uri));
                    let k = next(r, &mut texts);
                    let v = *r.pick(&[0, 1, 1, 2, -3]);
                    w.c()?.open_doc(uri, &texts[k], v);
                    cur.insert(uri.to_string(), (k, v));
                    diags.push((uri.to_string(), v, k));
                    script.push(format!("reopen {} v{} t{}", uri, v, k));
                    versions += 1;
                }
                Some((_, v)) => {
                    let v = v + 1 + if r.chance(1, 5) { r.below(1000) as i64 } else { 0 };
                    let mut ch = vec![];
                    if n == 2 || n == 3 {
                        for _ in 0..r.range(1, 3) {
                            let k = next(r, &mut texts);
                            ch.push(json!({ "text": texts[k] }));
                        }
                    }
                    let k = next(r, &mut texts);
                    ch.push(json!({ "text": texts[k] }));
                    script.push(format!("change {} v{} t{} ({})", uri, v, k, ch.len()));
                    w.c()?.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": v}, "contentChanges": ch}));
                    cur.insert(uri.to_string(), (k, v));
                    diags.push((uri.to_string(), v, k));
                    versions += 1;
                }
            }
        } else {
            let n = r.range(1, 4);
            for _ in 0..n {
                if r.chance(1, 10) {
                    let never = ["file:///never.hir", "file:///a.HIR", "file:///dir/", "untitled:Untitled-2"];
                    let u = *r.pick(&never);
                    let (m, q) = query(r, u, &empty);
                    let id = w.c()?.send(m, q.clone());
                    qs.push(Q { id, uri: u.into(), text: None, method: m, params: q });
                    continue;
                }
                let u = *r.pick(&uris);
                let k = match cur.get(u) {
                    Some((k, _)) => *k,
                    None => continue,
                };
                let (m, q) = query(r, u, &models[k]);
                let id = w.c()?.send(m, q.clone());
                qs.push(Q { id, uri: u.into(), text: Some(k), method: m, params: q });
            }
            script.push(format!("{} queries", n));
        }
        if r.chance(1, 15) {
            let c = w.c()?;
            match r.below(3) {
                0 => c.notify("textDocument/didSave", td(uri)),
                1 => c.notify("$/setTrace", json!({"value": "off"})),
                _ => c.notify("workspace/didChangeConfiguration", json!({"settings": {}})),
            }
        }
    }
    if !many.is_empty() && !texts.is_empty() {
        for (n, u) in many.iter().enumerate() {
            let t = format!("@many_{} = 5\n@many_{} = @x\n", n, n % 3);
            models.push(analyse(&t));
            texts.push(t);
            let k = texts.len() - 1;
            let v = n as i64;
            w.c()?.open_doc(u, &texts[k], v);
            diags.push((u.clone(), v, k));
            cur.insert(u.clone(), (k, v));
        }
        script.push(format!("open {} more", many.len()));
        versions += many.len() as u64;
        // The first and the last, and the ones opened before
        let mut ask: Vec<String> = uris.iter().filter(|u| cur.contains_key(**u)).map(|u| u.to_string()).collect();
        ask.extend(many.iter().take(3).cloned());
        ask.extend(many.iter().rev().take(3).cloned());
        for u in ask {
            let k = cur[&u].0;
            for _ in 0..4 {
                let (m, q) = query(r, &u, &models[k]);
                let id = w.c()?.send(m, q.clone());
                qs.push(Q { id, uri: u.clone(), text: Some(k), method: m, params: q });
            }
        }
        w.see("histories_over_many_documents", 1);
    }
    // What came back
    let history = |extra: Value| json!({"history": script, "texts": texts, "mismatch": extra});
    let mut answers = vec![];
    for q in &qs {
        answers.push(w.c()?.answer(q.id)?);
    }
    let mut got = vec![];
    for _ in &diags {
        got.push(w.c()?.diagnostics()?);
    }
    // A barrier: nothing else may be published
    w.c()?.request("textDocument/documentSymbol", td("file:///never.hir"))?;
    while let Some(n) = w.c()?.notes.pop_front() {
        if n["method"] == "textDocument/publishDiagnostics" {
            return bad("more diagnostics than documents sent", history(n));
        }
    }
    for (d, (uri, v, _)) in got.iter().zip(&diags) {
        if d["uri"] != **uri || d["version"] != *v {
            return bad(
                "diagnostics out of order, or for another document or version",
                history(json!({"expected": [uri, v], "got": [d["uri"], d["version"]]})),
            );
        }
    }
    // A fresh server per document and text answers the same
    let mut need: BTreeMap<(String, usize), (Vec<usize>, Vec<usize>)> = BTreeMap::new();
    for (n, (u, _, k)) in diags.iter().enumerate() {
        need.entry((u.clone(), *k)).or_default().0.push(n);
    }
    for (n, q) in qs.iter().enumerate() {
        match q.text {
            Some(k) => need.entry((q.uri.clone(), k)).or_default().1.push(n),
            None => {
                if !is_nothing(&answers[n]) {
                    return bad("an answer about a document never opened", history(json!({"method": q.method, "params": q.params, "answer": answers[n]})));
                }
                w.see("answers_about_unopened_documents", 1);
            }
        }
    }
    for ((uri, k), (ds, qn)) in &need {
        // under whatever address
        let mut f = Client::start(&w.opts)?;
        f.open_doc(REF, &texts[*k], 1);
        let ids: Vec<i64> = qn.iter().map(|n| f.send(qs[*n].method, readdress(&qs[*n].params, uri, REF))).collect();
        let d = readdress(&f.diagnostics()?, REF, uri);
        let want = norm(&d["diagnostics"]);
        for n in ds {
            if norm(&got[*n]["diagnostics"]) != want {
                return bad("the diagnostics are not those of the latest text", history(json!({"uri": uri, "version": diags[*n].1, "text": texts[*k], "got": got[*n], "expected": d["diagnostics"]})));
            }
            w.see("diagnostics_compared", 1);
        }
        for (n, id) in qn.iter().zip(ids) {
            let e = readdress(&f.answer(id)?, REF, uri);
            if answer_norm(&e) != answer_norm(&answers[*n]) {
                return bad("an answer is not determined by the latest text", history(json!({"uri": uri, "text": texts[*k], "method": qs[*n].method, "params": qs[*n].params, "got": answers[*n], "expected": e})));
            }
            w.see("answers_compared", 1);
            if !is_nothing(&e) {
                w.see("answers_compared_nonempty", 1);
            }
        }
        w.see("fresh_reference_sessions", 1);
    }
    w.see("versions_sent", versions);
    if versions >= 2 && qs.len() >= 2 {
        let key = script.join(";");
        w.nontrivial(&format!("{}{:?}", key, texts), || json!({"history": script}));
    }
    Ok(())
}

// ---------------------------------------------------------------- C14

struct Cmd {
    id: i64,
    name: String,
    edges: BTreeSet<(String, String)>,
    text: String,
    /// The server's request
    req: Option<Value>,
}

fn graph_text(r: &mut Rng) -> String {
    let mut c = Cfg::clean(r);
    c.funcs = c.funcs.clamp(1, 4);
    c.blocks = c.blocks.max(3);
    c.instrs = c.instrs.max(3);
    for _ in 0..5 {
        let t = gen::module(r, c.clone()).text(r);
        let m = analyse(&t);
        if m.valid && !m.collision && m.funcs().count() > 0 {
            return t;
        }
    }
    "define void @f() {\nb_0:\n  br b_1\nb_1:\n  br b_0\n}\n".into()
}

/// Takes the server's requests and finds the command each belongs to
fn match_requests(c: &mut Client, cmds: &mut [Cmd]) -> Res<()> {
    while let Some(q) = c.reqs.pop_front() {
        if q["method"] != "hyperir/showDot" {
            return bad("an unexpected request of the server", q);
        }
        let title = q["params"]["title"].as_str().unwrap_or("").to_string();
        let edges = q["params"]["dotGraph"].as_str().and_then(shape::dot_edges);
        let mut best: Option<usize> = None;
        for (k, x) in cmds.iter().enumerate() {
            if x.req.is_none() && title.contains(&x.name) && edges.as_ref() == Some(&x.edges)
                && best.map_or(true, |b| cmds[b].name.len() < x.name.len())
            {
                best = Some(k);
            }
        }
        match best {
            Some(k) => cmds[k].req = Some(q),
            None => {
                let open: Vec<Value> = cmds.iter().filter(|x| x.req.is_none())
                    .map(|x| json!({"function": x.name, "edges": x.edges, "text": x.text})).collect();
                return bad("a graph which belongs to no open command", json!({"request": q, "open_commands": open}));
            }
        }
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ends {
    Success,
    Failure,
    Cancelled,
    Either,
}

pub fn c14(w: &mut W, r: &mut Rng, i: usize) -> Res<()> {
    let uris = ["file:///g/a.hir", "file:///g/b.hir"];
    let mut cur: Vec<Model> = vec![];
    let mut txt: Vec<String> = vec![];
    for u in uris {
        let t = graph_text(r);
        w.version += 1;
        let v = w.version;
        let c = w.c()?;
        if c.opened.contains(u) {
            c.change_doc(u, &t, v);
        } else {
            c.open_doc(u, &t, v);
        }
        cur.push(analyse(&t));
        txt.push(t);
    }
    let mut published = uris.len();
    let mut cmds: Vec<Cmd> = vec![];
    // Commands whose answer is due: id, how it has to end
    let mut due: Vec<(i64, Ends)> = vec![];
    let mut script: Vec<String> = vec![];
    let mut answered_meanwhile = 0;
    let limit = 3;
    for _ in 0..r.range(10, 40) {
        let k = r.below(uris.len());
        let uri = uris[k];
        match r.below(12) {
            0..=3 => {
                // Issue commands
                if r.chance(1, 6) {
                    let a = match r.below(4) {
                        0 => json!([uri, "@no such function"]),
                        1 => json!(["file:///never.hir", "@f"]),
                        2 => json!([uri]),
                        _ => json!([]),
                    };
                    if cmds.len() < limit {
                        let a2 = w.c()?.request("workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": a}))?;
                        if a2.get("error").is_none() {
                            return bad("an impossible command succeeds", json!({"arguments": a, "answer": a2}));
                        }
                        script.push("impossible command".into());
                    }
                    continue;
                }
                if cmds.len() >= limit {
                    continue;
                }
                let m = &cur[k];
                let n = m.funcs().count();
                if n == 0 {
                    continue;
                }
                let x = r.below(n);
                let f = m.funcs().nth(x).unwrap();
                if m.funcs().filter(|g| g.name.s == f.name.s).count() > 1
                    || cmds.iter().any(|c| c.req.is_none() && (c.name.contains(&f.name.s) || f.name.s.contains(&c.name)))
                {
                    continue;
                }
                let (name, edges) = (f.name.s.clone(), shape::model_edges(f));
                let id = w.c()?.send("workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": [uri, name]}));
                script.push(format!("command {} {}", id, name));
                cmds.push(Cmd { id, name, edges, text: txt[k].clone(), req: None });
            }
            4 | 5 => {
                // Reply to one of the open requests
                if cmds.is_empty() {
                    continue;
                }
                let x = r.below(cmds.len());
                if cmds[x].req.is_none() {
                    loop {
                        match_requests(w.c()?, &mut cmds)?;
                        if cmds[x].req.is_some() {
                            break;
                        }
                        w.c()?.wait("asking for the display of a graph", |c| !c.reqs.is_empty())?;
                    }
                }
                let cmd = cmds.remove(x);
                let q = cmd.req.unwrap();
                let ok = r.chance(2, 3);
                let c = w.c()?;
                if ok {
                    c.reply(&q["id"], json!({}));
                } else {
                    c.reply_err(&q["id"], *r.pick(&[-32603i64, -32601, 1, -32800, -32801, -32802, -32803, -32002, -32700, -32600, -32602, 0, -1]), *r.pick(&["no viewer", "", "é\n`x`", "Request cancelled", "canceled", "method not found", "Method not found", "content modified", "ok", "null", "server not initialized"]));
                }
                let mut ends = if ok { Ends::Success } else { Ends::Failure };
                if r.chance(1, 8) {
                    // A late cancellation
                    let id = c.wire_id(cmd.id);
                    c.notify("$/cancelRequest", json!({ "id": id }));
                    ends = Ends::Either;
                }
                script.push(format!("reply {} {:?}", cmd.id, ends));
                due.push((cmd.id, ends));
                w.see("graphs_checked", 1);
            }
            6 => {
                if cmds.is_empty() {
                    continue;
                }
                let x = r.below(cmds.len());
                if cmds[x].req.is_none() {
                    match_requests(w.c()?, &mut cmds)?;
                }
                if cmds[x].req.is_none() {
                    w.c()?.wait("asking for the display of a graph", |c| !c.reqs.is_empty())?;
                    match_requests(w.c()?, &mut cmds)?;
                    if cmds[x].req.is_none() {
                        continue;
                    }
                }
                let cmd = cmds.remove(x);
                let c = w.c()?;
                let id = c.wire_id(cmd.id);
                c.notify("$/cancelRequest", json!({ "id": id }));
                script.push(format!("cancel {}", cmd.id));
                let q = cmd.req.unwrap();
                match r.below(3) {
                    0 => due.push((cmd.id, Ends::Cancelled)),
                    1 => {
                        // The client replies all the same, at once
                        c.reply(&q["id"], json!({}));
                        due.push((cmd.id, Ends::Either));
                    }
                    _ => {
                        // ... or once the cancellation is through
                        check_due(w, &mut vec![(cmd.id, Ends::Cancelled)], &script)?;
                        let c = w.c()?;
                        match r.below(2) {
                            0 => c.reply(&q["id"], json!({})),
                            _ => c.reply_err(&q["id"], -32800, "cancelled"),
                        }
                        script.push(format!("late reply {}", cmd.id));
                        w.see("replies_after_cancellation", 1);
                    }
                }
            }
            7 | 8 => {
                // Edit a document, maybe away from the functions on display
                let t = if r.chance(1, 6) { String::new() } else { graph_text(r) };
                w.version += 1;
                let v = w.version;
                w.c()?.change_doc(uri, &t, v);
                cur[k] = analyse(&t);
                txt[k] = t;
                published += 1;
                script.push(format!("edit {} ({} open)", uri, cmds.len()));
                if r.chance(1, 2) {
                    while published > 0 {
                        let d = w.c()?.diagnostics()?;
                        if published == 1 && d["version"] != v {
                            return bad("diagnostics of another version", json!({"script": script, "got": d, "version": v}));
                        }
                        published -= 1;
                    }
                    if !cmds.is_empty() {
                        answered_meanwhile += 1;
                    }
                }
            }
            9 | 10 => {
                // Any request is answered meanwhile
                let a = w.c()?.ok("textDocument/documentSymbol", td(uri))?;
                shape::check_outline(w, &a, &cur[k], &txt[k])?;
                let n = r.range(1, 3);
                for _ in 0..n {
                    let (m, q) = query(r, uri, &cur[k]);
                    w.c()?.request(m, q)?;
                }
                script.push(format!("{} queries ({} open)", n + 1, cmds.len()));
                if !cmds.is_empty() {
                    answered_meanwhile += n + 1;
                    w.see("requests_answered_while_waiting", n as u64 + 1);
                }
                w.see(&format!("graph_requests_open_{}", cmds.len()), 1);
            }
            _ => {
                if r.chance(1, 2) {
                    std::thread::sleep(std::time::Duration::from_millis(r.below(4) as u64));
                }
                w.c()?.poll()?;
                match_requests(w.c()?, &mut cmds)?;
            }
        }
        if r.chance(1, 5) {
            check_due(w, &mut due, &script)?;
        }
    }
    // All commands still open need their graphs
    while cmds.iter().any(|x| x.req.is_none()) {
        w.c()?.wait("asking for the display of a graph", |c| !c.reqs.is_empty())?;
        match_requests(w.c()?, &mut cmds)?;
    }
    check_due(w, &mut due, &script)?;
    while published > 0 {
        w.c()?.diagnostics()?;
        published -= 1;
    }
    if i % 10 == 9 {
        // The session ends while the client has not replied
        let c = w.c()?;
        c.optional = cmds.iter().map(|x| x.id).collect();
        script.push(format!("end with {} open", cmds.len()));
        w.see("sessions_ended_with_open_commands", u64::from(!cmds.is_empty()));
        w.end()?;
    } else {
        r.shuffle(&mut cmds);
        for x in cmds {
            let q = x.req.unwrap();
            w.c()?.reply(&q["id"], json!({}));
            due.push((x.id, Ends::Success));
        }
        check_due(w, &mut due, &script)?;
        w.c()?.poll()?;
        if let Some(q) = w.c()?.reqs.pop_front() {
            return bad("a graph nobody asked for", json!({"request": q, "script": script}));
        }
        if let Some(n) = w.c()?.notes.iter().find(|n| n["method"] == "textDocument/publishDiagnostics").cloned() {
            return bad("diagnostics nobody asked for", json!({"notification": n, "script": script}));
        }
    }
    if answered_meanwhile > 0 {
        let key = format!("{:?}{:?}", script, txt);
        w.nontrivial(&key, || json!({"schedule": script, "answered_meanwhile": answered_meanwhile}));
    }
    Ok(())
}

fn check_due(w: &mut W, due: &mut Vec<(i64, Ends)>, script: &[String]) -> Res<()> {
    for (id, ends) in due.drain(..) {
        let a = w.c()?.answer(id)?;
        let good = match ends {
            Ends::Success => a.get("result").is_some(),
            Ends::Failure => a.get("error").is_some() && a["error"]["code"] != -32800,
            Ends::Cancelled => a["error"]["code"] == -32800,
            Ends::Either => true,
        };
        if !good {
            return bad("a command does not end as the client replied", json!({"script": script, "command": id, "expected": format!("{:?}", ends), "answer": a}));
        }
        w.see(&format!("commands_{:?}", ends).to_lowercase(), 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- C16

fn capability<'a>(caps: &'a Value, path: &str) -> bool {
    let mut v = caps;
    for k in path.split('/') {
        v = &v[k];
    }
    match v {
        Value::Null | Value::Bool(false) => false,
        _ => true,
    }
}

fn refused(a: &Value) -> bool {
    a.get("error").is_some()
}

pub fn c16(w: &mut W, r: &mut Rng, i: usize) -> Res<()> {
    w.end()?;
    // All combinations of what the client says about code actions
    let res: [Option<Vec<&str>>; 7] = [
        None, Some(vec![]), Some(vec!["edit"]), Some(vec!["command"]), Some(vec!["command", "edit"]),
        Some(vec!["edits", "Edit", ""]), Some(vec!["edit", "command", "isPreferred"]),
    ];
    let data = [None, Some(false), Some(true)];
    let k = i % 24;
    let (caps, lazy) = if k < 21 {
        let (a, b) = (res[k % 7].clone(), data[k / 7]);
        let lazy = a.as_ref().map_or(false, |v| v.contains(&"edit")) && b == Some(true);
        let mut caps = lazy_caps(a, b);
        if r.chance(1, 2) {
            caps["textDocument"]["codeAction"]["codeActionLiteralSupport"] = json!({"codeActionKind": {"valueSet": ["", "quickfix", "refactor"]}});
            caps["textDocument"]["codeAction"]["dynamicRegistration"] = json!(true);
        }
        for other in ["disabledSupport", "isPreferredSupport", "honorsChangeAnnotations"] {
            if r.chance(1, 3) {
                caps["textDocument"]["codeAction"][other] = json!(r.chance(2, 3));
            }
        }
        (caps, lazy)
    } else {
        ([json!({}), json!({"textDocument": {}}), json!({"textDocument": {"synchronization": {}}, "workspace": {}})][k - 21].clone(), false)
    };
    let mut init = init_caps(caps.clone());
    if r.chance(1, 3) {
        init["capabilities"]["general"] = json!({"positionEncodings": (*r.pick(&[json!(["utf-8"]), json!(["utf-32", "utf-8", "utf-16"]), json!(["utf-16"]), json!([])])).clone()});
    }
    if r.chance(1, 3) {
        init["trace"] = json!(*r.pick(&["off", "messages", "verbose"]));
        init["clientInfo"] = json!({"name": "é", "version": "1"});
    }
    match r.below(5) {
        0 => init["workspaceFolders"] = json!(null),
        1 => init["workspaceFolders"] = json!([]),
        2 => init["rootPath"] = json!("/tmp"),
        _ => {}
    }
    w.opts.init = init.clone();
    let level = *r.pick(&["", "error", "debug", "trace", "hyper_ir_lsp=trace,tower_lsp=trace", "nonsense"]);
    w.opts.env = if level.is_empty() { vec![] } else { vec![("RUST_LOG".to_string(), level.to_string())] };
    if r.chance(1, 4) {
        w.opts.env.push(("RUST_BACKTRACE".to_string(), "1".to_string()));
    }
    w.opts.string_ids = r.chance(1, 4);
    let mut c = Client::spawn(&w.opts)?;
    w.see("server_sessions", 1);
    let mut script: Vec<String> = vec![format!("RUST_LOG={}", level), caps.to_string()];
    let out = lifecycle(w, r, &mut c, &init, lazy, &mut script);
    w.count.merge(&c.count);
    out?;
    let key = script.join(";");
    w.nontrivial(&key, || json!({ "script": script }));
    Ok(())
}

fn lifecycle(w: &mut W, r: &mut Rng, c: &mut Client, init: &Value, lazy: bool, script: &mut Vec<String>) -> Res<()> {
    let uri = "file:///l.hir";
    let text = "@g_1 = 5 # é\ndeclare int32 @d_1(int32 %a) = 0x1 !1\ndefine void @f() {\nb_0:\n  int32 %v1 = call @d_1(int32 5)\n  br b_0\n}\n!1 = \"x\"\n";
    let m = analyse(text);
    // Before initialization
    for _ in 0..r.below(4) {
        match r.below(5) {
            0 => {
                c.open_doc(uri, text, 1);
                script.push("early open".into());
            }
            1 => {
                let a = c.request("shutdown", Value::Null)?;
                script.push("early shutdown".into());
                if !refused(&a) {
                    return bad("a request before initialization was not refused", json!({"script": script, "answer": a}));
                }
            }
            2 => {
                let method = "unknown/x";
                let a = c.request(method, json!({}))?;
                script.push(format!("early {}", method));
                if !refused(&a) {
                    return bad("a request before initialization was not refused", json!({"script": script, "answer": a}));
                }
            }
            _ => {
                let (method, p) = match r.below(3) {
                    0 => (r.pick(OTHER).0, all_params(uri)),
                    1 => query(r, uri, &m),
                    _ => ("codeAction/resolve", json!({"title": "x", "data": {}})),
                };
                let a = c.request(method, p)?;
                script.push(format!("early {}", method));
                if !refused(&a) {
                    return bad("a request before initialization was not refused", json!({"script": script, "answer": a}));
                }
                w.see("early_requests_refused", 1);
            }
        }
    }
    if r.chance(1, 15) {
        // Gone before it began
        c.notify("exit", Value::Null);
        c.close_stdin();
        c.wait_eof()?;
        script.push("early exit".into());
        return ends(c, script);
    }
    let a = c.request("initialize", init.clone())?;
    let info = match a.get("result") {
        Some(x) => x.clone(),
        None => return bad("initialize failed", json!({"script": script, "answer": a})),
    };
    let caps = &info["capabilities"];
    // Full synchronisation with opening
    let sync = &caps["textDocumentSync"];
    if !(sync == 1 || (sync["change"] == 1 && sync["openClose"] == true)) {
        return bad("not advertising full synchronisation", json!({ "textDocumentSync": sync }));
    }
    if !(caps["positionEncoding"].is_null() || caps["positionEncoding"] == "utf-16") {
        return bad("advertising another position encoding", caps.clone());
    }
    let legend: Vec<String> = caps["semanticTokensProvider"]["legend"]["tokenTypes"]
        .as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
    if legend.is_empty() || legend.iter().any(|x| x.is_empty()) || legend.iter().collect::<BTreeSet<_>>().len() != legend.len() {
        return bad("no usable legend", caps["semanticTokensProvider"].clone());
    }
    if capability(caps, "codeActionProvider/resolveProvider") != lazy {
        return bad("resolving of actions is not advertised as negotiated", json!({"client": init["capabilities"], "server": caps["codeActionProvider"]}));
    }
    c.server_info = info.clone();
    if r.chance(5, 6) {
        c.notify("initialized", json!({}));
    }
    c.open_doc(uri, text, 1);
    let d = c.diagnostics()?;
    if d["uri"] != uri || d["version"] != 1 {
        return bad("not the diagnostics of the first document", json!({"script": script, "got": d}));
    }
    // Every feature: advertised if and only if answered
    for (method, cap) in OTHER {
        let mut p = all_params(uri);
        if method.ends_with("/resolve") {
            p = json!({"range": p["range"], "position": p["position"], "label": "x", "title": "x"});
        }
        if *method == "textDocument/rename" {
            p["position"] = jpos(m.text.pos(m.funcs().next().unwrap().name.span.0 + 1));
        }
        let a = c.request(method, p)?;
        let has = capability(caps, cap);
        let unknown = a["error"]["code"] == -32601;
        // A resolve request with these parameters may be refused for another reason
        if has == unknown {
            return bad(
                if has { "an advertised feature is not answered" } else { "an answered feature is not advertised" },
                json!({"method": method, "capability": cap, "capabilities": caps, "answer": a}),
            );
        }
        w.see("features_checked", 1);
    }
    let a = c.request("unknown/method", json!({}))?;
    if a["error"]["code"] != -32601 {
        return bad("an unknown method is not refused as such", a);
    }
    // Initialize only once
    if r.chance(1, 3) {
        let a = c.request("initialize", init.clone())?;
        if !refused(&a) {
            return bad("a second initialize was not refused", a);
        }
        script.push("second initialize".into());
    }
    // The lenses use an advertised command
    let commands = caps["executeCommandProvider"]["commands"].as_array().cloned().unwrap_or_default();
    let lenses = c.ok("textDocument/codeLens", td(uri))?;
    let mut offered = 0;
    for l in lenses.as_array().cloned().unwrap_or_default() {
        offered += 1;
        if !commands.contains(&l["command"]["command"]) {
            return bad("a lens with a command which is not advertised", json!({"lens": l, "commands": commands}));
        }
        if r.chance(1, 2) {
            let id = c.send("workspace/executeCommand", json!({"command": l["command"]["command"], "arguments": l["command"]["arguments"]}));
            let q = c.server_request()?;
            c.reply(&q["id"], json!({}));
            let a = c.answer(id)?;
            if a.get("result").is_none() {
                return bad("the command of a lens is refused", json!({"lens": l, "answer": a}));
            }
            script.push("lens".into());
        }
    }
    if offered == 0 {
        return bad("no lens for a function", lenses);
    }
    // Tokens decode under the legend
    let t = c.ok("textDocument/semanticTokens/full", td(uri))?;
    let n = legend.len() as u64;
    let data: Vec<u64> = t["data"].as_array().cloned().unwrap_or_default().iter().map(|x| x.as_u64().unwrap_or(u64::MAX)).collect();
    if data.len() < 5 || data.len() % 5 != 0 || data.chunks(5).any(|x| x[3] >= n || x[4] != 0) {
        return bad("tokens do not decode under the legend", json!({"legend": legend, "data": data}));
    }
    shape::check_tokens_legend(w, &legend, t, &m, text)?;
    // Code actions as negotiated
    for (_, k) in m.occ.values().filter(|x| x.1.name.ends_with(|c: char| c.is_ascii_digit())).take(4) {
        let p = m.text.pos(m.syms[k].all()[0].0 + 1);
        let mut q = td(uri);
        q["range"] = jrange(Rng2 { start: p, end: p });
        q["context"] = json!({"diagnostics": []});
        let a = c.ok("textDocument/codeAction", q)?;
        let list = a.as_array().cloned().unwrap_or_default();
        if list.is_empty() {
            return bad("no action on a numbered symbol", json!({"symbol": format!("{:?}", k), "answer": a}));
        }
        for x in list {
            let has_edit = x.get("edit").map_or(false, |e| !e.is_null());
            let has_data = x.get("data").map_or(false, |e| !e.is_null());
            if has_edit == lazy || (lazy && !has_data) {
                return bad("the action is not delivered as negotiated", json!({"client": init["capabilities"], "action": x, "lazy": lazy}));
            }
            if lazy {
                let y = c.ok("codeAction/resolve", x.clone())?;
                if y["edit"]["changes"].as_object().map_or(true, |o| o.is_empty()) {
                    return bad("a resolved action has no edit", y);
                }
            }
            w.see(if lazy { "lazy_actions" } else { "eager_actions" }, 1);
        }
    }
    // Noise on the way
    for _ in 0..r.below(4) {
        let t = gen::hostile(r);
        c.open_doc("file:///noise.hir", &t, 2);
        c.diagnostics()?;
        for _ in 0..3 {
            let (m2, q) = query(r, "file:///noise.hir", &analyse(&t));
            c.request(m2, q)?;
        }
    }
    // The end
    let down = r.chance(4, 5);
    if down {
        let a = c.request("shutdown", Value::Null)?;
        if refused(&a) {
            return bad("shutdown was refused", json!({"script": script, "answer": a}));
        }
        for _ in 0..r.below(4) {
            let (method, p) = match r.below(4) {
                0 => ("shutdown", Value::Null),
                1 => ("initialize", init.clone()),
                2 => (r.pick(OTHER).0, all_params(uri)),
                _ => query(r, uri, &m),
            };
            let a = c.request(method, p)?;
            script.push(format!("late {}", method));
            if !refused(&a) {
                return bad("a request after shutdown was not refused", json!({"script": script, "answer": a}));
            }
            w.see("late_requests_refused", 1);
        }
    } else {
        script.push("no shutdown".into());
    }
    if r.chance(5, 6) {
        c.notify("exit", Value::Null);
    } else {
        script.push("no exit".into());
    }
    c.close_stdin();
    c.wait_eof()?;
    ends(c, script)
}

fn ends(c: &mut Client, script: &[String]) -> Res<()> {
    if c.wait_exit(std::time::Duration::from_secs(60)).is_none() {
        return bad("the process stays after the end of the session", json!({ "script": script }));
    }
    if !c.open.is_empty() {
        return bad("requests left unanswered at the end", json!({"script": script, "open": c.open.values().collect::<Vec<_>>()}));
    }
    Ok(())
}
