//! Monitors for backtrace hints (C12) and source links (C13).

use crate::client::{bad, Res};
use crate::gen::{self, Cfg};
use crate::model::{analyse, Model, Stmt};
use crate::rng::Rng;
use crate::run::*;
use crate::shape::{clip, hints_request};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

// ---------------------------------------------------------------- the reference

#[derive(Clone, Debug, PartialEq)]
pub struct Frame {
    symbol: String,
    file: Option<(String, u32)>,
    /// Nothing is known about how this frame has to look like
    odd: bool,
}

fn short(p: &str) -> &str {
    match p.rfind(|c| c == '/' || c == '\\') {
        Some(i) => &p[i + 1..],
        None => p,
    }
}

fn file_line(s: &str) -> Option<(String, u32)> {
    let v: Vec<&str> = s.split(':').collect();
    if v.len() != 2 || v[1].is_empty() || !v[1].chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    Some((v[0].to_string(), v[1].parse().ok()?))
}

fn frames(v: &Value) -> Option<Vec<Frame>> {
    let a = v.as_object()?.get("backtrace")?.as_array()?;
    Some(
        a.iter()
            .map(|f| {
                let item = |i: usize| f.as_array().and_then(|f| f.get(i)).and_then(|x| x.as_str());
                let link = item(1);
                let symbol = match (item(0), link) {
                    (Some(s), _) if !s.is_empty() => s.to_string(),
                    (_, Some(l)) => short(l).to_string(),
                    _ => "<invalid>".to_string(),
                };
                let file = link.and_then(file_line);
                let odd = symbol.is_empty()
                    || file.as_ref().map_or(false, |f| short(&f.0).is_empty())
                    || link.map_or(false, |l| l.contains(":+"));
                Frame { symbol, file, odd }
            })
            .collect(),
    )
}

fn relevant(f: &[Frame]) -> Option<usize> {
    for p in [
        "Translator::consume",
        "Translator::produceMaterializedResult",
        "Translator::drivePipeline",
        "Translator::deriveValue",
        "Translator::",
    ] {
        if let Some(i) = f.iter().position(|f| f.symbol.contains(p)) {
            return Some(i);
        }
    }
    f.iter().position(|f| {
        f.file
            .as_ref()
            .map_or(false, |x| !x.0.contains("hyper/ir/") && !x.0.contains("hyper/codegen"))
    })
}

/// A parsed line of a tooltip
#[derive(Debug)]
struct Shown {
    code: String,
    text: Option<String>,
    url: Option<String>,
}

const PUNCT: &str = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~";

/// Whether an entity such as `&amp;` starts here, which is displayed as another character
fn entity(cs: &[char]) -> bool {
    let s: String = cs.iter().take(12).collect();
    ["&amp;", "&lt;", "&gt;", "&quot;", "&nbsp;", "&copy;"].iter().any(|e| s.starts_with(e))
        || s.strip_prefix("&#").and_then(|x| x.split_once(';')).map_or(false, |x| !x.0.is_empty() && x.0.chars().all(|c| c.is_ascii_digit()))
}

/// Whether emphasis may start at this `_` or `~` (no letter before, something after)
fn opens(cs: &[char], i: usize) -> bool {
    (i == 0 || !cs[i - 1].is_alphanumeric() && cs[i - 1] != '\\') && cs.get(i + 1).map_or(false, |c| c.is_alphanumeric())
}

/// Whether it may end at this one (something before, no letter after)
fn closes(cs: &[char], i: usize, c: char) -> bool {
    cs[i] == c && cs[i - 1].is_alphanumeric() && cs.get(i + 1).map_or(true, |c| !c.is_alphanumeric())
}

/// Parses a piece of Markdown text with backslash escapes until an unescaped `stop`
fn md_text(cs: &[char], mut i: usize, stop: Option<char>) -> Option<(String, usize)> {
    let mut s = String::new();
    loop {
        match cs.get(i) {
            None if stop.is_none() => return Some((s, i)),
            None => return None,
            Some(c) if Some(*c) == stop => return Some((s, i)),
            Some('\\') => match cs.get(i + 1) {
                Some(c) if PUNCT.contains(*c) => {
                    s.push(*c);
                    i += 2;
                }
                _ => {
                    s.push('\\');
                    i += 1;
                }
            },
            // Unescaped characters with a meaning in Markdown text
            Some(c) if "`*[]<>".contains(*c) => return None,
            Some('&') if entity(&cs[i..]) => return None,
            Some(c) if (*c == '_' || *c == '~') && opens(cs, i) && (i + 1..cs.len()).any(|k| closes(cs, k, *c)) => return None,
            Some(c) => {
                s.push(*c);
                i += 1;
            }
        }
    }
}

/// `code` [@ text | @ [text](url)]
fn parse_md(line: &str) -> Option<Shown> {
    let cs: Vec<char> = line.chars().collect();
    if cs.iter().any(|c| "\n\r\u{b}\u{c}\u{85}\u{2028}\u{2029}".contains(*c)) {
        return None;
    }
    if cs.first() != Some(&'`') {
        return None;
    }
    let e = 1 + cs[1..].iter().position(|c| *c == '`')?;
    if e == 1 {
        return None;
    }
    let code: String = cs[1..e].iter().collect();
    let rest: String = cs[e + 1..].iter().collect();
    if rest.is_empty() {
        return Some(Shown { code, text: None, url: None });
    }
    let cs: Vec<char> = rest.strip_prefix(" @ ")?.chars().collect();
    if cs.first() == Some(&'[') {
        let (t, e) = md_text(&cs, 1, Some(']'))?;
        if cs.get(e + 1) != Some(&'(') || cs.last() != Some(&')') {
            return None;
        }
        let url: String = cs[e + 2..cs.len() - 1].iter().collect();
        if url.chars().any(|c| c == '(' || c == ')' || c == '<' || c == '>' || c.is_whitespace()) {
            return None;
        }
        return Some(Shown { code, text: Some(t), url: Some(url) });
    }
    let (t, _) = md_text(&cs, 0, None)?;
    Some(Shown { code, text: Some(t), url: None })
}

/// Whether `shown` is a harmless rendering of the symbol
fn same_symbol(symbol: &str, shown: &str) -> bool {
    let a: Vec<char> = symbol.chars().collect();
    let b: Vec<char> = shown.chars().collect();
    a.len() == b.len()
        && a.iter().zip(&b).all(|(x, y)| {
            if x.is_alphanumeric() || ".,:+-=/*<>_".contains(*x) {
                x == y
            } else {
                *y != '`' && !(y.is_whitespace() && *y != ' ')
            }
        })
}

fn same_text(want: &str, shown: &str) -> bool {
    let a: Vec<char> = want.chars().collect();
    let b: Vec<char> = shown.chars().collect();
    a.len() == b.len()
        && a.iter().zip(&b).all(|(x, y)| {
            x == y || ((x.is_whitespace() || x.is_control()) && !y.is_alphanumeric())
        })
}

fn frame_ok(f: &Frame, line: &str) -> Option<Shown> {
    let s = parse_md(line)?;
    if !same_symbol(&f.symbol, &s.code) {
        return None;
    }
    let fine = match (&f.file, &s.text) {
        (None, None) => true,
        (Some((p, l)), Some(t)) => same_text(&format!("{}:{}", short(p), l), t),
        _ => false,
    };
    if fine {
        Some(s)
    } else {
        None
    }
}

fn tooltip(p: &Value) -> Option<String> {
    match p.get("tooltip") {
        Some(Value::String(s)) => Some(s.clone()),
        Some(Value::Object(o)) => Some(o.get("value")?.as_str()?.to_string()),
        _ => None,
    }
}

fn label_ok(name: &str, shown: &str) -> bool {
    let n = name.chars().count();
    let cut = |shown: &str| match shown.strip_suffix('…') {
        Some(x) => {
            let k = x.chars().count();
            name.starts_with(x) && (30..=60).contains(&k)
        }
        None => false,
    };
    if n < 40 {
        shown == name
    } else if n <= 60 {
        shown == name || cut(shown)
    } else {
        cut(shown)
    }
}

/// Checks the hint of one backtrace; returns (frame, link) of all links in it
fn check_hint(h: &Value, fs: &[Frame]) -> Result<Vec<(Frame, Option<String>)>, String> {
    let parts = h["label"].as_array().ok_or("the label has no parts")?;
    let last = parts.last().ok_or("the label is empty")?;
    let full = tooltip(last).ok_or("no full backtrace in the last part")?;
    let lines: Vec<&str> = if full.is_empty() { vec![] } else { full.split('\n').collect() };
    if lines.len() != fs.len() {
        return Err(format!("{} lines for {} frames", lines.len(), fs.len()));
    }
    let mut links = vec![];
    for (f, l) in fs.iter().zip(&lines) {
        if f.odd {
            continue;
        }
        match l.strip_prefix("* ").and_then(|l| frame_ok(f, l)) {
            Some(s) => links.push((f.clone(), s.url)),
            None => return Err(format!("the line {:?} does not show the frame {:?}", l, f)),
        }
    }
    let texts: Vec<&str> = parts.iter().map(|p| p["value"].as_str().unwrap_or("")).collect();
    match relevant(fs) {
        None => {
            if parts.len() != 1 {
                return Err("a label for an irrelevant frame".into());
            }
        }
        Some(i) if fs[i].odd => {}
        Some(i) => {
            if parts.len() < 2 || !label_ok(&fs[i].symbol, texts[0]) {
                return Err(format!("the label {:?} does not name frame {}: {:?}", texts, i, fs[i]));
            }
            let t = tooltip(&parts[0]).unwrap_or_default();
            match frame_ok(&fs[i], &t) {
                Some(s) => links.push((fs[i].clone(), s.url)),
                None => return Err(format!("the tooltip {:?} does not show {:?}", t, fs[i])),
            }
        }
    }
    Ok(links)
}

/// Checks all backtrace hints of a document; returns the links of all hints
fn check_backtraces(
    w: &mut W,
    m: &Model,
    hints: &Value,
    text: &str,
) -> Res<(Vec<(Frame, Option<String>)>, usize)> {
    // The values of the annotations
    let mut values: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (s, _) in &m.stmts {
        if let Stmt::Ann { name, soup } = s {
            let v = match (soup.first(), soup.last()) {
                (Some(a), Some(b)) => m.text.slice((a.span.0, b.span.1)),
                _ => String::new(),
            };
            values.entry(name.s.clone()).or_default().push(v);
        }
    }
    let mut all = vec![];
    let mut longest = 0;
    for f in m.funcs() {
        for x in f.blocks.iter().flat_map(|b| &b.instrs) {
            let d = match &x.dbg {
                Some(d) => d,
                None => continue,
            };
            let p = m.text.pos(d.span.1);
            let hs: Vec<&Value> = hints
                .as_array()
                .into_iter()
                .flatten()
                .filter(|h| pos_of(&h["position"]) == Some(p))
                .collect();
            let vals = values.get(&d.s).cloned().unwrap_or_default();
            if vals.len() > 1 {
                continue;
            }
            let fs = vals
                .first()
                .and_then(|v| serde_json::from_str::<Value>(v).ok())
                .and_then(|v| frames(&v));
            let detail = |why: &str| {
                json!({"text": text, "reference": d.s, "position": jpos(p), "hints": hs,
                       "annotation": vals.first(), "why": why})
            };
            match fs {
                None => {
                    if !hs.is_empty() {
                        return bad("a hint without a backtrace", detail(""));
                    }
                    w.see("references_without_backtrace", 1);
                }
                Some(fs) => {
                    if hs.len() != 1 {
                        return bad("not exactly one hint for a backtrace", detail(""));
                    }
                    match check_hint(hs[0], &fs) {
                        Ok(l) => all.extend(l),
                        Err(e) => return bad("a backtrace is not rendered faithfully", detail(&e)),
                    }
                    w.see("backtrace_hints", 1);
                    w.see("frames_rendered", fs.len() as u64);
                    w.see(
                        match relevant(&fs) {
                            Some(i) if fs[i].symbol.contains("Translator::") => "labels_by_translator",
                            Some(_) => "labels_by_file",
                            None => "labels_without_frame",
                        },
                        1,
                    );
                    longest = longest.max(fs.len());
                }
            }
        }
    }
    Ok((all, longest))
}

// ---------------------------------------------------------------- generation

/// A JSON string literal without the character `"`
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\u0022"),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 || "\u{7f}\u{85}\u{2028}\u{2029}".contains(c) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const SYMBOLS: &[&str] = &[
    "hyper::ir::foo(int)", "TableScanTranslator::consume(ConsumerContext&)", "JoinTranslator::drivePipeline",
    "Translator::produceMaterializedResult", "ExprTranslator::deriveValue(Expr const*)", "FooTranslator::other",
    "Translator:consume", "translator::consume", "main", "std::vector<int, std::allocator<int> >::push_back",
    "operator new[](unsigned long)", "a`b", "``` code", "x\ny", "x\r\n* `fake` @ evil", "tab\there", "**bold**", "[link](http://evil)",
    "<script>", "日本語::関数", "é", "😀😀😀", "\u{2028}", "a\u{85}b", "~A", "lambda#1", "a|b", "\\`", "$_0", "", " ", "_Z3foov", "&", "a\u{b}b", "\"quoted\"",
    "0", "x\u{0}y", "\u{202e}rtl", "Translator::consum", "Translator::produceMaterializedResul", "Translator::drivePipelin",
    "Translator::deriveValu", "ranslator::consume", "Translator::Consume", "Translator ::x", "TRANSLATOR::consume", "Translator:", "Translator::",
];

const FILES: &[&str] = &[
    "./hyper/rts/a.cpp", "hyper/ir/Builder.cpp", "./hyper/ir/x/y.cpp", "hyper/codegen/Gen.cpp", "hyper/codegenX.cpp", "x.cpp",
    "hyper/irx/a.cpp", "hyper/ir", "C\\src\\win.cpp", "a b/c d.cpp", "é/ü.cpp", "we[ird](x).cpp", "a`b.cpp", "*b*_c_.cpp", "x\ny.cpp", "<b>.cpp", "a#b.cpp", "~/x.cpp", "", "dir/",
    "tab\tx.cpp", "hyper/tools/Translator::consume.cpp", "Translator/consume", "x/produceMaterializedResult", "drivePipeline", "b\\deriveValue", "rts/Translator", "Translator.hpp", "hyper/ir.cpp", "hyper/ir//a.cpp", "HYPER/IR/a.cpp", "xhyper/ir/a.cpp", "hyper\\ir\\a.cpp", "ir/a.cpp", "codegen/a.cpp", "!x.cpp", "a&amp;b.cpp", "&lt;b&gt;.cpp", "&#42;x&#42;.cpp", "_b_.cpp", "_c_", "~d~.cpp", "x/_e_.hpp", "-_f_-.cpp", "\\[x.cpp",
];

/// Characters of any width in any order
pub fn mixed(r: &mut Rng) -> String {
    let n = *r.pick(&[1usize, 3, 20, 45, 48, 50, 52, 60, 130]) + r.below(6);
    let pool: &[char] = *r.pick(&[
        &['a', 'é', '日', '😀', ':', '_'][..],
        &['x', 'x', 'x', 'x', 'ß', ' '][..],
        &['a', 'b', ':', '<', '>', '`', '\\', '*', '\u{301}', '\u{200d}', '字', '𝒳', '\u{feff}', 'ﬀ'][..],
    ]);
    let mut s: String = (0..n).map(|_| *r.pick(pool)).collect();
    if r.chance(1, 3) {
        let cut = r.below(s.chars().count() + 1);
        let at = s.char_indices().nth(cut).map_or(s.len(), |c| c.0);
        s.insert_str(at, *r.pick(&["Translator::consume", "Translator::", "Translator::deriveValue", "Translator::drivePipeline"]));
    }
    s
}

fn symbol(r: &mut Rng) -> String {
    match r.below(9) {
        8 => mixed(r),
        0 => {
            // Around the limit of the label, with characters of any width
            let n = *r.pick(&[20usize, 39, 45, 46, 47, 48, 49, 50, 51, 52, 60, 61, 100, 400]);
            let c = *r.pick(&["a", "é", "日", "😀", "aé", "x:"]);
            let mut s: String = c.chars().cycle().take(n).collect();
            if r.chance(1, 4) {
                s.push_str("Translator::consume");
            }
            s
        }
        1 => {
            let mut s = String::new();
            for _ in 0..r.range(1, 4) {
                s.push_str(*r.pick(SYMBOLS));
            }
            s
        }
        2 => {
            let mut s = String::new();
            for _ in 0..r.range(1, 12) {
                s.push(char::from(r.range(32, 126) as u8));
            }
            s
        }
        _ => r.pick(SYMBOLS).to_string(),
    }
}

/// A JSON string literal in which some characters are written as escapes
fn jstr_esc(r: &mut Rng, s: &str) -> String {
    if !r.chance(1, 8) {
        return jstr(s);
    }
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '/' && r.chance(1, 2) {
            o.push_str("\\/");
        } else if (c as u32) < 32 || "\"\\\u{7f}\u{85}\u{2028}\u{2029}".contains(c) || r.chance(1, 3) {
            for u in c.encode_utf16(&mut [0; 2]) {
                o.push_str(&format!("\\u{:04x}", u));
            }
        } else {
            o.push(c);
        }
    }
    o.push('"');
    o
}

/// A path of any parts and separators
fn path(r: &mut Rng) -> String {
    let mut s = String::from(*r.pick(&["", "", "/", "./", "\\", "../"]));
    let n = r.range(1, 6);
    for i in 0..n {
        s.push_str(*r.pick(&["hyper", "ir", "codegen", "rts", "a.cpp", "Translator", "x y", "é", "C", "", "b.hpp", ".", "irx"]));
        if i + 1 < n {
            s.push(*r.pick(&['/', '/', '/', '\\']));
        }
    }
    s
}

fn link(r: &mut Rng) -> String {
    let f = if r.chance(1, 3) { path(r) } else { r.pick(FILES).to_string() };
    match r.below(12) {
        0 => f.to_string(),
        1 => format!("{}:", f),
        2 => format!("{}:x", f),
        3 => format!("{}:1:2", f),
        4 => format!("{}:-1", f),
        5 => format!("{}:{}", f, *r.pick(&["0", "4294967295", "4294967296", "007", " 1", "1 ", "99999999999", "18446744073709551616", "٣", "²", "1e3", "0x5"])),
        _ => format!("{}:{}", f, r.below(3000)),
    }
}

fn any_json(r: &mut Rng, depth: usize) -> String {
    match r.below(if depth == 0 { 6 } else { 8 }) {
        0 => "null".into(),
        1 => "true".into(),
        2 => r.below(1000).to_string(),
        3 => "{}".into(),
        4 => "[]".into(),
        5 => jstr(&symbol(r)),
        6 => {
            let n = r.below(3);
            let v: Vec<String> = (0..n).map(|_| any_json(r, depth - 1)).collect();
            format!("[{}]", v.join(", "))
        }
        _ => {
            let k = *r.pick(&["backtrace", "a", "0", "1"]);
            format!("{{{}: {}}}", jstr(k), any_json(r, depth - 1))
        }
    }
}

fn frame_json(r: &mut Rng) -> String {
    match r.below(14) {
        0 => format!("[{}]", { let s = symbol(r); jstr_esc(r, &s) }),
        1 => "[]".into(),
        2 => format!("[null, {}]", { let l = link(r); jstr_esc(r, &l) }),
        3 => format!("[\"\", {}]", { let l = link(r); jstr_esc(r, &l) }),
        4 => any_json(r, 2),
        5 => format!("[{}, {}, 1, \"x\"]", { let s = symbol(r); jstr_esc(r, &s) }, { let l = link(r); jstr_esc(r, &l) }),
        6 => format!("[{}, 5]", { let s = symbol(r); jstr_esc(r, &s) }),
        _ => format!("[{}, {}]", { let s = symbol(r); jstr_esc(r, &s) }, { let l = link(r); jstr_esc(r, &l) }),
    }
}

pub fn annotation(r: &mut Rng) -> String {
    match r.below(16) {
        0 => any_json(r, 3),
        1 => "{\"operator\": 5}".into(),
        2 => format!("{{\"backtrace\": {}}}", any_json(r, 2)),
        3 => "{\"backtrace\": [[\"a\", \"b:1\"]".into(),
        4 => "{\"backtrace\": [[\"a\", \"b:1\"]]} x".into(),
        5 => "\"./a.cpp:5\"".into(),
        6 => "{\"backtrace\": [[\"raw\nbreak\", \"b:1\"]]}".into(),
        7 => "{\"backtrace\": []}".into(),
        8 if r.chance(1, 2) => format!("{{{}: [{}]}}", "\"\\u0062acktrace\"", frame_json(r)),
        8 => "{\"Backtrace\": [[\"a\"]]}".into(),
        _ => {
            let n = if r.chance(1, 20) { r.range(20, 200) } else { r.range(1, 6) };
            let f: Vec<String> = (0..n).map(|_| frame_json(r)).collect();
            let extra = match r.below(4) {
                0 => format!("\"pre\": {}, ", any_json(r, 1)),
                _ => String::new(),
            };
            let post = match r.below(4) {
                0 => format!(", \"é\": {}", any_json(r, 1)),
                _ => String::new(),
            };
            format!("{{{}\"backtrace\": [{}]{}}}", extra, f.join(", "), post)
        }
    }
}

/// A module whose annotations are replaced by generated ones
pub fn bt_module(r: &mut Rng, ann: &mut dyn FnMut(&mut Rng) -> String) -> String {
    let mut c = Cfg::random(r);
    c.funcs = c.funcs.max(1);
    c.instrs = c.instrs.max(3);
    c.blocks = c.blocks.max(2);
    c.anns = c.anns.max(2);
    let mut m = gen::module(r, c);
    m.stmts.retain(|s| !s.trim_start().starts_with('!'));
    for d in m.dnames.clone() {
        if r.chance(1, 12) {
            continue;
        }
        let s = format!("{} = {}", d, ann(r));
        let i = r.below(m.stmts.len() + 1);
        m.stmts.insert(i, s);
    }
    let t = m.text(r);
    gen::far(r, t, 1000)
}

pub fn c12(w: &mut W, r: &mut Rng, _i: usize) -> Res<()> {
    let text = bt_module(r, &mut annotation);
    let m = analyse(&text);
    let (uri, _) = w.load(r, &text)?;
    let h = w.c()?.ok("textDocument/inlayHint", hints_request(&m, &uri))?;
    let (_, longest) = check_backtraces(w, &m, &h, &text)?;
    if m.valid {
        // The other hints are not disturbed
        crate::shape::check_end_hints(w, &h, &m, &uri, &text)?;
        crate::shape::check_incoming(w, &h, &m, &uri, &text)?;
    }
    if longest >= 2 {
        w.nontrivial(&text, || json!({"text": clip(&text), "longest_backtrace": longest}));
    }
    Ok(())
}

// ---------------------------------------------------------------- C13

const TREE: &[&str] = &[
    "x.cpp", "src/y.cpp", "sp ace/z z.cpp", "ünï/ö.cpp", "par(en)/f).cpp", "hash#/q?.cpp", "per%41cent.cpp", "%2e%2e/odd.cpp",
    "back\\slash.cpp", ".hidden/h.cpp", "..dots.cpp", "sub/..x/k.cpp", "hyper/ir/Builder.cpp", "a&b=c.cpp", "日本/語.cpp", "q'uote.cpp", "a;b,c.cpp", "br[ac]ket{s}.cpp", "+plus+.cpp", "~tilde.cpp", "...", "src/src/y.cpp", "😀.cpp",
    "Makefile", "UP/Case.CPP", "x.cpp.cpp", " lead.cpp", "trail.cpp ", "src/x.cpp",
    "long/aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa/bbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbbb/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/file_with_a_long_name.cpp",
];

fn escape_url(p: &str) -> String {
    let mut s = String::new();
    for b in p.bytes() {
        if b.is_ascii_alphanumeric() || b"/-_.~".contains(&b) {
            s.push(b as char);
        } else {
            s.push_str(&format!("%{:02X}", b));
        }
    }
    s
}

/// The file a link leads to; None if it is no file link
fn file_of(uri: &str) -> Option<(PathBuf, Option<String>)> {
    let rest = uri.strip_prefix("file://")?;
    let (rest, frag) = match rest.split_once('#') {
        Some((a, b)) => (a, Some(b.to_string())),
        None => (rest, None),
    };
    if rest.contains('?') || !rest.starts_with('/') {
        return None;
    }
    let b = rest.as_bytes();
    let mut out: Vec<u8> = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = std::str::from_utf8(b.get(i + 1..i + 3)?).ok()?;
            out.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    Some((PathBuf::from(String::from_utf8(out).ok()?), frag))
}

/// Lexically normalised path
fn normal(p: &Path) -> PathBuf {
    let mut o = PathBuf::new();
    for c in p.components() {
        match c {
            std::path::Component::ParentDir => {
                o.pop();
            }
            std::path::Component::CurDir => {}
            c => o.push(c),
        }
    }
    o
}

#[derive(Clone, Debug)]
enum Want {
    /// A link to this file is required
    File(PathBuf),
    /// There must be no link
    None,
    /// Only containment is required
    Any,
}

fn want(roots: &[PathBuf], path: &str) -> Want {
    let segs: Vec<&str> = path.split('/').collect();
    if path.is_empty() || path.starts_with('/') || path.ends_with('/') || segs.iter().any(|s| *s == "..") {
        return Want::Any;
    }
    if path.contains('\u{0}') {
        return Want::Any;
    }
    if path.contains('\t') || path.contains('\n') || path.contains('\r') {
        return Want::None;
    }
    for r in roots {
        let mut p = r.clone();
        for s in segs.iter().filter(|s| **s != "." && !s.is_empty()) {
            p.push(s);
        }
        if p.is_file() {
            return Want::File(p);
        }
        if p.exists() {
            return Want::Any;
        }
    }
    Want::None
}

fn make_tree(base: &Path, r: &mut Rng) -> std::io::Result<()> {
    for f in TREE {
        if if f.len() > 100 { r.chance(1, 10) } else { r.chance(1, 2) } {
            let p = base.join(f);
            make_file(&p, base, r)?;
        }
    }
    Ok(())
}

/// Regular files, empty and unreadable ones, links to a file of the same root and dangling links
fn make_file(p: &Path, root: &Path, r: &mut Rng) -> std::io::Result<()> {
    std::fs::create_dir_all(p.parent().unwrap())?;
    match r.below(16) {
        0..=3 => std::fs::write(p, ""),
        4 => {
            use std::os::unix::fs::PermissionsExt;
            std::fs::write(p, "x\n")?;
            std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o000))
        }
        5 => {
            let t = root.join("linked-to");
            std::fs::write(&t, "x\n")?;
            std::os::unix::fs::symlink(t, p)
        }
        6 => std::os::unix::fs::symlink("gone", p),
        _ => std::fs::write(p, "x\n"),
    }
}

fn a_path(r: &mut Rng, base: &str) -> String {
    let f = *r.pick(TREE);
    let o = match r.below(32) {
        30 => f.to_uppercase(),
        31 => f.to_lowercase(),
        24 => format!("/{}/outside.cpp", base),
        25 => format!("//{}/../outside.cpp", base),
        26 => format!("{}//outside.cpp", *r.pick(&["./", "/", ".", "//", "/."])),
        27 => {
            // Like a file of the tree, but for one character which vanishes in URLs
            let cut = r.below(f.chars().count() + 1);
            let at = f.char_indices().nth(cut).map_or(f.len(), |c| c.0);
            let mut s = f.to_string();
            s.insert_str(at, *r.pick(&["\t", "\n", "\r", "\r\n"]));
            s
        }
        28 => format!("{}{}", f, *r.pick(&["?", "#", "%20", " ", "%", "\\", "?x#y", "%00"])),
        29 => format!("{}{}", *r.pick(&[" ", "%", "~/", "?/", "#/", ":/", ".../"]), f),
        // Characters which vanish in URLs
        20 => ".\t./outside.cpp".to_string(),
        21 => format!("{}../outside.cpp", *r.pick(&["\t", "\r", "\n"])),
        22 => format!("src/.{}./..\t/outside.cpp", *r.pick(&["\t", "\n", "\n\t"])),
        0 => format!("../{}", f),
        1 => format!("../../outside.cpp"),
        2 => "../outside.cpp".to_string(),
        3 => format!("{}/outside.cpp", base),
        4 => "/nonexistent-hirmon/passwd".to_string(),
        5 => "src/../../outside.cpp".to_string(),
        6 => "%2e%2e/outside.cpp".to_string(),
        7 => "%2E%2E%2Foutside.cpp".to_string(),
        8 => "..\\outside.cpp".to_string(),
        9 => "missing.cpp".to_string(),
        10 => format!("src/{}", f),
        11 => "..%2foutside.cpp".to_string(),
        12 => ".%2e/outside.cpp".to_string(),
        13 => format!("./././{}", f),
        14 => format!("{}x", f),
        15 => f.replace('/', "//"),
        16 => format!("./{}", f),
        _ => f.to_string(),
    };
    if o.contains(':') {
        f.to_string()
    } else {
        o
    }
}

pub fn c13(w: &mut W, r: &mut Rng, i: usize) -> Res<()> {
    let base = PathBuf::from(format!("{}/w{}-{}/deep", w.ctx.scratch, w.id, i));
    let io = |e: std::io::Error| crate::client::Stop::Broken(format!("scratch directory: {}", e));
    std::fs::create_dir_all(&base).map_err(io)?;
    std::fs::write(base.join("outside.cpp"), "x\n").map_err(io)?;
    std::fs::write(base.join("../outside.cpp"), "x\n").map_err(io)?;
    let res = link_case(w, r, &base).and_then(|mut c| {
        check_links(w, r, &c)?;
        for n in 0..if r.chance(1, 4) { r.range(1, 2) } else { 0 } {
            // Files come and go
            for d in &c.roots {
                for f in TREE {
                    if !r.chance(1, 4) {
                        continue;
                    }
                    let p = d.join(f);
                    if p.symlink_metadata().is_ok() {
                        std::fs::remove_file(p).map_err(io)?;
                    } else {
                        make_file(&p, d, r).map_err(io)?;
                    }
                }
            }
            c.text.push_str(&format!("# {}\n", n));
            check_links(w, r, &c)?;
            w.see("file_system_changes", 1);
        }
        Ok(())
    });
    // Each case has its own session: the roots are fixed when it starts
    let end = if res.is_ok() { w.end() } else { Ok(()) };
    let _ = std::fs::remove_dir_all(base.parent().unwrap());
    res.and(end)
}

pub struct LinkCase {
    pub uris: Vec<String>,
    pub roots: Vec<PathBuf>,
    /// Per function: the paths to be linked, if any, and the lines
    exp: Vec<(String, Vec<(Option<String>, u32)>)>,
    pub text: String,
}

/// Makes a workspace and a document with links, and configures the session
pub fn link_case(w: &mut W, r: &mut Rng, base: &Path) -> Res<LinkCase> {
    let io = |e: std::io::Error| crate::client::Stop::Broken(format!("scratch directory: {}", e));
    // Roots
    let mut uris: Vec<String> = vec![];
    let mut roots: Vec<PathBuf> = vec![];
    let names = ["r1", "r 2", "r(3)", "ü4", "r#5"];
    for n in names.iter().take(r.range(1, 4)) {
        match r.below(9) {
            0 => uris.push((*r.pick(&["mailto:a@b", "untitled:Untitled-1", "http://example.com/x/y", "file://host/share", "data:text/plain,x", "vscode-vfs://github/x"])).to_string()),
            1 => uris.push(format!("file://{}", escape_url(&base.join("missing").to_string_lossy()))),
            _ => {
                let d = base.join(n);
                std::fs::create_dir_all(&d).map_err(io)?;
                make_tree(&d, r).map_err(io)?;
                let slash = if r.chance(1, 5) { "/" } else { "" };
                uris.push(format!("file://{}{}", escape_url(&d.to_string_lossy()), slash));
                roots.push(d);
            }
        }
    }
    let mut init = json!({"processId": null, "rootUri": null, "capabilities": {}});
    match r.below(6) {
        0 => {
            // Only a root URI
            let u = uris[r.below(uris.len())].clone();
            init["rootUri"] = json!(u);
            roots.retain(|d| u.trim_end_matches('/') == format!("file://{}", escape_url(&d.to_string_lossy())));
        }
        1 if r.chance(1, 2) => roots.clear(),
        _ => {
            init["workspaceFolders"] =
                json!(uris.iter().map(|u| json!({"uri": u, "name": *r.pick(&["x", "", "r1", "ü"])})).collect::<Vec<_>>());
            if r.chance(1, 3) {
                // The folders take precedence
                init["rootUri"] = json!(format!("file://{}", escape_url(&base.to_string_lossy())));
            }
        }
    }
    w.session(init)?;

    // Declarations with annotations
    let basestr = base.to_string_lossy().to_string();
    let nl = *r.pick(&["\n", "\r\n"]);
    let n = r.range(1, 8);
    let mut stmts: Vec<String> = vec![];
    let mut exp: Vec<(String, Vec<(Option<String>, u32)>)> = vec![];
    let mut tail = vec![];
    for k in 0..n {
        let p = a_path(r, &basestr);
        let (line_txt, line): (String, Option<u32>) = match r.below(12) {
            0 => ("0".into(), Some(0)),
            1 => ("1".into(), Some(1)),
            2 => ("4294967295".into(), Some(u32::MAX)),
            3 => ("4294967296".into(), None),
            4 => ("-1".into(), None),
            5 => ("".into(), None),
            6 => ("12x".into(), None),
            7 => ("3:4".into(), None),
            _ => {
                let l = r.below(5000) as u32;
                (l.to_string(), Some(l))
            }
        };
        let mut want = match line {
            Some(_) => Some(p.clone()),
            None => None,
        };
        let ann = match r.below(12) {
            0 => {
                want = None;
                format!("!f{} = {{\"x\": \"{}:{}\"}}", k, p, line_txt)
            }
            1 => {
                want = None;
                format!("!f{} = \"{}\" {}", k, p, line_txt)
            }
            _ => format!("!f{} = \"{}:{}\"", k, p, line_txt),
        };
        let decl = format!(
            "declare {}@f{}({}){}",
            *r.pick(&["void ", "int32 ", "exported pure ptr "]),
            k,
            *r.pick(&["", "int32 %a", "int32 %a, ptr %b"]),
            *r.pick(&["", " = 0x1234"]),
        );
        match r.below(10) {
            0 => {
                // No debug reference
                stmts.push(decl);
                want = None;
                tail.push(ann);
            }
            1 => {
                // The annotation does not follow
                stmts.push(ann);
                stmts.push(format!("{} !f{}", decl, k));
                want = None;
            }
            2 => {
                stmts.push(format!("{} !f{}", decl, k));
                stmts.push(ann);
            }
            3 => {
                // Several functions share the reference
                stmts.push(format!("{} !f{}", decl, k));
                for j in 0..if r.chance(1, 4) { r.range(2, 12) } else { 1 } {
                    stmts.push(format!("declare void @g{}_{}() !f{}", k, j, k));
                    exp.push((format!("@g{}_{}", k, j), vec![(want.clone(), line.unwrap_or(0))]));
                }
                tail.push(ann);
            }
            _ => {
                stmts.push(format!("{} !f{}", decl, k));
                tail.push(ann);
            }
        }
        let mut all = vec![(want, line.unwrap_or(0))];
        if r.chance(1, 8) {
            // Declared again, with an annotation of its own
            let p = a_path(r, &basestr);
            let l = r.below(70000) as u32;
            stmts.push(format!("declare void @f{}() !again{}", k, k));
            tail.push(format!("!again{} = \"{}:{}\"", k, p, l));
            all.push((Some(p), l));
        }
        if r.chance(1, 6) {
            // Also defined here
            stmts.insert(r.below(stmts.len() + 1), format!("define void @f{}() {{{}  ret{}}}", k, nl, nl));
        }
        exp.push((format!("@f{}", k), all));
    }
    r.shuffle(&mut tail);
    stmts.extend(tail);
    // Backtraces
    let mut body = String::new();
    for k in 0..n {
        body.push_str(&format!("{}  call @f{}() !b{}", nl, k, r.below(3)));
    }
    stmts.push(format!("define void @main() {{{}{}}}", body, nl));
    for k in 0..3 {
        let mut fs = vec![];
        for _ in 0..r.range(1, 5) {
            let p = a_path(r, &basestr);
            fs.push(format!("[{}, {}]", jstr(&symbol(r)), jstr(&format!("{}:{}", p, r.below(1000)))));
        }
        stmts.push(format!("!b{} = {{\"backtrace\": [{}]}}", k, fs.join(", ")));
    }
    let text = stmts.join(nl) + nl;
    Ok(LinkCase { uris, roots, exp, text })
}

fn check_links(w: &mut W, r: &mut Rng, case: &LinkCase) -> Res<()> {
    let LinkCase { uris, roots, exp, text } = case;
    let m = analyse(text);
    let (uri, _) = w.load(r, text)?;
    let mut linked = 0;
    let mut unlinked = 0;

    // Definitions
    let inside = |p: &Path| roots.iter().any(|r| normal(p).starts_with(normal(r)) && normal(p) != normal(r));
    for (name, paths) in exp {
        let wants: Vec<(Want, u32)> = paths
            .iter()
            .map(|(p, l)| (p.as_ref().map_or(Want::None, |p| want(roots, p)), *l))
            .collect();
        let occ: Vec<usize> =
            m.occ.values().filter(|o| o.1.name == *name).map(|o| o.0 .0).collect();
        for o in occ {
            let params = tdp(&uri, m.text.pos(o));
            let a = w.c()?.ok("textDocument/definition", params.clone())?;
            let detail = || {
                json!({"text": text, "roots": w_roots(&roots), "params": params, "answer": a,
                       "expected": format!("{:?}", wants)})
            };
            let ls = match crate::nav::locations(&a) {
                Some(l) => l,
                None => return bad("malformed locations", detail()),
            };
            let loose = wants.iter().any(|w| matches!(w.0, Want::Any));
            let mut files = vec![];
            for (u, rg) in ls.iter().filter(|l| l.0 != uri) {
                match file_of(u) {
                    Some((p, None)) if inside(&p) || loose && roots.iter().any(|r| normal(&p) == normal(r)) => {
                        files.push((normal(&p), *rg))
                    }
                    _ => return bad("a definition leads outside the workspace roots", detail()),
                }
            }
            let mut need: Vec<(PathBuf, u32)> = wants
                .iter()
                .filter_map(|(w, l)| match w {
                    Want::File(f) => Some((normal(f), l.saturating_sub(1))),
                    _ => None,
                })
                .collect();
            let mut left = 0;
            for (f, rg) in &files {
                match need.iter().position(|n| n.0 == *f && n.1 == rg.start.line && rg.start.col == 0) {
                    Some(n) => {
                        need.remove(n);
                    }
                    None => left += 1,
                }
            }
            let ok = need.is_empty() && (loose || left == 0);
            if !ok {
                return bad("the external definition is not exact", detail());
            }
            for f in &files {
                if !f.0.exists() {
                    return bad("a definition leads to a missing file", detail());
                }
            }
            for (want, _) in &wants {
                w.see(
                    match want {
                        Want::File(_) => "definition_links_expected",
                        Want::None => "definition_links_not_expected",
                        Want::Any => "definition_links_contained",
                    },
                    1,
                );
                match want {
                    Want::File(_) => linked += 1,
                    Want::None => unlinked += 1,
                    Want::Any => {}
                }
            }
        }
    }
    // Tooltips
    let h = w.c()?.ok("textDocument/inlayHint", hints_request(&m, &uri))?;
    let (links, _) = check_backtraces(w, &m, &h, &text)?;
    for (f, url) in &links {
        let want_ = match &f.file {
            Some((p, _)) => want(&roots, p),
            None => Want::None,
        };
        let detail = || {
            json!({"text": text, "roots": w_roots(&roots), "frame": format!("{:?}", f), "link": url,
                   "expected": format!("{:?}", want_)})
        };
        let got = match url {
            None => None,
            Some(u) => match file_of(u) {
                Some((p, Some(l))) if inside(&p) || matches!(want_, Want::Any) && roots.iter().any(|r| normal(&p) == normal(r)) => {
                    if f.file.as_ref().map_or(true, |x| x.1.to_string() != l) {
                        return bad("a link leads to another line", detail());
                    }
                    if !p.exists() {
                        return bad("a link leads to a missing file", detail());
                    }
                    Some(normal(&p))
                }
                _ => return bad("a link leads outside the workspace roots", detail()),
            },
        };
        let ok = match &want_ {
            Want::Any => true,
            Want::None => got.is_none(),
            Want::File(f) => got == Some(normal(f)),
        };
        if !ok {
            return bad("a file link is not exact", detail());
        }
        w.see(
            match want_ {
                Want::File(_) => "tooltip_links_expected",
                Want::None => "tooltip_links_not_expected",
                Want::Any => "tooltip_links_contained",
            },
            1,
        );
        match want_ {
            Want::File(_) => linked += 1,
            Want::None => unlinked += 1,
            Want::Any => {}
        }
    }
    if linked > 0 && unlinked > 0 {
        w.nontrivial(text, || json!({"text": text, "roots": uris, "links": linked}));
    }
    Ok(())
}

fn w_roots(r: &[PathBuf]) -> Vec<String> {
    r.iter().map(|p| p.to_string_lossy().to_string()).collect()
}
