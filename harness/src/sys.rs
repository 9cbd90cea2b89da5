//! Monitor for the effects of the server on the system (C17): every system call that names a
//! file, a network address or another process is recorded with strace and judged afterwards; the
//! scratch directory is compared before and after.

use crate::client::{bad, Res, Stop};
use crate::gen;
use crate::model::analyse;
use crate::proto;
use crate::rng::Rng;
use crate::run::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Component, Path, PathBuf};

const TRACED: &str = "trace=write,%file,%network,%process,io_uring_setup,ftruncate,fallocate,fchmod,fchown,fsetxattr,sendfile,copy_file_range,pidfd_open,ptrace,getdents,getdents64,flock";

/// Places which the run-time system reads on its own account
const SYSTEM: &[&str] = &["/proc", "/sys", "/dev", "/lib", "/lib64", "/usr/lib", "/usr/lib64", "/etc/ld.so.cache", "/etc/ld.so.preload"];

/// The string literals in the arguments of a call
fn strings(s: &str) -> Vec<String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'"' {
            i += 1;
            continue;
        }
        i += 1;
        let mut cur = vec![];
        while i < b.len() && b[i] != b'"' {
            if b[i] == b'\\' && i + 1 < b.len() {
                i += 1;
                match b[i] {
                    b'n' => cur.push(b'\n'),
                    b't' => cur.push(b'\t'),
                    b'r' => cur.push(b'\r'),
                    b'v' => cur.push(11),
                    b'f' => cur.push(12),
                    b'0'..=b'7' => {
                        let mut v: u32 = 0;
                        let mut n = 0;
                        while n < 3 && i < b.len() && (b'0'..=b'7').contains(&b[i]) {
                            v = v * 8 + u32::from(b[i] - b'0');
                            i += 1;
                            n += 1;
                        }
                        cur.push(v as u8);
                        continue;
                    }
                    c => cur.push(c),
                }
            } else {
                cur.push(b[i]);
            }
            i += 1;
        }
        i += 1;
        out.push(String::from_utf8_lossy(&cur).to_string());
    }
    out
}

fn normal(p: &Path) -> PathBuf {
    let mut o = PathBuf::new();
    for c in p.components() {
        match c {
            Component::ParentDir => {
                o.pop();
            }
            Component::CurDir => {}
            c => o.push(c),
        }
    }
    o
}

fn decode(s: &str) -> String {
    let b = s.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        let h = if b[i] == b'%' { s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok()) } else { None };
        match h {
            Some(x) => {
                o.push(x);
                i += 3;
            }
            None => {
                o.push(b[i]);
                i += 1;
            }
        }
    }
    String::from_utf8_lossy(&o).to_string()
}

pub fn roots_of(init: &Value) -> Vec<PathBuf> {
    let mut v: Vec<&Value> = vec![];
    match init["workspaceFolders"].as_array() {
        Some(a) => v.extend(a.iter().map(|f| &f["uri"])),
        None => v.push(&init["rootUri"]),
    }
    v.iter()
        .filter_map(|u| u.as_str()?.strip_prefix("file://").filter(|p| p.starts_with('/')))
        .map(|p| normal(Path::new(&decode(p))))
        .collect()
}

fn is_system(p: &Path) -> bool {
    SYSTEM.iter().any(|s| p.starts_with(s))
}

/// Judges one line of the trace; an error says what is wrong with it
fn judge(line: &str, roots: &[PathBuf], execs: &mut usize, up: &mut bool, seen: &mut BTreeMap<String, u64>) -> Result<(), String> {
    let l = line.trim_start_matches(|c: char| c.is_ascii_digit()).trim_start();
    if l.starts_with("+++") || l.starts_with("---") || l.starts_with("<...") {
        return Ok(());
    }
    let (name, args) = match l.split_once('(') {
        Some(x) => x,
        None => return Ok(()),
    };
    let paths = strings(args);
    *seen.entry(name.to_string()).or_insert(0) += 1;
    match name {
        // The program loader looks for libraries in places of its own. Once the server answers,
        // it is through.
        "write" => {
            *up |= args.starts_with("1,");
            Ok(())
        }
        "stat" | "lstat" | "newfstatat" | "fstatat64" | "statx" | "access" | "faccessat" | "faccessat2" | "readlink" | "readlinkat" => {
            let p = match paths.first() {
                Some(p) => p,
                // fstat of an open file
                None => return Ok(()),
            };
            if p.is_empty() {
                return Ok(());
            }
            let n = normal(Path::new(p));
            let walk = matches!(name, "lstat" | "readlink" | "readlinkat" | "statx" | "newfstatat");
            let below = roots.iter().any(|r| n.starts_with(r));
            // Resolving symbolic links looks at the parents of a root, too
            let above = walk && roots.iter().any(|r| r.starts_with(&n));
            if !*up || Path::new(p).is_absolute() && (is_system(&n) || below || above) {
                if below {
                    *seen.entry("existence tests below a root".into()).or_insert(0) += 1;
                }
                Ok(())
            } else {
                Err(format!("tests the existence of {:?}", p))
            }
        }
        "open" | "openat" | "openat2" | "creat" => {
            let p = paths.first().cloned().unwrap_or_default();
            let n = normal(Path::new(&p));
            let write = ["O_WRONLY", "O_RDWR", "O_CREAT", "O_TRUNC", "O_APPEND", "O_TMPFILE"].iter().any(|f| args.contains(f)) || name == "creat";
            let null = n == Path::new("/dev/null") || n == Path::new("/dev/tty");
            if write && !null {
                Err(format!("opens {:?} for writing", p))
            } else if !*up || Path::new(&p).is_absolute() && (is_system(&n) || null) {
                Ok(())
            } else {
                Err(format!("opens {:?}", p))
            }
        }
        "execve" | "execveat" => {
            *execs += 1;
            if *execs > 1 {
                Err(format!("executes {:?}", paths.first()))
            } else {
                Ok(())
            }
        }
        "fork" | "vfork" => Err("starts a process".into()),
        "clone" | "clone3" => {
            if args.contains("CLONE_THREAD") {
                Ok(())
            } else {
                Err("starts a process".into())
            }
        }
        "socket" | "connect" | "bind" | "listen" | "accept" | "accept4" | "sendto" | "sendmsg" | "sendmmsg" => {
            Err(format!("uses the network: {}", name))
        }
        "mkdir" | "mkdirat" | "rmdir" | "unlink" | "unlinkat" | "rename" | "renameat" | "renameat2" | "link" | "linkat"
        | "symlink" | "symlinkat" | "mknod" | "mknodat" | "chmod" | "fchmodat" | "fchmodat2" | "chown" | "lchown"
        | "fchownat" | "truncate" | "utime" | "utimes" | "utimensat" | "futimesat" | "setxattr" | "lsetxattr"
        | "removexattr" | "lremovexattr" | "chdir" | "fchdir" | "chroot" | "mount" | "umount2" | "pivot_root"
        | "io_uring_setup" | "ftruncate" | "fallocate" | "fchmod" | "fchown" | "fsetxattr" | "copy_file_range"
        | "ptrace" | "acct" | "swapon" | "open_by_handle_at" | "getdents" | "getdents64" | "inotify_add_watch" | "fanotify_mark" => {
            Err(format!("changes or watches the system: {} {:?}", name, paths))
        }
        _ => Ok(()),
    }
}

fn snapshot(dir: &Path, out: &mut BTreeMap<String, String>) {
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            let md = match std::fs::symlink_metadata(&p) {
                Ok(m) => m,
                Err(_) => continue,
            };
            let mut s = format!("{:?} {:?} {:?}", md.file_type(), md.permissions(), md.modified().ok());
            if md.is_dir() {
                snapshot(&p, out);
            } else if md.is_file() {
                s.push_str(&String::from_utf8_lossy(&std::fs::read(&p).unwrap_or_default()));
            }
            out.insert(p.to_string_lossy().to_string(), s);
        }
    }
}

pub fn c17(w: &mut W, r: &mut Rng, i: usize) -> Res<()> {
    w.end()?;
    let top = PathBuf::from(format!("{}/c{}", w.ctx.scratch, i));
    let base = top.join("x/deep");
    let io = |e: std::io::Error| Stop::Broken(format!("scratch directory: {}", e));
    std::fs::create_dir_all(&base).map_err(io)?;
    std::fs::write(base.join("outside.cpp"), "x\n").map_err(io)?;
    std::fs::write(base.join("../outside.cpp"), "x\n").map_err(io)?;
    let trace = format!("{}/trace-{}", w.ctx.scratch, i);
    w.opts.wrapper = ["strace", "-f", "-qq", "-s", "4096", "-e", TRACED, "-o", &trace].iter().map(|s| s.to_string()).collect();
    w.opts.idle_s = 60;
    w.opts.env = match r.below(3) {
        0 => vec![("RUST_LOG".into(), "debug".into()), ("RUST_BACKTRACE".into(), "1".into())],
        1 => vec![("RUST_LOG".into(), "trace".into())],
        _ => vec![],
    };
    let res = traced(w, r, &base);
    let end = if res.is_ok() { w.end() } else { Ok(()) };
    let roots = roots_of(&w.opts.init);
    let verdict = end.and(res).and_then(|before| {
        // The trace
        let t = std::fs::read(&trace).map_err(|e| Stop::Broken(format!("no trace (strace?): {}", e)))?;
        let t = String::from_utf8_lossy(&t).to_string();
        let mut execs = 0;
        let mut up = false;
        let mut seen = BTreeMap::new();
        for l in t.lines() {
            if let Err(what) = judge(l, &roots, &mut execs, &mut up, &mut seen) {
                return bad(
                    format!("the server {}", what),
                    json!({"call": l.chars().take(500).collect::<String>(), "roots": roots, "session": w.opts.init}),
                );
            }
        }
        if execs != 1 || !up {
            return Err(Stop::Broken("the trace does not start with the server".into()));
        }
        let mut after = BTreeMap::new();
        snapshot(&top, &mut after);
        if before.1 != after {
            let d: Vec<&String> = after.keys().filter(|k| before.1.get(*k) != after.get(*k)).chain(before.1.keys().filter(|k| !after.contains_key(*k))).collect();
            return bad("files changed", json!({ "files": d }));
        }
        for (k, v) in &seen {
            w.see(&format!("call_{}", k), *v);
        }
        if seen.get("existence tests below a root").copied().unwrap_or(0) > 0 {
            w.nontrivial(&before.0, || json!({"session": clip_text(&before.0), "roots": roots, "calls": seen}));
        }
        Ok(())
    });
    let _ = std::fs::remove_dir_all(&top);
    let _ = std::fs::remove_file(&trace);
    verdict
}

fn clip_text(s: &str) -> String {
    s.chars().take(600).collect()
}

/// A session over generated links and hostile documents; returns its text and the files before
fn traced(w: &mut W, r: &mut Rng, base: &Path) -> Res<(String, BTreeMap<String, String>)> {
    let case = crate::bt::link_case(w, r, base)?;
    let mut before = BTreeMap::new();
    for d in [base.join("doc.hir"), base.join("r1/doc.hir")] {
        if d.parent().unwrap().exists() {
            std::fs::write(d, "@on_disk = 1\n").map_err(|e| Stop::Broken(format!("scratch directory: {}", e)))?;
        }
    }
    snapshot(base.parent().unwrap().parent().unwrap(), &mut before);
    let mut key = case.text.clone();
    let m = analyse(&case.text);
    let (uri, _) = w.load(r, &case.text)?;
    for o in m.occ.values().filter(|o| o.1.name.starts_with('@')) {
        w.c()?.request("textDocument/definition", tdp(&uri, m.text.pos(o.0 .0)))?;
    }
    w.c()?.request("textDocument/inlayHint", crate::shape::hints_request(&m, &uri))?;
    // The document may be a file of the workspace, of some other place, or none
    let file = match r.below(3) {
        0 => base.join("r1/doc.hir"),
        1 => base.join("doc.hir"),
        _ => base.join("missing.hir"),
    };
    let uri = &match r.below(8) {
        0 => (*r.pick(&["http://localhost:9/a.hir", "https://example.invalid/x/a.hir", "http://127.0.0.1/a", "file://host.invalid/share/a.hir",
                        "untitled:Untitled-1", "git:/x.hir?ref%3DHEAD", "vscode-vfs://github/a.hir", "ssh://h.invalid/a.hir", "vscode-remote://ssh-remote%2Bh/a.hir", "data:text/plain,x"]))
        .to_string(),
        _ => format!("file://{}", file.to_string_lossy()),
    };
    for n in 0..r.range(2, 5) {
        let text = if n == 0 { gen::doc(r) } else { proto::any_text(r, &w.ctx.repo.clone()) };
        key.push_str(&text);
        let m = analyse(&text);
        w.version += 1;
        let v = w.version;
        w.c()?.load(uri, &text, v)?;
        for _ in 0..8 {
            let (method, q) = proto::query(r, uri, &m);
            let a = w.c()?.request(method, q)?;
            if method == "textDocument/codeAction" && a["result"][0].is_object() {
                w.c()?.request("codeAction/resolve", a["result"][0].clone())?;
            }
        }
        let unique: Vec<String> = m.funcs().map(|f| f.name.s.clone()).filter(|n| m.funcs().filter(|g| g.name.s == *n).count() == 1).collect();
        if m.valid && !unique.is_empty() {
            let f = r.pick(&unique).clone();
            let c = w.c()?;
            let id = c.send("workspace/executeCommand", json!({"command": "visualize-cfg", "arguments": [uri, f]}));
            let q = c.server_request()?;
            match r.below(3) {
                0 => c.reply_err(&q["id"], -32601, "no viewer"),
                _ => c.reply(&q["id"], json!({})),
            }
            c.answer(id)?;
            w.see("graphs_shown", 1);
        }
        for _ in 0..3 {
            let (method, q, answer) = proto::sundry(r, uri);
            let c = w.c()?;
            if answer {
                let id = c.send(method, q);
                c.wait("answering a request", |c| c.answered(id) || !c.reqs.is_empty())?;
                while let Some(q) = c.reqs.pop_front() {
                    c.reply(&q["id"], json!({}));
                }
                c.answer(id)?;
            } else {
                c.notify(method, q);
            }
            w.see("sundry_messages", 1);
        }
        if r.chance(1, 4) {
            w.c()?.notify("textDocument/didClose", td(uri));
        }
    }
    Ok((key, before))
}
