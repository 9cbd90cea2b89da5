//! Workload generators: modules, corruptions, hostile texts and names.

use crate::lex::{MODIFIERS, TYPES};
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Cfg {
    /// Percent of the choices which introduce undefined or duplicate symbols
    pub errs: usize,
    /// Percent of names/comments/strings with non-ASCII content
    pub uni: usize,
    pub crlf: bool,
    /// Strings may contain line breaks
    pub multiline: bool,
    pub funcs: usize,
    pub globals: usize,
    pub anns: usize,
    pub decls: usize,
    pub deps: usize,
    pub blocks: usize,
    pub instrs: usize,
    /// Percent of instructions whose branch targets cannot be extracted
    pub badbr: usize,
    pub comments: usize,
    /// Most targets of a switch or phi instruction
    pub wide: usize,
    pub args: usize,
    /// One in how many modules has very many things of one kind
    pub bulk: usize,
}

impl Cfg {
    pub fn random(r: &mut Rng) -> Cfg {
        let big = r.chance(1, 12);
        let k = if big { 3 } else { 1 };
        let mut c = Cfg {
            errs: *r.pick(&[0, 0, 5, 15, 40]),
            uni: *r.pick(&[0, 10, 40]),
            crlf: r.chance(1, 3),
            multiline: r.chance(1, 5),
            funcs: r.range(0, 4 * k),
            globals: r.range(0, 3 * k),
            anns: r.range(0, 4 * k),
            decls: r.range(0, 3 * k),
            deps: r.range(0, 2),
            blocks: r.range(0, 5 * k),
            instrs: r.range(0, 4 * k),
            badbr: *r.pick(&[0, 0, 4, 15]),
            comments: *r.pick(&[0, 5, 20]),
            wide: 4,
            args: 4,
            bulk: 400,
        };
        // Much of one thing
        if r.chance(1, 20) {
            c.funcs = c.funcs.min(3);
            match r.below(9) {
                0 => c.funcs = r.range(15, 45),
                1 => c.globals = r.range(15, 60),
                2 => c.anns = r.range(15, 60),
                3 => c.blocks = r.range(20, 70),
                4 => c.instrs = r.range(20, 80),
                5 | 6 => c.wide = r.range(10, 60),
                7 => c.args = r.range(8, 30),
                _ => c.decls = r.range(15, 40),
            }
            if r.chance(1, 2) {
                c.funcs = c.funcs.max(1);
                c.blocks = c.blocks.max(2);
                c.instrs = c.instrs.max(2);
            }
        }
        c
    }
    pub fn clean(r: &mut Rng) -> Cfg {
        Cfg { errs: 0, badbr: 0, ..Cfg::random(r) }
    }
}

const ASCII_BASE: &[&str] = &[
    "a", "b", "v1", "v2", "v3", "v10", "v07", "x_3", "f::g", "_t", "a:b", "Foo::bar_2", "z9", "zz",
    "tmp", "idx", "v", "A1b2", "foo_bar", "g::h::i3",
];
const UNI_BASE: &[&str] =
    &["é1", "变量", "𝒳2", "ñandú_4", "Ω", "x𐐷y", "naïve3", "名前::子5", "z²", "𝒳", "ä:ö"];
const LABELS: &[&str] = &[
    "b_0", "b_1", "b_2", "body_10", "loop", "entry", "then_1", "else_1", "done_1", "cont_3", "exit",
    "bb2", "bb3", "bb11", "x:y", "_", "überlauf_2", "末尾_1", "𝒵1", "add_cont_3", "overflow_4",
    "node", "Graph", "edge", "f::g_1", "strict",
];
const ODD_LABELS: &[&str] =
    &["br", "phi", "switch", "cont", "overflow", "default", "label", "depends", "on", "ret", "abr"];
const DBG: &[&str] = &["1", "2", "3", "10", "21", "30", "addr_2", "f1", "p:q", "Ω2", "007"];
const OPS: &[&str] = &[
    "add", "sub", "mul", "load", "store", "getelementptr", "cast", "cmpeq", "ret", "unreachable",
    "isnull", "select", "call", "builtin_x", "brx", "phix", "switchx", "zext", "überprüfe",
];
const OVERFLOW_OPS: &[&str] = &["saddbr", "ssubbr", "smulbr", "uaddbr", "xbr", "ébr", "𝒳_1br", "ns::addbr", "umul_with_overflow_br", "_br"];
pub const VALUE_TYPES: &[&str] = &[
    "int1", "int8", "int16", "int32", "int64", "float32", "float64", "data128", "ptr", "void",
];
const UNI_TEXT: &[&str] =
    &["é", "ß", "日本", "😀", "𝒳", "\u{301}", "ﬀ", "\u{200d}", "👨‍👩‍👧", "Ж", "\u{a0}", "´", "”"];

pub fn base_name(r: &mut Rng, uni: usize) -> String {
    if r.chance(uni, 100) {
        r.pick(UNI_BASE).to_string()
    } else {
        r.pick(ASCII_BASE).to_string()
    }
}

/// A number as it may end a name
pub fn numeral(r: &mut Rng) -> String {
    match r.below(12) {
        0 => format!("0{}", r.below(120)),
        1 => format!("00{}", r.below(12)),
        2 => r.pick(&["9223372036854775806", "9223372036854775807", "9223372036854775808", "18446744073709551616", "4294967295", "4294967296", "2147483648", "99999999999999999999999"]).to_string(),
        3 => (10u64.pow(r.range(1, 18) as u32) - r.below(3) as u64).to_string(),
        4 | 5 => r.below(1500).to_string(),
        6 => r.below(100_000).to_string(),
        _ => r.below(14).to_string(),
    }
}

/// A name (without sigil) which a label may have, too
pub fn synth(r: &mut Rng, uni: usize, old: &[String]) -> String {
    const HEAD: &[char] = &['a', 'b', 'v', 'x', 'Z', '_', 'Q', 'm'];
    const TAIL: &[char] = &['a', 'b', 'c', '_', '0', '1', '9', 'x', 'X', 'é'];
    let mut s = match r.below(10) {
        0 if !old.is_empty() => r.pick(old).clone(),
        1 if !old.is_empty() => r.pick(old).trim_end_matches(|c: char| c.is_ascii_digit()).to_string(),
        2 if r.chance(uni, 60) => {
            // Characters of one to four bytes
            let n = r.range(10, 90);
            let mut s = String::from("n");
            for _ in 0..n {
                s.push(*r.pick(&['n', 'o', '1', 'é', '語', '𝒳']));
            }
            s
        }
        2 => "n".repeat(r.range(20, 400)),
        3 | 4 => {
            let mut s = String::new();
            for k in 0..r.range(1, 3) {
                if k > 0 {
                    s.push_str(*r.pick(&[":", "::", ":::", "_"]));
                }
                s.push(*r.pick(HEAD));
                for _ in 0..r.below(6) {
                    s.push(*r.pick(TAIL));
                }
            }
            s
        }
        5 => r.pick(&["v:", "a::", "f::g:", "x:::", "n_:", "b1:", "_:"]).to_string(),
        _ => r.pick(&["v", "x_", "bb", "Tmp", "f::g", "v1_", "v1a", "_"]).to_string(),
    };
    if r.chance(uni, 200) {
        s.push_str(*r.pick(&["ö", "ж", "語", "𝒳", "ǆ"]));
    }
    if r.chance(1, 12) {
        s = s.to_uppercase();
    }
    if r.chance(3, 4) || s.ends_with(':') {
        s.push_str(&numeral(r));
    }
    // Keywords make no names of labels
    let l = crate::lex::lex(&s.chars().collect::<Vec<_>>());
    let plain = l.bad.is_empty() && matches!(&l.toks[..], [t] if t.t == crate::lex::T::Ident);
    if plain {
        s
    } else {
        format!("q{}", s.len())
    }
}

pub fn prose(r: &mut Rng, uni: usize) -> String {
    let mut s = String::new();
    for _ in 0..r.range(0, 6) {
        if r.chance(uni, 100) {
            s.push_str(*r.pick(UNI_TEXT));
        } else {
            s.push_str(*r.pick(&["foo", "%v1", "@a", "!1", "x=", "br b_0", " ", "\t", "{", "-", "$", "'", "\\n", "/", "12", "declare"]));
        }
        if r.chance(1, 2) {
            s.push(' ');
        }
    }
    s
}

pub fn string_lit(r: &mut Rng, c: &Cfg) -> String {
    let mut s = prose(r, c.uni);
    if c.multiline && r.chance(1, 3) {
        s.push_str(if c.crlf { "\r\n" } else { "\n" });
        s.push_str(&prose(r, c.uni));
        if r.chance(1, 4) {
            s.push('\r');
            s.push_str(&prose(r, c.uni));
        }
    }
    format!("\"{}\"", s.replace('"', ""))
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub c: Cfg,
    pub fnames: Vec<String>,
    pub gnames: Vec<String>,
    pub dnames: Vec<String>,
    /// Names of this module: of variables and functions, labels, annotations
    bases: Vec<String>,
    labels: Vec<String>,
    dbgs: Vec<String>,
}

/// A generated module: top-level statements as text without trailing line break
pub struct Module {
    pub stmts: Vec<String>,
    pub nl: &'static str,
    pub fnames: Vec<String>,
    pub gnames: Vec<String>,
    pub dnames: Vec<String>,
}

impl Module {
    fn far(r: &mut Rng, nl: &str) -> String {
        let n = *r.pick(&[250usize, 1000, 4000, 32760, 65530]) + r.below(20);
        match r.below(5) {
            0 => format!("#{}{}", "x".repeat(n), nl),
            1 => format!("@qfar{} = \"{}\" 5{}", n, "é".repeat(n), nl),
            2 if r.chance(1, 3) => format!("@qfar{} = \"{}\" 5{}", n, nl.repeat(n), nl),
            3 => nl.repeat(n.min(1020)),
            _ => " ".repeat(n),
        }
    }
    pub fn text(&self, r: &mut Rng) -> String {
        let mut s = String::new();
        for _ in 0..r.below(3) {
            if r.chance(1, 3) {
                s.push_str(self.nl);
            }
        }
        // Rarely, something is far to the right or far down
        let far = if r.chance(1, 80) { r.below(self.stmts.len() + 1) } else { usize::MAX };
        for (i, x) in self.stmts.iter().enumerate() {
            if i == far {
                s.push_str(&Self::far(r, self.nl));
            }
            s.push_str(x);
            if i + 1 < self.stmts.len() || r.chance(3, 4) {
                s.push_str(self.nl);
            }
            while r.chance(1, 4) && i + 1 < self.stmts.len() {
                s.push_str(*r.pick(&["", " ", "\t"]));
                s.push_str(self.nl);
            }
        }
        s
    }
}

fn ws(r: &mut Rng) -> &'static str {
    *r.pick(&[" ", " ", " ", "  ", "\t", " \t "])
}
fn ws0(r: &mut Rng) -> &'static str {
    *r.pick(&["", "", "", " ", "  ", "\t"])
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, c: Cfg) -> Self {
        let mut pool: Vec<String> = ASCII_BASE.iter().map(|s| s.to_string()).collect();
        if c.uni > 0 {
            pool.extend(UNI_BASE.iter().map(|s| s.to_string()));
        }
        let mut labels: Vec<String> = LABELS.iter().map(|s| s.to_string()).collect();
        let mut dbgs: Vec<String> = DBG.iter().map(|s| s.to_string()).collect();
        let many = c.funcs + c.decls + c.globals > 20 || c.blocks > 20 || c.anns > 10;
        if many || r.chance(2, 3) {
            // Mostly names which no other module has
            let pools = [
                (&mut pool, 26 + c.funcs + c.decls + c.globals),
                (&mut labels, 20 + c.blocks),
                (&mut dbgs, 8 + c.anns),
            ];
            for (p, n) in pools {
                r.shuffle(p);
                p.truncate(r.range(0, 12));
                while p.len() < n {
                    let x = synth(r, c.uni, p);
                    if !p.contains(&x) {
                        p.push(x);
                    }
                }
            }
            for _ in 0..r.below(6) {
                dbgs.push(numeral(r));
                pool.push(numeral(r));
            }
            dbgs.sort();
            dbgs.dedup();
            pool.sort();
            pool.dedup();
        }
        let bases = pool.clone();
        if r.chance(1, 6) {
            pool.push(String::new());
        }
        r.shuffle(&mut pool);
        let nf = (c.funcs + c.decls).min(pool.len() - 2);
        let fnames: Vec<String> =
            pool[..nf.max(1)].iter().map(|s| format!("@{}", s)).collect();
        let rest = &pool[nf.max(1)..];
        let mut gnames: Vec<String> =
            rest[..(c.globals + 1).min(rest.len())].iter().map(|s| format!("@{}", s)).collect();
        // A variable and a function of one name
        if r.chance(1, 40) {
            gnames.push(fnames[0].clone());
        }
        let mut d: Vec<String> = dbgs.iter().map(|s| format!("!{}", s)).collect();
        r.shuffle(&mut d);
        d.truncate(c.anns.max(1));
        Gen { r, c, fnames, gnames, dnames: d, bases, labels, dbgs }
    }

    fn nl(&self) -> &'static str {
        if self.c.crlf {
            "\r\n"
        } else {
            "\n"
        }
    }
    fn err(&mut self) -> bool {
        self.r.chance(self.c.errs, 100)
    }
    pub fn ty(&mut self) -> &'static str {
        VALUE_TYPES[self.r.below(9)]
    }
    fn global_ref(&mut self, funcs: &[String], globals: &[String]) -> Option<String> {
        if self.err() {
            return Some(format!("@{}", self.r.pick(&self.bases)));
        }
        let all: Vec<&String> = funcs.iter().chain(globals).collect();
        if all.is_empty() {
            None
        } else {
            Some(self.r.pick(&all).to_string())
        }
    }
    fn eol(&mut self) -> String {
        let mut s = String::new();
        if self.r.chance(self.c.comments, 100) {
            s.push_str(ws0(self.r));
            s.push('#');
            s.push_str(&prose(self.r, self.c.uni));
            if self.r.chance(1, 20) {
                s.push('\r');
                s.push_str("x");
            }
        } else {
            s.push_str(ws0(self.r));
        }
        s
    }
    fn sig(&mut self, name: &str, args: &[String]) -> String {
        let mut s = String::new();
        while self.r.chance(1, 4) {
            s.push_str(*self.r.pick(MODIFIERS));
            s.push_str(ws(self.r));
        }
        s.push_str(*self.r.pick(TYPES));
        s.push_str(ws(self.r));
        s.push_str(name);
        s.push_str(ws0(self.r));
        s.push('(');
        for (i, a) in args.iter().enumerate() {
            if i > 0 {
                s.push(',');
                s.push_str(ws0(self.r));
            }
            s.push_str(self.ty());
            s.push_str(ws(self.r));
            s.push_str(a);
        }
        s.push_str(ws0(self.r));
        s.push(')');
        s
    }
    pub fn local(&mut self) -> String {
        let b = match self.r.below(12) {
            0 => String::new(),
            1 => numeral(self.r),
            _ => self.r.pick(&self.bases).clone(),
        };
        format!("%{}", b)
    }

    pub fn module(mut self) -> Module {
        // Which names get declared / defined
        let mut stmts: Vec<String> = vec![];
        let funcs = self.fnames.clone();
        let globals = self.gnames.clone();
        let dbgs = self.dnames.clone();
        let nf = self.c.funcs.min(funcs.len());
        let mut declared: Vec<String> = vec![];
        let mut defined: Vec<String> = vec![];
        for (i, f) in funcs.iter().enumerate() {
            if i < nf {
                defined.push(f.clone());
                if self.r.chance(1, 5) {
                    declared.push(f.clone());
                }
            } else {
                declared.push(f.clone());
            }
            if self.err() && self.r.chance(1, 2) {
                defined.push(f.clone());
            }
            if self.r.chance(1, 12) {
                declared.push(f.clone());
            }
        }
        let known_funcs: Vec<String> =
            declared.iter().chain(&defined).cloned().collect();
        let mut gdef: Vec<String> = globals.clone();
        if self.err() && !gdef.is_empty() {
            let g = self.r.pick(&globals).clone();
            gdef.push(g);
        }
        let mut ddef = dbgs.clone();
        if self.err() && !ddef.is_empty() {
            let d = self.r.pick(&dbgs).clone();
            ddef.push(d);
        }
        if self.c.errs > 0 && self.r.chance(1, 3) && !ddef.is_empty() {
            ddef.pop();
        }
        for g in &gdef {
            let s = self.gvar(g, &known_funcs, &globals);
            stmts.push(s);
        }
        for f in &declared {
            let n = self.r.below(self.c.args);
            let args: Vec<String> = (0..n).map(|_| self.local()).collect();
            let mut s = format!("declare{}", ws(self.r));
            s.push_str(&self.sig(f, &args));
            if self.r.chance(1, 2) {
                s.push_str(&format!("{}={}0x{:x}", ws0(self.r), ws0(self.r), self.r.below(1 << 30) + 1));
            }
            if self.r.chance(1, 2) {
                if let Some(d) = self.dbg(&dbgs) {
                    s.push_str(ws(self.r));
                    s.push_str(&d);
                }
            }
            s.push_str(&self.eol());
            stmts.push(s);
        }
        for f in &defined {
            let s = self.func(f, &known_funcs, &globals, &dbgs);
            stmts.push(s);
        }
        for d in &ddef {
            let s = self.ann(d);
            stmts.push(s);
        }
        for _ in 0..self.c.deps {
            if known_funcs.is_empty() {
                break;
            }
            let a = self.r.pick(&known_funcs).clone();
            let mut s = format!("{}{}depends{}on{}", a, ws(self.r), ws(self.r), ws(self.r));
            let n = if self.r.chance(1, 8) { 20 } else { self.r.range(1, 3) };
            for i in 0..n {
                if i > 0 {
                    s.push(',');
                    s.push_str(ws0(self.r));
                }
                if let Some(g) = self.global_ref(&known_funcs, &[]) {
                    s.push_str(&g);
                }
            }
            s.push_str(&self.eol());
            stmts.push(s);
        }
        if self.r.chance(1, self.c.bulk) {
            let b = self.bulk();
            stmts.extend(b);
        }
        if self.r.chance(3, 4) {
            self.r.shuffle(&mut stmts);
        }
        // Hardly anything
        if self.r.chance(1, 25) {
            let n = self.r.below(3);
            stmts.truncate(n);
        }
        if self.r.chance(self.c.comments, 30) {
            let i = self.r.below(stmts.len() + 1);
            stmts.insert(i, format!("# {}", prose(self.r, self.c.uni)));
        }
        if self.r.chance(1, 5) {
            for s in stmts.iter_mut() {
                if self.r.chance(1, 3) {
                    *s = format!("{}{}", ws(self.r), s);
                }
            }
        }
        Module { stmts, nl: self.nl(), fnames: known_funcs, gnames: globals, dnames: dbgs }
    }

    /// Very many things of one kind
    fn bulk(&mut self) -> Vec<String> {
        let nl = self.nl();
        let n = *self.r.pick(&[110usize, 270, 1100]);
        let one = |body: String| vec![format!("define void @qbulk() {{{}{}}}", nl, body)];
        match self.r.below(16) {
            9 => one((0..n).map(|_| format!("  int32 %q = add int32 %q, int32 %q{}", nl)).collect()),
            10 => {
                let mut v = one((0..n).map(|_| format!("  store ptr @qbulk_g, ptr @qbulk_g{}", nl)).collect());
                if self.r.chance(2, 3) {
                    v.push("@qbulk_g = 5".to_string());
                }
                v
            }
            11 => {
                let mut v = one((0..n).map(|_| format!("  call @qbulk_f(){}", nl)).collect());
                if self.r.chance(2, 3) {
                    v.push("declare void @qbulk_f()".to_string());
                }
                v
            }
            12 => {
                let mut v = one((0..n).map(|_| format!("  ret !qbulk{}", nl)).collect());
                if self.r.chance(2, 3) {
                    v.push("!qbulk = {}".to_string());
                }
                v
            }
            13 => vec![format!("define void @qbulk({}) {{{}  ret{}}}", (0..n).map(|i| format!("int32 %q_{}", i)).collect::<Vec<_>>().join(", "), nl, nl)],
            14 => (0..n).map(|_| "declare void @qbulk_d()".to_string()).collect(),
            15 => (0..n).map(|_| "@qbulk_g = 5".to_string()).collect(),
            0 => (0..n).map(|i| format!("@qbulk_{} = {}", i, i)).collect(),
            1 => (0..n).map(|i| format!("declare void @qbulk_{}()", i)).collect(),
            2 => (0..n).map(|i| format!("define void @qbulk_{}() {{{}  ret{}}}", i, nl, nl)).collect(),
            3 => (0..n).map(|i| format!("!qbulk_{} = {{}}", i)).collect(),
            4 => one((0..n).map(|i| format!("  int32 %q_{} = add int32 {}{}", i, i, nl)).collect()),
            5 => one((0..n).map(|i| format!("q_{}:{}  br q_{}{}", i, nl, (i * 7) % n, nl)).collect()),
            6 => one(format!("q_0:{}{}", nl, format!("  br int1 1, q_0, q_0{}", nl).repeat(n))),
            7 => one((0..n).map(|i| format!("q_{}:{}  br q_0{}", i, nl, nl)).collect()),
            _ => one(format!("q:{}  switch int32 5, default=q,{}{}", nl, vec![" int32 1 label=q"; n].join(","), nl)),
        }
    }

    fn dbg(&mut self, dbgs: &[String]) -> Option<String> {
        if self.err() {
            return Some(format!("!{}", self.r.pick(&self.dbgs)));
        }
        if dbgs.is_empty() {
            None
        } else {
            Some(self.r.pick(dbgs).clone())
        }
    }

    fn gvar(&mut self, g: &str, funcs: &[String], globals: &[String]) -> String {
        let mut s = format!("{}{}={}", g, ws0(self.r), ws0(self.r));
        for _ in 0..self.r.below(6) {
            match self.r.below(8) {
                0 => s.push_str(&string_lit(self.r, &self.c.clone())),
                1 => s.push_str(&format!("[{}, 0, {}]", self.r.below(9) + 1, self.r.below(300))),
                2 => {
                    if let Some(x) = self.global_ref(funcs, globals) {
                        s.push_str(&x)
                    }
                }
                3 => s.push_str(self.ty()),
                4 => s.push_str(*self.r.pick(&["{", "}", "(", ")", "*", ";", ".", ":", "<", ">", "="])),
                5 => s.push_str(&format!("0x{:X}", self.r.below(65536) + 1)),
                6 => s.push_str(*self.r.pick(&["foo", "declare", "pure", "br", "define", "007", "0x0", "0xZ"])),
                _ => s.push_str(&self.r.below(100000).to_string()),
            }
            s.push_str(ws(self.r));
        }
        s.push_str(&self.eol());
        s
    }

    fn ann(&mut self, d: &str) -> String {
        let c = self.c.clone();
        let v = match self.r.below(6) {
            0 => format!("\"./src/{}.cpp:{}\"", base_name(self.r, 0).replace(':', "_"), self.r.below(500)),
            1 => "{}".to_string(),
            2 => string_lit(self.r, &c),
            3 => format!("{{\"operator\": {}, \"x\": [1, 2, {{}}]}}", self.r.below(100)),
            4 => "{\"backtrace\": [[\"foo::bar\", \"./hyper/rts/a.cpp:12\"], [\"Translator::consume\", \"x.cpp:7\"]]}".to_string(),
            _ => String::new(),
        };
        format!("{}{}={}{}{}", d, ws0(self.r), ws0(self.r), v, self.eol())
    }

    fn func(&mut self, f: &str, funcs: &[String], globals: &[String], dbgs: &[String]) -> String {
        let nl = self.nl();
        let mut locals: Vec<String> = vec![];
        let mut args = vec![];
        for _ in 0..self.r.below(self.c.args) {
            let l = self.local();
            if !locals.contains(&l) || self.err() {
                locals.push(l.clone());
                args.push(l);
            }
        }
        let mut labels: Vec<String> = vec![];
        let nb = self.r.below(self.c.blocks + 1);
        for _ in 0..nb {
            let l = if self.r.chance(1, 15) {
                self.r.pick(ODD_LABELS).to_string()
            } else {
                self.r.pick(&self.labels).to_string()
            };
            if !labels.contains(&l) || self.err() {
                labels.push(l);
            }
        }
        let mut s = format!("define{}{}{}{{{}{}", ws(self.r), self.sig(f, &args), ws0(self.r), self.eol(), nl);
        if labels.is_empty() || self.r.chance(1, 5) {
            for _ in 0..self.r.below(3) {
                let i = self.instr(&mut locals, &labels, funcs, globals, dbgs);
                s.push_str(&i);
            }
        }
        for l in labels.clone() {
            s.push_str(ws0(self.r));
            s.push_str(&l);
            s.push_str(ws0(self.r));
            s.push(':');
            s.push_str(&self.eol());
            s.push_str(nl);
            for _ in 0..self.r.below(self.c.instrs + 1) {
                let i = self.instr(&mut locals, &labels, funcs, globals, dbgs);
                s.push_str(&i);
            }
        }
        if self.r.chance(self.c.comments, 60) {
            s.push_str(&format!("  # {}{}", prose(self.r, self.c.uni), nl));
        }
        s.push_str(ws0(self.r));
        s.push('}');
        s.push_str(&self.eol());
        s
    }

    fn operand(&mut self, locals: &[String], funcs: &[String], globals: &[String]) -> String {
        let t = self.ty();
        if self.err() {
            return format!("{} {}", t, self.local());
        }
        match self.r.below(7) {
            6 => match self.r.below(6) {
                0 => string_lit(self.r, &self.c.clone()),
                1 => format!("{} 0x{:X}", t, self.r.below(1 << 40)),
                2 => format!("{} *", t),
                3 => format!("{} null", t),
                4 => format!("({} 1)", t),
                _ => format!("[{} 1; {}]", t, numeral(self.r)),
            },
            0 => format!("{} {}", t, self.r.below(1000)),
            1 => match self.global_ref(funcs, globals) {
                Some(g) => format!("ptr {}", g),
                None => format!("{} 0", t),
            },
            _ if !locals.is_empty() => format!("{} {}", t, self.r.pick(locals)),
            _ => format!("{} 7", t),
        }
    }

    fn label(&mut self, labels: &[String]) -> Option<String> {
        if self.err() {
            return Some(self.r.pick(&self.labels).to_string());
        }
        if labels.is_empty() {
            None
        } else {
            Some(self.r.pick(labels).clone())
        }
    }

    fn instr(
        &mut self,
        locals: &mut Vec<String>,
        labels: &[String],
        funcs: &[String],
        globals: &[String],
        dbgs: &[String],
    ) -> String {
        let nl = self.nl();
        let mut target = String::new();
        let mut new = None;
        let body;
        let lab: Option<String> = self.label(labels);
        let form = if self.r.chance(self.c.badbr, 100) {
            100 + self.r.below(7)
        } else if lab.is_none() {
            self.r.below(5)
        } else {
            self.r.below(14)
        };
        if self.r.chance(1, 2) || (form == 12) {
            let l = self.local();
            if !locals.contains(&l) || self.err() {
                target = format!("{} {}{}={}", self.ty(), l, ws0(self.r), ws0(self.r));
                new = Some(l);
            }
        }
        let op = |g: &mut Self, locals: &[String]| g.operand(locals, funcs, globals);
        match form {
            0..=2 => {
                let mut s = self.r.pick(OPS).to_string();
                for i in 0..self.r.below(4) {
                    s.push_str(if i > 0 { ", " } else { " " });
                    s.push_str(&op(self, locals));
                }
                body = s;
            }
            3 => {
                let f = self.global_ref(funcs, globals).unwrap_or_else(|| "x".into());
                let mut s = format!("call {}(", f);
                for i in 0..self.r.below(3) {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    s.push_str(&op(self, locals));
                }
                s.push(')');
                body = s;
            }
            4 => {
                body = self
                    .r
                    .pick(&["ret", "unreachable", "store [1, 2] (x) {y} <z> ;", "op \"str # ing\" 0x1F", "op *.*"])
                    .to_string()
            }
            5 | 6 => body = format!("br{}{}", ws(self.r), lab.clone().unwrap()),
            7 | 8 => {
                let l2 = self.label(labels).unwrap_or_else(|| lab.clone().unwrap());
                let c = match self.r.below(4) {
                    0 => "1".to_string(),
                    1 if !globals.is_empty() => globals[0].clone(),
                    _ if !locals.is_empty() => self.r.pick(locals).clone(),
                    _ => "0".to_string(),
                };
                body = format!("br int1 {}{},{}{}, {}", c, ws0(self.r), ws0(self.r), lab.clone().unwrap(), l2);
            }
            9 => {
                let l2 = self.label(labels).unwrap_or_else(|| lab.clone().unwrap());
                let o = if self.r.chance(1, 8) { *self.r.pick(OPS) } else { *self.r.pick(OVERFLOW_OPS) };
                let mut s = o.to_string();
                for i in 0..self.r.below(3) {
                    s.push_str(if i > 0 { ", " } else { " " });
                    s.push_str(&op(self, locals));
                }
                body = format!("{}, cont={}, overflow={}", s, lab.clone().unwrap(), l2);
            }
            10 | 11 => {
                let mut s = format!("switch {}, default={},", op(self, locals), lab.clone().unwrap());
                for i in 0..self.r.below(self.c.wide) {
                    let l2 = self.label(labels).unwrap_or_else(|| lab.clone().unwrap());
                    s.push_str(if i > 0 { "," } else { "" });
                    let v = match self.r.below(12) {
                        0 => (*self.r.pick(&["\"s\"", "0x1F", "\"\"", "true", "0", "007"])).to_string(),
                        1 => self.r.below(1_000_000).to_string(),
                        _ => i.to_string(),
                    };
                    s.push_str(&format!(" {} {} label={}", self.ty(), v, l2));
                }
                body = s;
            }
            12 | 13 => {
                let mut s = format!("phi [{}, {}]", lab.clone().unwrap(), op(self, locals));
                for _ in 0..self.r.below(self.c.wide - 1) {
                    let l2 = self.label(labels).unwrap_or_else(|| lab.clone().unwrap());
                    s.push_str(&format!(",{}[{}, {}]", ws0(self.r), l2, op(self, locals)));
                }
                body = s;
            }
            100 => body = "br".into(),
            101 => body = "br int1 %, ".to_string() + "1",
            102 => body = "phi".into(),
            103 => body = "switch int32 5".into(),
            104 => body = format!("{} int32 1, int32 2", self.r.pick(OVERFLOW_OPS)),
            105 => body = "phi [1, 2]".into(),
            _ => body = "switch int32 5, default=1, int32 0 label=2".into(),
        }
        if form == 101 {
            // `%` is used there
            if !locals.contains(&"%".to_string()) && self.c.errs == 0 {
                return String::new();
            }
        }
        if let Some(l) = new {
            if self.r.chance(9, 10) || self.c.errs == 0 {
                locals.push(l);
            }
        }
        let d = if self.r.chance(1, 3) {
            match self.dbg(dbgs) {
                Some(d) => format!("{}{}", ws(self.r), d),
                None => String::new(),
            }
        } else {
            String::new()
        };
        let blank = if self.r.chance(1, 15) { nl } else { "" };
        let e = self.eol();
        format!("{}{}{}{}{}{}{}", ws0(self.r), target, body, d, e, nl, blank)
    }
}

pub fn module(r: &mut Rng, c: Cfg) -> Module {
    Gen::new(r, c).module()
}

pub fn doc(r: &mut Rng) -> String {
    doc_bulk(r, 400)
}

pub fn doc_bulk(r: &mut Rng, bulk: usize) -> String {
    let c = Cfg { bulk, ..Cfg::random(r) };
    let m = module(r, c);
    m.text(r)
}

/// Now and then (one in `odds`) moves the text far down or far to the right, or puts a very long token
/// or a long token over many lines before it: line and column numbers beyond 16 bits
pub fn far(r: &mut Rng, text: String, odds: usize) -> String {
    if !r.chance(1, odds) {
        return text;
    }
    let n = *r.pick(&[
        250usize, 255, 256, 257, 1000, 32767, 32768, 32769, 65534, 65535, 65536, 65536, 65536, 65537, 65538, 66000,
    ]);
    let nl = *r.pick(&["\n", "\n", "\r\n", "\r"]);
    // Something on the first line
    let first = *r.pick(&["", "", "", "  @qfar_1 = @qfar_1", "     # é", "!qfar_2 = 5 \"a\" "]);
    match r.below(9) {
        0 | 1 if first.is_empty() => format!("{}{}", nl.repeat(n), text),
        0 | 1 => format!("{}{}{}", first, nl.repeat(n), text),
        2 => format!("{}{}{}{}", first, nl, format!("# x{}", nl).repeat(n), text),
        3 => format!("{}{}", " ".repeat(n), text),
        4 => format!("@qfar_x = \"{}{}\" @qfar_x{}{}", "b".repeat(n), *r.pick(&["a", "é", "\n"]), nl, text),
        5 => format!("@qfar_x = \"{}\" @qfar_x{}{}", nl.repeat(n), nl, text),
        6 => format!("@q{}far = 1{}{}", "n".repeat(n), nl, text),
        _ => {
            // Some line, or some token, far to the right
            let what = *r.pick(&['\n', ' ', '}', '}']);
            let at: Vec<usize> = text.match_indices(what).map(|(i, m)| if m == "}" { i } else { i + 1 }).collect();
            if at.is_empty() {
                return text;
            }
            let o = *r.pick(&at);
            format!("{}{}{}", &text[..o], " ".repeat(n), &text[o..])
        }
    }
}

/// Characters which no token starts with (and which are no line breaks for anyone)
pub const GARBAGE: &[char] = &[
    '$', '?', '-', '+', '&', '~', '`', '^', '|', '/', '\\', '\'', '\u{0}', '\u{1}', '\u{7f}', '\u{a0}',
    '😀', '€', '²', '٣', '\u{301}', '\u{200b}', '\u{feff}', '\u{fffd}', '”', '\u{10ffff}',
];

const SNIPPETS: &[&str] = &[
    "define void @f() {", "}", "b_0:", "br b_0", "declare int32 @g(", ")", "@a = ", "!1 = ",
    "!1 = {\"backtrace\": [[\"a\",\"b:1\"]]}", "\"", "#", "0x", "0xff", "depends on", "%", "@", "!",
    ":", "::", "int32 %v1 = phi [b_0, 1]", "switch int32 1, default=a, int32 1 label=b",
    "\r", "\n", "\r\n", "\n\n", "\t", " ", "saddbr 1, cont=a, overflow=b", "declare", "define",
    "int1", "br int1 %x, a, b", ",", "=", "[", "]", "99999999999999999999", "%v99999999999999999999",
    "%v9223372036854775807", "!9223372036854775807", "@é9", "\u{feff}",
    "!2 = \"a/b.cpp:4294967296\"", "!f1 = \"./x.cpp:0\"", "declare void @f() = 0x1 !f1",
    "{\"backtrace\": [null, [], {}, [1,2], \"x\"]}",
];

/// Arbitrary (mostly broken) text
pub fn hostile(r: &mut Rng) -> String {
    let mut s = String::new();
    match r.below(6) {
        0 => {
            for _ in 0..r.below(60) {
                s.push_str(*r.pick(SNIPPETS));
                if r.chance(1, 3) {
                    s.push_str(*r.pick(&[" ", "\n", "\r\n"]));
                }
            }
        }
        1 => {
            for _ in 0..r.below(80) {
                match r.below(6) {
                    0 => s.push(*r.pick(GARBAGE)),
                    1 => s.push_str(*r.pick(UNI_TEXT)),
                    2 => s.push(char::from(r.range(32, 126) as u8)),
                    3 => s.push_str(*r.pick(&["\n", "\r\n", "\r", " ", "\t"])),
                    4 => s.push(*r.pick(&['@', '%', '!', '"', '#', '{', '}', ':', '=', '(', ')'])),
                    _ => s.push_str(*r.pick(SNIPPETS)),
                }
            }
        }
        _ => {
            let d = doc(r);
            s = mutate(r, &d);
        }
    }
    s
}

/// Random edits of a text
pub fn mutate(r: &mut Rng, d: &str) -> String {
    let mut cs: Vec<char> = d.chars().collect();
    for _ in 0..r.range(1, 6) {
        let n = cs.len();
        let i = r.below(n + 1);
        match r.below(8) {
            0 => {
                let j = (i + r.below(20)).min(n);
                cs.drain(i..j);
            }
            1 => {
                let x: Vec<char> = r.pick(SNIPPETS).chars().collect();
                cs.splice(i..i, x);
            }
            2 => cs.insert(i, *r.pick(GARBAGE)),
            3 => cs.truncate(i),
            4 => {
                let j = (i + r.below(60)).min(n);
                let x: Vec<char> = cs[i..j].to_vec();
                let k = r.below(n + 1);
                cs.splice(k..k, x);
            }
            5 => {
                if i < n {
                    cs[i] = *r.pick(&['"', '\n', '\r', '@', ':', '}', '{', ' ', '#', '0', '=', '!', '%', ',']);
                }
            }
            6 => {
                if i < n {
                    cs.remove(i);
                }
            }
            _ => {
                let x: Vec<char> = r.pick(UNI_TEXT).chars().collect();
                cs.splice(i..i, x);
            }
        }
    }
    // Behind a malformed statement, the time for n blank lines grows with n * n
    let mut run = 0;
    cs.retain(|c| {
        run = if *c == '\n' { run + 1 } else if c.is_whitespace() { run } else { 0 };
        run <= 2000
    });
    cs.into_iter().collect()
}
