//! Reference analysis of a Hyper IR document: grammar, symbols, blocks, branches, diagnostics.
//! Independent of the server's code; works on char offsets.

use crate::lex::{lex, Tok, T};
use crate::text::{Span, Text};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Function,
    GlobalVar,
    Dbg,
    Label,
    Local,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Key {
    pub kind: Kind,
    /// Index of the enclosing function definition for labels and locals
    pub scope: Option<usize>,
    pub name: String,
}

#[derive(Clone, Debug, Default)]
pub struct Sym {
    pub decls: Vec<Span>,
    pub defs: Vec<Span>,
    pub uses: Vec<Span>,
}

impl Sym {
    pub fn all(&self) -> Vec<Span> {
        let mut v: Vec<Span> =
            self.decls.iter().chain(&self.defs).chain(&self.uses).copied().collect();
        v.sort();
        v
    }
}

#[derive(Clone, Debug)]
pub struct Name {
    pub s: String,
    pub span: Span,
}

#[derive(Clone, Debug)]
pub struct Instr {
    pub target: Option<Name>,
    pub op: Name,
    pub refs: Vec<Name>,
    pub dbg: Option<Name>,
    pub span: Span,
}

impl Instr {
    pub fn branching(&self) -> bool {
        self.op.s.ends_with("br") || self.op.s == "switch"
    }
}

#[derive(Clone, Debug)]
pub struct Block {
    pub label: Option<Name>,
    pub colon: Option<Span>,
    pub instrs: Vec<Instr>,
    pub span: Span,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: Name,
    pub args: Vec<Name>,
    pub span: Span,
    pub blocks: Vec<Block>,
}

#[derive(Clone, Debug)]
pub enum Stmt {
    GVar { name: Name },
    Decl { name: Name, dbg: Option<Name> },
    Def(Func),
    Dep,
    Ann { name: Name, soup: Vec<Tok> },
}

pub struct Model {
    pub text: Text,
    pub toks: Vec<Tok>,
    pub bad: Vec<usize>,
    pub stmts: Vec<(Stmt, Span)>,
    /// No unrecognised character and every statement parses
    pub valid: bool,
    pub syms: BTreeMap<Key, Sym>,
    pub occ: BTreeMap<usize, (Span, Key)>,
    /// Some name is used both for a function and a global variable
    pub collision: bool,
}

struct P<'a> {
    t: &'a [Tok],
    tolerated: std::cell::Cell<bool>,
}

type R<X> = Option<(X, usize)>;

impl<'a> P<'a> {
    fn is(&self, i: usize, t: T) -> bool {
        self.t.get(i).map_or(false, |x| x.t == t)
    }
    fn text(&self, i: usize, t: T, s: &str) -> bool {
        self.t.get(i).map_or(false, |x| x.t == t && x.s == s)
    }
    fn punct(&self, i: usize, s: &str) -> bool {
        self.text(i, T::Punct, s)
    }
    fn nl(&self, i: usize) -> bool {
        self.is(i, T::Newline)
    }
    fn name(&self, i: usize) -> Name {
        Name { s: self.t[i].s.clone(), span: self.t[i].span }
    }
    fn skip_nl(&self, mut i: usize) -> usize {
        while self.nl(i) {
            i += 1;
        }
        i
    }
    fn eol(&self, i: usize) -> Option<usize> {
        if i >= self.t.len() {
            Some(i)
        } else if self.nl(i) {
            Some(i + 1)
        } else {
            None
        }
    }
    fn dbg_opt(&self, i: usize) -> (Option<Name>, usize) {
        if self.is(i, T::Dbg) {
            (Some(self.name(i)), i + 1)
        } else {
            (None, i)
        }
    }
    fn soup(&self, mut i: usize) -> usize {
        while i < self.t.len() && !self.nl(i) {
            i += 1;
        }
        i
    }

    fn stmt(&self, i0: usize) -> R<Stmt> {
        let i = self.skip_nl(i0);
        let (s, e) = self
            .gvar(i)
            .or_else(|| self.decl(i))
            .or_else(|| self.def(i))
            .or_else(|| self.dep(i))
            .or_else(|| self.ann(i))?;
        Some((s, self.skip_nl(e)))
    }
    fn gvar(&self, i: usize) -> R<Stmt> {
        if self.is(i, T::Global) && self.punct(i + 1, "=") {
            let e = self.eol(self.soup(i + 2))?;
            return Some((Stmt::GVar { name: self.name(i) }, e));
        }
        None
    }
    fn ann(&self, i: usize) -> R<Stmt> {
        if self.is(i, T::Dbg) && self.punct(i + 1, "=") {
            let j = self.soup(i + 2);
            let e = self.eol(j)?;
            let soup = self.t[i + 2..j].to_vec();
            return Some((Stmt::Ann { name: self.name(i), soup }, e));
        }
        None
    }
    fn dep(&self, i: usize) -> R<Stmt> {
        if self.is(i, T::Global)
            && self.text(i + 1, T::Ident, "depends")
            && self.text(i + 2, T::Ident, "on")
        {
            let mut j = i + 3;
            if self.is(j, T::Global) {
                j += 1;
                while self.punct(j, ",") && self.is(j + 1, T::Global) {
                    j += 2;
                }
            }
            return Some((Stmt::Dep, j));
        }
        None
    }
    fn sig(&self, mut i: usize) -> R<(Name, Vec<Name>)> {
        while self.is(i, T::Modifier) {
            i += 1;
        }
        if !(self.is(i, T::Type) && self.is(i + 1, T::Global) && self.punct(i + 2, "(")) {
            return None;
        }
        let name = self.name(i + 1);
        i += 3;
        let mut args = vec![];
        if self.is(i, T::Type) && self.is(i + 1, T::Local) {
            args.push(self.name(i + 1));
            i += 2;
            while self.punct(i, ",") && self.is(i + 1, T::Type) && self.is(i + 2, T::Local) {
                args.push(self.name(i + 2));
                i += 3;
            }
        }
        if !self.punct(i, ")") {
            return None;
        }
        Some(((name, args), i + 1))
    }
    fn decl(&self, i: usize) -> R<Stmt> {
        if !self.is(i, T::Declare) {
            return None;
        }
        let ((name, _), mut i) = self.sig(i + 1)?;
        if self.punct(i, "=") && self.is(i + 1, T::Hex) {
            i += 2;
        }
        let (dbg, i) = self.dbg_opt(i);
        let e = self.eol(i)?;
        Some((Stmt::Decl { name, dbg }, e))
    }
    fn def(&self, i0: usize) -> R<Stmt> {
        if !self.is(i0, T::Define) {
            return None;
        }
        let ((name, args), i) = self.sig(i0 + 1)?;
        if !self.punct(i, "{") || !self.nl(i + 1) {
            return None;
        }
        let i = self.skip_nl(i + 1);
        let mut blocks = vec![];
        let (instrs, mut i) = self.instrs(i);
        if !instrs.is_empty() {
            let span = (instrs[0].span.0, instrs[instrs.len() - 1].span.1);
            blocks.push(Block { label: None, colon: None, instrs, span });
        }
        while self.is(i, T::Ident) && self.punct(i + 1, ":") && self.nl(i + 2) {
            let label = self.name(i);
            let colon = self.t[i + 1].span;
            let (instrs, e) = self.instrs(self.skip_nl(i + 2));
            let end = instrs.last().map_or(label.span.1, |x| x.span.1);
            blocks.push(Block {
                span: (label.span.0, end),
                label: Some(label),
                colon: Some(colon),
                instrs,
            });
            i = e;
        }
        if !self.punct(i, "}") {
            return None;
        }
        let span = (self.t[i0].span.0, self.t[i].span.1);
        let e = self.eol(i + 1)?;
        Some((Stmt::Def(Func { name, args, span, blocks }), e))
    }
    fn instrs(&self, mut i: usize) -> (Vec<Instr>, usize) {
        let mut v = vec![];
        while let Some((x, e)) = self.instr(self.skip_nl(i)) {
            v.push(x);
            i = self.skip_nl(e);
        }
        (v, i)
    }
    fn instr(&self, i0: usize) -> R<Instr> {
        let mut i = i0;
        let mut target = None;
        if self.is(i, T::Type) && self.is(i + 1, T::Local) && self.punct(i + 2, "=") {
            target = Some(self.name(i + 1));
            i += 3;
        }
        if !self.is(i, T::Ident) {
            return None;
        }
        let (refs, dbg, e) = self
            .br(i)
            .or_else(|| self.condbr(i))
            .or_else(|| self.overflow(i))
            .or_else(|| self.switch(i))
            .or_else(|| self.phi(i))
            .or_else(|| self.any(i))
            .or_else(|| self.no_overflow(i))?;
        let span = (self.t[i0].span.0, self.t[e - 1].span.1);
        Some((Instr { target, op: self.name(i), refs, dbg, span }, e))
    }
    fn finish(&self, i: usize, refs: Vec<Name>) -> Option<(Vec<Name>, Option<Name>, usize)> {
        let (dbg, i) = self.dbg_opt(i);
        if self.nl(i) {
            Some((refs, dbg, i))
        } else {
            None
        }
    }
    fn br(&self, i: usize) -> Option<(Vec<Name>, Option<Name>, usize)> {
        if self.text(i, T::Ident, "br") && self.is(i + 1, T::Ident) {
            return self.finish(i + 2, vec![self.name(i + 1)]);
        }
        None
    }
    fn condbr(&self, i: usize) -> Option<(Vec<Name>, Option<Name>, usize)> {
        if self.text(i, T::Ident, "br")
            && self.text(i + 1, T::Type, "int1")
            && i + 2 < self.t.len()
            && self.punct(i + 3, ",")
            && self.is(i + 4, T::Ident)
            && self.punct(i + 5, ",")
            && self.is(i + 6, T::Ident)
        {
            return self.finish(i + 7, vec![self.name(i + 4), self.name(i + 6)]);
        }
        None
    }
    /// Skips tokens until a comma which is followed by the identifier `kw`
    fn until_comma(&self, mut i: usize, kw: &str) -> usize {
        loop {
            if i >= self.t.len() || self.nl(i) {
                return i;
            }
            if self.punct(i, ",") {
                if i + 1 >= self.t.len() || self.text(i + 1, T::Ident, kw) {
                    return i;
                }
                i += 2;
            } else {
                i += 1;
            }
        }
    }
    /// Only the shape of an overflow branch: a syntax error, but one the parser reads over
    fn no_overflow(&self, i: usize) -> Option<(Vec<Name>, Option<Name>, usize)> {
        let x = self.overflow_shape(i)?;
        self.tolerated.set(true);
        Some(x)
    }
    fn overflow(&self, i: usize) -> Option<(Vec<Name>, Option<Name>, usize)> {
        if !self.t[i].s.ends_with("br") {
            return None;
        }
        self.overflow_shape(i)
    }
    fn overflow_shape(&self, i: usize) -> Option<(Vec<Name>, Option<Name>, usize)> {
        let i = self.until_comma(i + 1, "cont");
        if self.punct(i, ",")
            && self.text(i + 1, T::Ident, "cont")
            && self.punct(i + 2, "=")
            && self.is(i + 3, T::Ident)
            && self.punct(i + 4, ",")
            && self.text(i + 5, T::Ident, "overflow")
            && self.punct(i + 6, "=")
            && self.is(i + 7, T::Ident)
        {
            return self.finish(i + 8, vec![self.name(i + 3), self.name(i + 7)]);
        }
        None
    }
    fn switch(&self, i: usize) -> Option<(Vec<Name>, Option<Name>, usize)> {
        if !self.text(i, T::Ident, "switch") {
            return None;
        }
        let i = self.until_comma(i + 1, "default");
        if !(self.punct(i, ",")
            && self.text(i + 1, T::Ident, "default")
            && self.punct(i + 2, "=")
            && self.is(i + 3, T::Ident)
            && self.punct(i + 4, ","))
        {
            return None;
        }
        let mut refs = vec![self.name(i + 3)];
        let case = |i: usize| {
            self.is(i, T::Type)
                && i + 1 < self.t.len()
                && self.text(i + 2, T::Ident, "label")
                && self.punct(i + 3, "=")
                && self.is(i + 4, T::Ident)
        };
        let mut i = i + 5;
        if case(i) {
            refs.push(self.name(i + 4));
            i += 5;
            while self.punct(i, ",") && case(i + 1) {
                refs.push(self.name(i + 5));
                i += 6;
            }
        }
        self.finish(i, refs)
    }
    fn phi(&self, i: usize) -> Option<(Vec<Name>, Option<Name>, usize)> {
        if !self.text(i, T::Ident, "phi") {
            return None;
        }
        let item = |i: usize| -> Option<usize> {
            if self.punct(i, "[") && self.is(i + 1, T::Ident) && self.punct(i + 2, ",") {
                let mut j = i + 3;
                while j < self.t.len() && !self.nl(j) && !self.punct(j, "]") {
                    j += 1;
                }
                if self.punct(j, "]") {
                    return Some(j + 1);
                }
            }
            None
        };
        let mut refs = vec![];
        let mut i = i + 1;
        if let Some(e) = item(i) {
            refs.push(self.name(i + 1));
            i = e;
            while self.punct(i, ",") {
                match item(i + 1) {
                    Some(e) => {
                        refs.push(self.name(i + 2));
                        i = e;
                    }
                    None => break,
                }
            }
        }
        self.finish(i, refs)
    }
    fn any(&self, i: usize) -> Option<(Vec<Name>, Option<Name>, usize)> {
        let mut i = i + 1;
        if i >= self.t.len() || self.punct(i, ":") {
            return None;
        }
        while i < self.t.len() && !self.nl(i) && !self.is(i, T::Dbg) {
            i += 1;
        }
        self.finish(i, vec![])
    }
}

pub fn analyse(src: &str) -> Model {
    let text = Text::new(src);
    let l = lex(&text.chars);
    let code: Vec<Tok> = l.toks.iter().filter(|t| t.t != T::Comment).cloned().collect();
    let p = P { t: &code, tolerated: Default::default() };
    let mut stmts = vec![];
    let mut valid = l.bad.is_empty();
    let mut i = p.skip_nl(0);
    while i < code.len() {
        match p.stmt(i) {
            Some((s, e)) => {
                let first = p.skip_nl(i);
                let mut last = e;
                while last > first && p.nl(last - 1) {
                    last -= 1;
                }
                stmts.push((s, (code[first].span.0, code[last - 1].span.1)));
                i = e;
            }
            None => {
                valid = false;
                i += 1;
            }
        }
        if i < code.len() && p.skip_nl(i) == code.len() {
            break;
        }
    }
    valid &= !p.tolerated.get();
    let mut m = Model {
        text,
        toks: l.toks,
        bad: l.bad,
        stmts,
        valid,
        syms: BTreeMap::new(),
        occ: BTreeMap::new(),
        collision: false,
    };
    m.index();
    m
}

enum U {
    Decl,
    Def,
    Use,
}

impl Model {
    fn add(&mut self, kind: Kind, scope: Option<usize>, n: &Name, u: U) {
        if self.occ.contains_key(&n.span.0) {
            return;
        }
        let key = Key { kind, scope, name: n.s.clone() };
        let sym = self.syms.entry(key.clone()).or_default();
        match u {
            U::Decl => sym.decls.push(n.span),
            U::Def => sym.defs.push(n.span),
            U::Use => sym.uses.push(n.span),
        }
        self.occ.insert(n.span.0, (n.span, key));
    }

    fn index(&mut self) {
        let stmts = std::mem::take(&mut self.stmts);
        let mut fns: Vec<Span> = vec![];
        let mut funcs = std::collections::BTreeSet::new();
        let mut gvars = std::collections::BTreeSet::new();
        for (s, _) in &stmts {
            match s {
                Stmt::GVar { name } => {
                    gvars.insert(name.s.clone());
                    self.add(Kind::GlobalVar, None, name, U::Def)
                }
                Stmt::Decl { name, .. } => {
                    funcs.insert(name.s.clone());
                    self.add(Kind::Function, None, name, U::Decl)
                }
                Stmt::Dep => {}
                Stmt::Ann { name, .. } => self.add(Kind::Dbg, None, name, U::Def),
                Stmt::Def(f) => {
                    funcs.insert(f.name.s.clone());
                    self.add(Kind::Function, None, &f.name, U::Def);
                    let id = Some(fns.len());
                    fns.push(f.span);
                    for a in &f.args {
                        self.add(Kind::Local, id, a, U::Def);
                    }
                    for b in &f.blocks {
                        if let Some(l) = &b.label {
                            self.add(Kind::Label, id, l, U::Def);
                        }
                        for x in &b.instrs {
                            if let Some(t) = &x.target {
                                self.add(Kind::Local, id, t, U::Def);
                            }
                            for r in &x.refs {
                                self.add(Kind::Label, id, r, U::Use);
                            }
                        }
                    }
                }
            }
        }
        self.collision = funcs.intersection(&gvars).next().is_some();
        for t in std::mem::take(&mut self.toks).iter() {
            let n = Name { s: t.s.clone(), span: t.span };
            match t.t {
                T::Global => {
                    let k =
                        if funcs.contains(&t.s) { Kind::Function } else { Kind::GlobalVar };
                    self.add(k, None, &n, U::Use);
                }
                T::Dbg => self.add(Kind::Dbg, None, &n, U::Use),
                T::Local => {
                    if let Some(id) =
                        fns.iter().position(|s| s.0 <= t.span.0 && t.span.0 < s.1)
                    {
                        self.add(Kind::Local, Some(id), &n, U::Use);
                    }
                }
                _ => {}
            }
            self.toks.push(t.clone());
        }
        self.stmts = stmts;
    }

    pub fn funcs(&self) -> impl Iterator<Item = &Func> {
        self.stmts.iter().filter_map(|(s, _)| match s {
            Stmt::Def(f) => Some(f),
            _ => None,
        })
    }

    /// The symbol occurrence which covers the character at `off`
    pub fn at(&self, off: usize) -> Option<&(Span, Key)> {
        self.occ.range(..=off).next_back().map(|x| x.1).filter(|o| off < o.0 .1)
    }

    /// (span, symbol name, first definition) of each expected semantic diagnostic;
    /// kind: 'u' undefined, 'd' duplicate, 'b' undetermined branch targets
    pub fn semantic_diags(&self) -> Vec<(char, Span, String, Option<Span>)> {
        let mut v = vec![];
        for (k, s) in &self.syms {
            if s.decls.is_empty() && s.defs.is_empty() {
                for u in &s.uses {
                    v.push(('u', *u, k.name.clone(), None));
                }
            }
            for d in s.defs.iter().skip(1) {
                v.push(('d', *d, k.name.clone(), Some(s.defs[0])));
            }
        }
        for f in self.funcs() {
            for x in f.blocks.iter().flat_map(|b| &b.instrs) {
                if (x.branching() || x.op.s == "phi") && x.refs.is_empty() {
                    v.push(('b', x.op.span, x.op.s.clone(), None));
                }
            }
        }
        v
    }
}
