//! Reference lexer of Hyper IR, written from the language's rules.

use crate::text::Span;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    Comment,
    Num,
    Hex,
    Str,
    Local,
    Global,
    Dbg,
    Type,
    Ident,
    Modifier,
    Punct,
    Newline,
    Declare,
    Define,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub t: T,
    pub s: String,
    pub span: Span,
}

pub struct Lexed {
    pub toks: Vec<Tok>,
    /// Offsets of the unrecognised characters
    pub bad: Vec<usize>,
}

pub const TYPES: &[&str] = &[
    "void", "int1", "int8", "int16", "int32", "int64", "float32", "float64", "data128", "ptr",
];
pub const MODIFIERS: &[&str] =
    &["exported", "async", "memberfunc", "noreturn", "nosideeffects", "pure"];

fn name_char(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// Parses the tail of a name: any number of `:`* followed by a name character
fn tail(cs: &[char], mut i: usize) -> usize {
    loop {
        let mut j = i;
        while j < cs.len() && cs[j] == ':' {
            j += 1;
        }
        if j < cs.len() && name_char(cs[j]) {
            i = j + 1;
        } else {
            return i;
        }
    }
}

fn int(cs: &[char], i: usize, radix: u32) -> Option<usize> {
    let c = *cs.get(i)?;
    if !c.is_digit(radix) {
        return None;
    }
    if c == '0' {
        return Some(i + 1);
    }
    let mut j = i + 1;
    while j < cs.len() && cs[j].is_digit(radix) {
        j += 1;
    }
    Some(j)
}

pub fn lex(cs: &[char]) -> Lexed {
    let mut toks = vec![];
    let mut bad = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        let next = cs.get(i + 1).copied();
        let r: Option<(T, usize)> = match c {
            ' ' | '\t' => {
                i += 1;
                continue;
            }
            '\n' => Some((T::Newline, i + 1)),
            '\r' if next == Some('\n') => Some((T::Newline, i + 2)),
            '#' => {
                let mut j = i + 1;
                while j < cs.len()
                    && cs[j] != '\n'
                    && !(cs[j] == '\r' && cs.get(j + 1) == Some(&'\n'))
                {
                    j += 1;
                }
                Some((T::Comment, j))
            }
            '0'..='9' => match (c, next, int(cs, i + 2, 16)) {
                ('0', Some('x'), Some(e)) => Some((T::Hex, e)),
                _ => int(cs, i, 10).map(|e| (T::Num, e)),
            },
            '"' => cs[i + 1..].iter().position(|c| *c == '"').map(|p| (T::Str, i + p + 2)),
            '[' | ']' | '{' | '}' | '(' | ')' | '<' | '>' | '=' | ',' | ';' | ':' | '*' | '.' => {
                Some((T::Punct, i + 1))
            }
            '@' => Some((T::Global, tail(cs, i + 1))),
            '%' => Some((T::Local, tail(cs, i + 1))),
            '!' => Some((T::Dbg, tail(cs, i + 1))),
            _ if c.is_alphabetic() || c == '_' => {
                let e = tail(cs, i + 1);
                let s: String = cs[i..e].iter().collect();
                let t = match s.as_str() {
                    "declare" => T::Declare,
                    "define" => T::Define,
                    x if TYPES.contains(&x) => T::Type,
                    x if MODIFIERS.contains(&x) => T::Modifier,
                    _ => T::Ident,
                };
                Some((t, e))
            }
            _ => None,
        };
        match r {
            Some((t, e)) => {
                toks.push(Tok { t, s: cs[i..e].iter().collect(), span: (i, e) });
                i = e;
            }
            None => {
                bad.push(i);
                i += 1;
            }
        }
    }
    Lexed { toks, bad }
}

/// Whether `s` is exactly one token of class `t`
pub fn single(s: &str, t: T) -> bool {
    let cs: Vec<char> = s.chars().collect();
    let l = lex(&cs);
    l.bad.is_empty() && l.toks.len() == 1 && l.toks[0].t == t && l.toks[0].span == (0, cs.len())
}
