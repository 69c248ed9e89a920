//! Properties of the parser: what fajt makes of a program against the grammar.
use crate::plex::MODULE;
use crate::rt::*;
use crate::{dump, rparse, Job};
use fajt_ast::{Program, SourceType};

/// positions are compared too
pub const SPANS: u32 = 1;
/// only positions are judged: what is accepted is the business of the other properties
pub const ONLY: u32 = 2;
pub const TOTAL: u32 = 1 << 8;
pub const EMIT: u32 = 2 << 8;

pub fn parse(src: &str, module: bool) -> Result<Program, fajt_parser::error::Error> {
    if module {
        fajt_parser::parse_module(src)
    } else {
        fajt_parser::parse_script(src)
    }
}

/// 0 same, 20 accepted but no program, 21 rejected although a program, 22 other tree, 23 other positions
fn diff<E>(f: &Result<Program, E>, r: &Result<Program, ()>, m: u32) -> u32 {
    match (f, r) {
        (Err(_), Err(_)) => 0,
        (Ok(_), Err(_)) => 20,
        (Err(_), Ok(_)) => 21,
        (Ok(a), Ok(b)) => {
            if a == b {
                0
            } else if dump::shape(a) != dump::shape(b) {
                22
            } else if m & SPANS != 0 {
                23
            } else {
                0
            }
        }
    }
}
pub fn against_grammar(src: &str, m: u32) {
    let module = m & MODULE != 0;
    let f = parse(src, module);
    let (r, dc, met) = rparse::program(src, module, 0);
    notef!("fajt: {:?}", f);
    notef!("grammar: {:?}", r);
    if dc {
        cover(3);
        return;
    }
    out(f.is_ok() as u64);
    let d = diff(&f, &r, m);
    if d == 0 || m & ONLY != 0 && (d == 20 || d == 21) {
        cover(if f.is_ok() { 1 } else { 2 });
        return;
    }
    // a recorded finding: the difference is exactly the recorded behaviour
    if met != 0 {
        for q in 1..16u32 {
            if q & !met == 0 {
                let (r, _, _) = rparse::program(src, module, q);
                if diff(&f, &r, m) == 0 {
                    for b in 0..4 {
                        if q >> b & 1 != 0 {
                            known(11 + b);
                        }
                    }
                    cover(4);
                    return;
                }
            }
        }
    }
    fail(d)
}
/// a tree or an error with a position inside the text
pub fn total(src: &str, m: u32) {
    match parse(src, m & MODULE != 0) {
        Ok(p) => {
            notef!("fajt: {:?}", p);
            out(1);
            cover(1);
        }
        Err(e) => {
            notef!("fajt: {:?}", e);
            let s = e.vp_span();
            out(s.start as u64);
            check(s.start <= s.end && s.end <= src.len(), 30);
            check(src.is_char_boundary(s.start), 31);
            cover(2);
        }
    }
}
fn digits(n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut n = n;
    loop {
        v.insert(0, b'0' + (n % 10) as u8);
        n /= 10;
        if n == 0 {
            return v;
        }
    }
}
/// the place of an error about a word or a token is that word or token
fn named(b: &[u8], e: &fajt_parser::error::Error) {
    use fajt_lexer::token::TokenValue as V;
    use fajt_parser::error::ErrorKind as K;
    let (at, end) = (e.vp_span().start, e.vp_span().end);
    if (at == 0 && end == 0) || at >= b.len() {
        return;
    }
    // an error is not placed in the white space before what it is about
    check(at == end || !matches!(b[at], b' ' | b'\t' | b'\n' | b'\r' | 11 | 12), 36);
    let name = match e.kind() {
        K::UnexpectedIdent(i) => i.name.as_str(),
        K::ForbiddenIdentifier(n) => n.as_str(),
        K::ExpectedIdentifier(v) | K::UnexpectedToken(v, _) => match v {
            V::Keyword(k) => k.as_str(),
            V::Identifier(n) => n.as_str(),
            V::Punctuator(p) => p.as_str(),
            _ => return,
        },
        K::SyntaxError(m) if m.contains("regular expression") => {
            return check(b[at] == b'/', 38);
        }
        _ => return,
    };
    let mut plain = true;
    for k in at..end.min(b.len()) {
        plain &= b[k] < 128 && b[k] != b'\\';
    }
    check(!plain || (end <= b.len() && &b[at..end] == name.as_bytes()), 37);
}
/// what is reported for an error names and shows the place of it
pub fn emit(src: &str, m: u32) {
    let e = match parse(src, m & MODULE != 0) {
        Ok(_) => {
            cover(1);
            return;
        }
        Err(e) => e,
    };
    let mut o: Vec<u8> = Vec::with_capacity(1024);
    let r = fajt_parser::error::emitter::ErrorEmitter::new("x.js", src, &mut o).emit_error(&e);
    check(r.is_ok(), 40);
    notef!("fajt: {:?}\n{}", e, String::from_utf8_lossy(&o));
    check(std::str::from_utf8(&o).is_ok(), 41);
    let b = src.as_bytes();
    let (at, end) = (e.vp_span().start, e.vp_span().end);
    out(at as u64);
    named(b, &e);
    // the line `--> file` follows the message, which is one line unless it quotes the source
    let mut i = 0;
    let arrow = b" --> x.js";
    while !(o[i..].starts_with(arrow) && (i == 0 || o[i - 1] == b'\n')) {
        i += 1;
        check(i + arrow.len() <= o.len(), 42);
    }
    check(i > 1, 43);
    let mut want = arrow.to_vec();
    if at == 0 && end == 0 {
        // the place is not known (the input ended)
        want.push(b'\n');
        check(o[i..].starts_with(&want), 44);
        cover(3);
        return;
    }
    // line, column and text of the line `at` is on
    let (mut line, mut start) = (1, 0);
    for k in 0..at {
        if b[k] == b'\n' {
            line += 1;
            start = k + 1;
        }
    }
    let mut stop = at;
    while stop < b.len() && b[stop] != b'\n' {
        stop += 1;
    }
    want.push(b':');
    want.extend_from_slice(&digits(line));
    want.push(b':');
    want.extend_from_slice(&digits(at - start + 1));
    want.push(b'\n');
    check(o[i..].starts_with(&want), 45);
    i += want.len();
    // an empty gutter, the line and the marks below it
    let gutter = digits(line).len() + 1;
    let mut want = vec![b' '; gutter];
    want.extend_from_slice(b"|\n");
    want.extend_from_slice(&digits(line));
    want.extend_from_slice(b" | ");
    let mut marks = vec![b' '; gutter];
    marks.extend_from_slice(b"| ");
    let mut ascii = true;
    for k in start..stop {
        if b[k] == b'\t' {
            want.extend_from_slice(b"    ");
        } else {
            want.push(b[k]);
        }
        if k < at {
            ascii &= b[k] < 128;
            for _ in 0..if b[k] == b'\t' { 4 } else { 1 } {
                marks.push(b' ');
            }
        }
    }
    want.push(b'\n');
    check(o[i..].starts_with(&want), 46);
    i += want.len();
    marks.push(b'^');
    if ascii {
        check(o[i..].starts_with(&marks), 47);
        i += marks.len();
        let mut n = 1;
        while i < o.len() && o[i] == b'^' {
            i += 1;
            n += 1;
        }
        // as many marks as the offending text has on this line
        if end <= stop {
            let mut plain = true;
            for k in at..end {
                plain &= b[k] < 128 && b[k] != b'\t';
            }
            check(!plain || n == (end - at).max(1), 48);
        }
    }
    cover(2);
}
pub fn run(j: &Job, src: &str) {
    match (j.mode >> 8) & 255 {
        0 => against_grammar(src, j.mode),
        1 => total(src, j.mode),
        2 => emit(src, j.mode),
        _ => crate::ptree::run(j, src),
    }
}
