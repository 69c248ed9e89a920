//! Properties of the lexer.
use crate::rlex::*;
use crate::rt::*;
use crate::vocab;
use crate::Job;
use fajt_ast::{Literal, TemplatePart};
use fajt_common::io::{PeekRead, PeekReader, ReReadWithState};
use fajt_lexer::error::{Error, ErrorKind};
use fajt_lexer::token::{Token, TokenValue};
use fajt_lexer::{Lexer, LexerState};

/// which aspects of a token a property talks about
pub const KIND: u32 = 1;
pub const SPAN: u32 = 2;
pub const NL: u32 = 4;
/// acceptance/rejection of the token
pub const ERR: u32 = 8;
pub const MODULE: u32 = 16;
pub const REREAD: u32 = 32;
/// where tokens start (what white space and comments are)
pub const START: u32 = 64;
/// token classes a property talks about; a difference in another class ends the comparison silently
pub const PUNCT: u32 = 1 << 16;
pub const WORD: u32 = 1 << 17;
pub const NUM: u32 = 1 << 18;
pub const STR: u32 = 1 << 19;
pub const TPL: u32 = 1 << 20;
pub const REGEX: u32 = 1 << 21;
pub const TRIVIA: u32 = 1 << 22;

fn class_of(t: &T) -> u32 {
    match &t.k {
        K::Punct(_) => PUNCT,
        K::Word(..) => WORD,
        K::Num(_) => NUM,
        K::Str(..) => STR,
        K::NoSub(_) | K::Head(_) | K::Middle(_) | K::Tail(_) => TPL,
        K::Regex(_) => REGEX,
        K::Eof => TRIVIA,
    }
}
/// class of the token the grammar rejects: `p` is where the reference started to read it
fn class_at(src: &str, p: usize, html: bool, first: bool, goal: Goal) -> u32 {
    let mut g = Lx::new(src, html);
    g.pos = p;
    if goal == Goal::TemplateTail {
        return TPL;
    }
    if g.gap(first).is_err() {
        return TRIVIA;
    }
    let Some((c, _)) = g.cp(g.pos) else { return TRIVIA };
    let d = g.byte(1);
    if id_start(c) || c == 92 {
        WORD
    } else if (c >= 48 && c <= 57) || (c == 46 && d >= 48 && d <= 57) {
        NUM
    } else if c == 34 || c == 39 {
        STR
    } else if c == 96 {
        TPL
    } else if c == 47 && goal == Goal::Regex {
        REGEX
    } else {
        PUNCT
    }
}

/// 0 equal, 1 different, 2 equal to the recorded undecoded value
fn text(fajt: &str, want: &str, t: &T) -> u32 {
    if let Some(c) = &t.cooked {
        if fajt == c {
            return 0;
        }
        if fajt == want {
            return 2;
        }
        return 1;
    }
    if fajt == want {
        0
    } else {
        1
    }
}

fn kind_cmp(v: &TokenValue, t: &T) -> u32 {
    match (v, &t.k) {
        (TokenValue::Punctuator(p), K::Punct(q)) => (vocab::punct(p) != *q) as u32,
        (TokenValue::Keyword(k), K::Word(w, _)) => (vocab::keyword(k) != w) as u32,
        (TokenValue::Identifier(i), K::Word(w, _)) => (i != w || vocab::is_keyword(w)) as u32,
        (TokenValue::Literal(Literal::Number(n)), K::Num(w)) => (&n.raw != w) as u32,
        (TokenValue::Literal(Literal::String(s)), K::Str(w, d)) => {
            if s.delimiter != *d {
                1
            } else {
                text(&s.value, w, t)
            }
        }
        (TokenValue::Literal(Literal::Regexp(r)), K::Regex(w)) => (r != w) as u32,
        (TokenValue::Literal(Literal::Template(tp)), K::NoSub(w)) => {
            if tp.parts.len() != 1 {
                return 1;
            }
            match &tp.parts[0] {
                TemplatePart::String(s) => text(s, w, t),
                _ => 1,
            }
        }
        (TokenValue::TemplateHead(s), K::Head(w)) | (TokenValue::TemplateMiddle(s), K::Middle(w)) | (TokenValue::TemplateTail(s), K::Tail(w)) => text(s, w, t),
        _ => 1,
    }
}

/// Compares one outcome. `cl` is the class of the token by the grammar. Returns false when the comparison of
/// this input ends here.
fn cmp(f: Result<&Token, &Error>, r: &Result<T, ()>, m: u32, cl: u32) -> bool {
    let mine = m & cl != 0;
    match (f, r) {
        (Err(e), Ok(t)) if t.k == K::Eof => {
            notef!("end of input; fajt: {:?}", e);
            check(!mine || *e.kind() == ErrorKind::EndOfStream, 10);
            cover(1);
            false
        }
        (Err(e), Err(())) => {
            notef!("rejected; fajt: {:?}", e);
            check(!mine || *e.kind() != ErrorKind::EndOfStream, 11);
            cover(2);
            false
        }
        (Ok(f), Err(())) => {
            notef!("fajt: {:?}; grammar: no such token", f);
            check(!(mine && m & ERR != 0), 12);
            false
        }
        (Err(e), Ok(t)) => {
            notef!("fajt: {:?}; grammar: {:?}", e, t);
            if t.lenient {
                if mine {
                    known(KF_ESCAPE);
                }
                return false;
            }
            check(!(mine && m & ERR != 0), 13);
            false
        }
        (Ok(f), Ok(t)) => {
            notef!("fajt: {:?}; grammar: {:?}", f, t);
            out(f.span.start as u64);
            out(f.span.end as u64);
            if m & START != 0 {
                check(f.span.start == t.start, 18);
            }
            let k = if t.lenient { 2 } else { kind_cmp(&f.value, t) };
            if mine && m & KIND != 0 {
                check(k != 1, 14);
                if k == 2 {
                    known(KF_ESCAPE);
                }
            } else if k == 1 {
                // another property's concern
                return false;
            }
            if mine && m & SPAN != 0 {
                check(f.span.start == t.start, 15);
                if f.span.end != t.end {
                    check(f.span.end == t.fend, 16);
                    known(KF_SPAN_END);
                }
            }
            if m & NL != 0 {
                check(f.first_on_line == t.nl, 17);
            }
            true
        }
    }
}

/// Lexes the whole input with the default goal and compares every token.
pub fn stream(src: &str, m: u32) {
    let mut lx = match Lexer::new(src) {
        Ok(l) => l,
        Err(_) => fail(1),
    };
    if m & MODULE != 0 {
        lx.set_state(LexerState::default().with_html_comments_allowed(false));
    }
    let mut rf = Lx::new(src, m & MODULE == 0);
    loop {
        let f = lx.read();
        let p = rf.pos;
        let r = rf.next(Goal::Div);
        if rf.dontcare {
            cover(3);
            return;
        }
        let cl = match &r {
            Ok(t) => class_of(t),
            Err(()) => class_at(src, p, rf.html, p == 0, Goal::Div),
        };
        if m & TRIVIA != 0 {
            in_gap(src, m, p, f.as_ref(), &r);
        }
        if !cmp(f.as_ref(), &r, m, cl) {
            return;
        }
    }
}

/// What lies before a token is what keeps it from being read, or what cannot stand there is passed over: the gap is to blame.
fn in_gap(src: &str, m: u32, p: usize, f: Result<&Token, &fajt_lexer::error::Error>, r: &Result<T, ()>) {
    match (f, r) {
        (Err(_), Ok(t)) if t.start > p && t.k != K::Eof => {
            let Ok(mut lx) = Lexer::new(&src[t.start..]) else { fail(1) };
            if m & MODULE != 0 {
                lx.set_state(LexerState::default().with_html_comments_allowed(false));
            }
            check(lx.read().is_err(), 19);
        }
        (Ok(f), Err(())) => {
            let mut g = Lx::new(src, m & MODULE == 0);
            g.pos = p;
            if g.gap(p == 0).is_ok() {
                check(f.span.start <= g.pos, 29);
            }
        }
        _ => {}
    }
}

/// As `stream`, through the reader the parser uses, where at every "/" or "/=" and at every "}" the
/// consumer may decide to re-read the token as a regular expression or as a template continuation.
pub fn reread(src: &str, m: u32) {
    let Ok(lx) = Lexer::new(src) else { fail(1) };
    let Ok(mut rd) = PeekReader::new(lx) else { fail(1) };
    let mut rf = Lx::new(src, true);
    loop {
        let save = rf.clone();
        let mut p = save.pos;
        let mut goal = Goal::Div;
        let mut r = rf.next(Goal::Div);
        if let Ok(t) = &r {
            let (k, s, nl) = (&t.k, t.start, t.nl);
            let slash = *k == K::Punct("/") || *k == K::Punct("/=");
            if slash || *k == K::Punct("}") {
                // both sides must agree that the token is here before it can be re-read
                if !cmp(rd.current(), &r, m, class_of(t)) {
                    return;
                }
                if choice(2) == 1 {
                    let st = if slash { LexerState::regex_allowed() } else { LexerState::inside_template() };
                    check(rd.reread_with_state(st).is_ok(), 20);
                    rf = save;
                    rf.pos = s;
                    p = s;
                    goal = if slash { Goal::Regex } else { Goal::TemplateTail };
                    r = rf.next(goal);
                    if let Ok(t) = &mut r {
                        if slash {
                            t.nl = nl;
                        }
                    }
                }
            }
        }
        if rf.dontcare {
            cover(3);
            return;
        }
        let cl = match &r {
            Ok(t) => class_of(t),
            Err(()) => class_at(src, p, true, p == 0, goal),
        };
        if !cmp(rd.current(), &r, m, cl) {
            return;
        }
        if rd.consume().is_err() {
            fail(21);
        }
    }
}

/// C01: the tokens tile the source. Needs no second tokenizer: between tokens only white space and
/// comments, and each token's text spells its value.
pub fn tiling(src: &str) {
    let Ok(mut lx) = Lexer::new(src) else { fail(1) };
    let mut prev = 0;
    let mut gap = Lx::new(src, true);
    loop {
        let tok = match lx.read() {
            Ok(t) => t,
            Err(e) => {
                notef!("{:?}", e);
                if *e.kind() == ErrorKind::EndOfStream {
                    gap.pos = prev;
                    if let Ok(_) = gap.gap(prev == 0) {
                        check(gap.pos == src.len(), 30);
                        cover(1);
                    } else {
                        fail(31)
                    }
                } else {
                    cover(2);
                    let s = e.span();
                    check(s.start <= s.end, 40);
                    check(s.start <= src.len(), 41);
                }
                return;
            }
        };
        notef!("{:?}", tok);
        let (s, e0) = (tok.span.start, tok.span.end);
        out(s as u64);
        out(e0 as u64);
        check(s < e0 && e0 <= src.len(), 32);
        // known finding 1: the end of a token whose last character is a multi-byte one
        let mut e = e0;
        while !src.is_char_boundary(e) {
            e += 1;
        }
        if e != e0 {
            known(KF_SPAN_END);
        }
        check(s >= prev, 33);
        check(src.is_char_boundary(s), 34);
        gap.pos = prev;
        match gap.gap(prev == 0) {
            Ok(nl) => {
                check(gap.pos == s, 35);
                check(nl == tok.first_on_line, 36);
            }
            Err(()) => fail(37),
        }
        let t = &src[s..e];
        match &tok.value {
            TokenValue::Punctuator(p) => check(t == vocab::punct(p), 38),
            TokenValue::Keyword(k) => check(t == vocab::keyword(k) || t.as_bytes().iter().any(|b| *b == b'\\'), 38),
            TokenValue::Identifier(w) => check(t == w || t.as_bytes().iter().any(|b| *b == b'\\'), 38),
            TokenValue::Literal(Literal::Number(n)) => check(t == n.raw, 38),
            TokenValue::Literal(Literal::String(w)) => {
                let b = t.as_bytes();
                check(b.len() >= 2 && b[0] == w.delimiter as u8 && b[b.len() - 1] == b[0], 38);
                check(t.as_bytes().iter().any(|b| *b == b'\\') || &t[1..t.len() - 1] == w.value, 39);
            }
            TokenValue::Literal(Literal::Template(_)) => check(t.as_bytes()[0] == b'`' && e - s >= 2 && t.as_bytes()[e - s - 1] == b'`', 38),
            TokenValue::TemplateHead(_) => check(t.as_bytes()[0] == b'`' && e - s >= 3 && t.ends_with("${"), 38),
            _ => fail(39),
        }
        prev = e;
    }
}

fn open(src: &str) -> PeekReader<Token, Lexer<'_>> {
    let Ok(lx) = Lexer::new(src) else { fail(1) };
    let Ok(rd) = PeekReader::new(lx) else { fail(1) };
    rd
}
fn same(a: Result<&Token, &Error>, b: &Result<Token, Error>) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(x), Err(y)) => x.kind() == y.kind(),
        _ => false,
    }
}
/// C09: rewinding to a token gives the same tokens again, whatever was read in between.
pub fn rewind(src: &str) {
    // plain run
    let mut plain: Vec<Result<Token, Error>> = vec![];
    let mut rd = open(src);
    loop {
        match rd.current() {
            Ok(t) => plain.push(Ok(t.clone())),
            Err(e) => {
                plain.push(Err(e.clone()));
                break;
            }
        }
        if rd.consume().is_err() {
            fail(50)
        }
    }
    notef!("{:?}", plain);
    let n = plain.len();
    out(n as u64);
    if n < 2 {
        cover(2);
        return;
    }
    let mut rd = open(src);
    let k = choice((n - 1) as u32) as usize;
    for i in 0..k {
        check(same(rd.current(), &plain[i]), 51);
        let _ = rd.consume();
    }
    check(same(rd.current(), &plain[k]), 52);
    let Ok(saved) = rd.current().map(|t| t.clone()) else { fail(53) };
    // anything may happen in between
    let ahead = choice((n - k) as u32) as usize;
    for i in 0..ahead {
        if i + k < n - 1 {
            let is = |a: &str| matches!(rd.current(), Ok(Token { value: TokenValue::Punctuator(p), .. }) if vocab::punct(p) == a);
            let slash = is("/") || is("/=");
            if (slash || is("}")) && choice(2) == 1 {
                let st = if slash { LexerState::regex_allowed() } else { LexerState::inside_template() };
                check(rd.reread_with_state(st).is_ok(), 54);
            }
            if rd.current().is_err() {
                break;
            }
            let _ = rd.consume();
        }
    }
    check(rd.rewind_to(&saved).is_ok(), 55);
    for i in k..n {
        notef!("after rewind: {:?}", rd.current());
        check(same(rd.current(), &plain[i]), 56);
        if i + 1 < n {
            check(same(rd.peek(), &plain[i + 1]), 57);
            check(rd.consume().is_ok(), 58);
        }
    }
    cover(1);
}

/// C27: the spelling tables are inverse to parsing.
pub fn from_string(src: &str) {
    use fajt_lexer::token::{Keyword, Punctuator};
    let s = src.trim_end_matches(' ');
    match s.parse::<Keyword>() {
        Ok(k) => {
            cover(1);
            check(vocab::keyword(&k) == s, 60)
        }
        Err(_) => {
            cover(2);
            check(!vocab::is_keyword(s), 61)
        }
    }
    match s.parse::<Punctuator>() {
        Ok(p) => check(vocab::punct(&p) == s, 62),
        Err(_) => check(!PUNCTS.iter().any(|p| *p == s && s.len() > 0), 63),
    }
}

pub fn run(j: &Job, src: &str) {
    match (j.mode >> 8) & 255 {
        0 => {
            if j.mode & REREAD != 0 {
                reread(src, j.mode)
            } else {
                stream(src, j.mode)
            }
        }
        1 => tiling(src),
        2 => rewind(src),
        3 => from_string(src),
        _ => fail(9),
    }
}
pub const TILING: u32 = 1 << 8;
pub const REWIND: u32 = 2 << 8;
pub const FROMSTR: u32 = 3 << 8;
