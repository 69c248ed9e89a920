//! Independent reference lexer, written from ECMA-262 clause 12 (ES2020 + numeric separators; legacy octal
//! literals are not part of the language fajt accepts, as its documentation and tests state).

#[derive(Clone, PartialEq, Debug)]
pub enum K {
    Punct(&'static str),
    /// identifier name (keywords included); `true` when it was written with an escape
    Word(String, bool),
    Num(String),
    Str(String, char),
    NoSub(String),
    Head(String),
    Middle(String),
    Tail(String),
    Regex(String),
    Eof,
}
#[derive(Clone, Debug)]
pub struct T {
    pub k: K,
    pub start: usize,
    /// where the token ends
    pub end: usize,
    /// where fajt reports it to end (differs for known finding 1)
    pub fend: usize,
    pub nl: bool,
    /// value after decoding escape sequences, when that differs from the recorded (undecoded) value
    pub cooked: Option<String>,
    /// contains an escape sequence that is invalid or outside the claim: any outcome for this token will do
    pub lenient: bool,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Goal {
    Div,
    Regex,
    TemplateTail,
}

/// token ends in a multi-byte character: fajt reports the end short (known finding 1)
pub const KF_SPAN_END: u32 = 1;
/// escape sequences are not decoded in string values (known finding 2)
pub const KF_ESCAPE: u32 = 2;

#[derive(Clone)]
pub struct Lx<'a> {
    pub s: &'a [u8],
    pub pos: usize,
    pub html: bool,
    /// set when the input is outside the claimed language fragment
    pub dontcare: bool,
    cooked: Option<String>,
    lenient: bool,
}

pub const PUNCTS: [&str; 56] = [
    ">>>=", "...", "===", "!==", "**=", "<<=", ">>=", ">>>", "=>", "==", "!=", "<=", ">=", "&&", "||", "??", "?.", "++", "--", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<", ">>", "**", "{", "}", "(", ")", "[", "]", ".", ";", ",", "<", ">", "+", "-", "*", "/", "%", "&", "|", "^", "!", "~", "?", ":", "=", "", "",
];

/// 0 none, 1 white space, 2 line terminator, 3 ID_Start, 4 ID_Continue only; None: not classified here
fn uni(c: u32) -> u8 {
    match c {
        0xA0 | 0xFEFF | 0x1680 | 0x2000..=0x200A | 0x202F | 0x205F | 0x3000 => 1,
        0x2028 | 0x2029 => 2,
        0x200C | 0x200D => 5,
        _ => match char::from_u32(c) {
            Some(ch) => {
                if unicode_id::UnicodeID::is_id_start(ch) {
                    3
                } else if unicode_id::UnicodeID::is_id_continue(ch) {
                    4
                } else {
                    0
                }
            }
            None => 0,
        },
    }
}
pub fn is_ws(c: u32) -> bool {
    if c < 128 { c == 9 || c == 11 || c == 12 || c == 32 } else { uni(c) == 1 }
}
pub fn is_lt(c: u32) -> bool {
    if c < 128 { c == 10 || c == 13 } else { c == 0x2028 || c == 0x2029 }
}
pub fn id_start(c: u32) -> bool {
    if c < 128 {
        let l = c | 0x20;
        (l >= 97 && l <= 122) || c == 36 || c == 95
    } else {
        uni(c) == 3
    }
}
pub fn id_part(c: u32) -> bool {
    if c < 128 { id_start(c) || (c >= 48 && c <= 57) } else { uni(c) >= 3 }
}
fn push(s: &mut String, c: u32) {
    s.push(unsafe { char::from_u32_unchecked(c) })
}
fn hexval(c: u32) -> Option<u32> {
    if c >= 48 && c <= 57 {
        Some(c - 48)
    } else if c >= 97 && c <= 102 {
        Some(c - 87)
    } else if c >= 65 && c <= 70 {
        Some(c - 55)
    } else {
        None
    }
}

impl<'a> Lx<'a> {
    pub fn new(s: &'a str, html: bool) -> Self {
        Lx { s: s.as_bytes(), pos: 0, html, dontcare: false, cooked: None, lenient: false }
    }
    pub fn byte(&self, i: usize) -> u8 {
        if self.pos + i < self.s.len() { self.s[self.pos + i] } else { 0 }
    }
    fn eof(&self) -> bool {
        self.pos >= self.s.len()
    }
    /// code point at byte position p and its length
    pub fn cp(&self, p: usize) -> Option<(u32, usize)> {
        if p >= self.s.len() {
            return None;
        }
        let b = self.s[p] as u32;
        let c = |i: usize| (self.s[p + i] & 0x3f) as u32;
        Some(if b < 0x80 {
            (b, 1)
        } else if b < 0xE0 {
            ((b & 0x1f) << 6 | c(1), 2)
        } else if b < 0xF0 {
            ((b & 0xf) << 12 | c(1) << 6 | c(2), 3)
        } else {
            ((b & 7) << 18 | c(1) << 12 | c(2) << 6 | c(3), 4)
        })
    }
    fn is(&self, i: usize, b: u8) -> bool {
        self.pos + i < self.s.len() && self.s[self.pos + i] == b
    }
    fn to_line_end(&mut self) {
        while let Some((c, n)) = self.cp(self.pos) {
            if is_lt(c) {
                break;
            }
            self.pos += n;
        }
    }
    /// white space and comments; Ok(newline seen)
    fn trivia(&mut self) -> Result<bool, ()> {
        self.gap(self.pos == 0)
    }
    pub fn gap(&mut self, first: bool) -> Result<bool, ()> {
        let mut nl = first;
        loop {
            let Some((c, n)) = self.cp(self.pos) else { return Ok(nl) };
            if is_lt(c) {
                nl = true;
                self.pos += n;
            } else if is_ws(c) {
                self.pos += n;
            } else if c == 47 && self.is(1, b'/') {
                self.to_line_end();
            } else if c == 47 && self.is(1, b'*') {
                self.pos += 2;
                loop {
                    let Some((c, n)) = self.cp(self.pos) else { return Err(()) };
                    if c == 42 && self.is(1, b'/') {
                        self.pos += 2;
                        break;
                    }
                    if is_lt(c) {
                        nl = true;
                    }
                    self.pos += n;
                }
            } else if c == 60 && self.is(1, b'!') && self.is(2, b'-') && self.is(3, b'-') {
                if !self.html {
                    return Err(());
                }
                self.to_line_end();
            } else if nl && c == 45 && self.is(1, b'-') && self.is(2, b'>') {
                if !self.html {
                    return Err(());
                }
                self.to_line_end();
            } else {
                return Ok(nl);
            }
        }
    }
    fn tok(&mut self, k: K, start: usize, nl: bool) -> T {
        let end = self.pos;
        let mut fend = end;
        if end > start && self.s[end - 1] >= 0x80 {
            let mut p = end - 1;
            while self.s[p] & 0xC0 == 0x80 {
                p -= 1;
            }
            fend = p + if self.s[p] >= 0xF0 { 2 } else { 1 };
        }
        T { k, start, end, fend, nl, cooked: self.cooked.take(), lenient: std::mem::replace(&mut self.lenient, false) }
    }
    pub fn next(&mut self, goal: Goal) -> Result<T, ()> {
        if goal == Goal::TemplateTail {
            let start = self.pos;
            if !self.is(0, b'}') {
                return Err(());
            }
            self.pos += 1;
            let (v, more) = self.template_chars()?;
            return Ok(self.tok(if more { K::Middle(v) } else { K::Tail(v) }, start, false));
        }
        let nl = self.trivia()?;
        let start = self.pos;
        let Some((c, n)) = self.cp(self.pos) else { return Ok(T { k: K::Eof, start, end: start, fend: start, nl, cooked: None, lenient: false }) };
        if id_start(c) || c == 92 {
            let (w, esc) = self.word()?;
            return Ok(self.tok(K::Word(w, esc), start, nl));
        }
        let d1 = self.byte(1);
        if (c >= 48 && c <= 57) || (c == 46 && d1 >= b'0' && d1 <= b'9') {
            let v = self.number()?;
            return Ok(self.tok(K::Num(v), start, nl));
        }
        if c == 34 || c == 39 {
            let v = self.string(c as u8)?;
            return Ok(self.tok(K::Str(v, c as u8 as char), start, nl));
        }
        if c == 96 {
            self.pos += 1;
            let (v, more) = self.template_chars()?;
            return Ok(self.tok(if more { K::Head(v) } else { K::NoSub(v) }, start, nl));
        }
        if c == 47 && goal == Goal::Regex {
            let v = self.regex()?;
            return Ok(self.tok(K::Regex(v), start, nl));
        }
        let _ = n;
        let p = self.punct(c as u8);
        if p.is_empty() || c >= 128 {
            return Err(());
        }
        self.pos += p.len();
        Ok(self.tok(K::Punct(p), start, nl))
    }
    /// longest punctuator starting here ("" if none)
    fn punct(&mut self, c: u8) -> &'static str {
        for p in PUNCTS.iter() {
            let q = p.as_bytes();
            if q.is_empty() || q[0] != c {
                continue;
            }
            if (1..q.len()).all(|i| self.is(i, q[i])) {
                if *p == "?." && self.byte(2) >= b'0' && self.byte(2) <= b'9' {
                    continue;
                }
                if *p == "." && self.byte(1) == b'.' {
                    // two adjacent dots: fajt reports an error at once, the grammar one token later
                    self.dontcare = true;
                }
                return p;
            }
        }
        ""
    }
    fn word(&mut self) -> Result<(String, bool), ()> {
        let mut w = String::new();
        let mut esc = false;
        let mut first = true;
        loop {
            let Some((c, n)) = self.cp(self.pos) else { break };
            if c == 92 {
                esc = true;
                if !self.is(1, b'u') {
                    return Err(());
                }
                self.pos += 2;
                let mut v: u32 = 0;
                if self.is(0, b'{') {
                    self.pos += 1;
                    let mut digits = 0;
                    loop {
                        let Some((h, _)) = self.cp(self.pos) else { return Err(()) };
                        if h == 125 && digits > 0 {
                            self.pos += 1;
                            break;
                        }
                        let Some(x) = hexval(h) else { return Err(()) };
                        v = v * 16 + x;
                        if v > 0x10FFFF {
                            return Err(());
                        }
                        digits += 1;
                        self.pos += 1;
                    }
                } else {
                    for _ in 0..4 {
                        let Some((h, _)) = self.cp(self.pos) else { return Err(()) };
                        let Some(x) = hexval(h) else { return Err(()) };
                        v = v * 16 + x;
                        self.pos += 1;
                    }
                }
                if !(if first { id_start(v) } else { id_part(v) }) {
                    return Err(());
                }
                w.push(char::from_u32(v).ok_or(())?);
            } else if if first { id_start(c) } else { id_part(c) } {
                w.push(unsafe { char::from_u32_unchecked(c) });
                self.pos += n;
            } else {
                break;
            }
            first = false;
        }
        Ok((w, esc))
    }
    /// digits with separators only between digits; Ok(count of digits)
    fn digits(&mut self, ok: impl Fn(u8) -> bool, out: &mut String) -> Result<usize, ()> {
        let mut n = 0;
        loop {
            let b = self.byte(0);
            if !self.eof() && ok(b) {
                out.push(b as char);
                self.pos += 1;
                n += 1;
            } else if self.is(0, b'_') {
                // a separator needs a digit on both sides
                if n == 0 || self.pos + 1 >= self.s.len() || !ok(self.byte(1)) {
                    return Err(());
                }
                out.push('_');
                self.pos += 1;
            } else {
                return Ok(n);
            }
        }
    }
    fn number(&mut self) -> Result<String, ()> {
        let mut v = String::new();
        let dec = |b: u8| b >= b'0' && b <= b'9';
        let x = self.byte(1) | 0x20;
        if self.is(0, b'0') && (x == b'x' || x == b'o' || x == b'b') {
            v.push('0');
            v.push(self.byte(1) as char);
            self.pos += 2;
            let n = if x == b'x' {
                self.digits(|b| hexval(b as u32).is_some(), &mut v)?
            } else if x == b'o' {
                self.digits(|b| b >= b'0' && b <= b'7', &mut v)?
            } else {
                self.digits(|b| b == b'0' || b == b'1', &mut v)?
            };
            if n == 0 {
                return Err(());
            }
        } else {
            if self.is(0, b'0') && (dec(self.byte(1)) || self.byte(1) == b'_') {
                return Err(());
            }
            if !self.is(0, b'.') {
                self.digits(dec, &mut v)?;
            }
            if self.is(0, b'.') {
                v.push('.');
                self.pos += 1;
                self.digits(dec, &mut v)?;
            }
            if self.byte(0) | 0x20 == b'e' {
                v.push(self.byte(0) as char);
                self.pos += 1;
                if self.is(0, b'+') || self.is(0, b'-') {
                    v.push(self.byte(0) as char);
                    self.pos += 1;
                }
                if self.digits(dec, &mut v)? == 0 {
                    return Err(());
                }
            }
        }
        if let Some((c, _)) = self.cp(self.pos) {
            if id_start(c) || c == 92 || (c >= 48 && c <= 57) {
                return Err(());
            }
        }
        Ok(v)
    }
    fn string(&mut self, q: u8) -> Result<String, ()> {
        self.pos += 1;
        let mut v = String::new();
        let mut cooked = String::new();
        loop {
            let Some((c, n)) = self.cp(self.pos) else { return Err(()) };
            if c == q as u32 {
                self.pos += 1;
                if cooked != v {
                    self.cooked = Some(cooked);
                }
                return Ok(v);
            }
            if c == 10 || c == 13 {
                return Err(());
            }
            if c == 92 {
                self.escape(&mut v, &mut cooked)?;
                continue;
            }
            push(&mut v, c);
            push(&mut cooked, c);
            self.pos += n;
        }
    }
    /// at a backslash: `v` receives what fajt records (known finding 2: the escaped character itself), `cooked`
    /// what the escape sequence denotes
    fn escape(&mut self, v: &mut String, cooked: &mut String) -> Result<(), ()> {
        self.pos += 1;
        let Some((e, m)) = self.cp(self.pos) else { return Err(()) };
        self.pos += m;
        push(v, e);
        if e == 13 && self.is(0, 10) {
            self.pos += 1;
            v.push('\n');
        }
        match e {
            110 => cooked.push('\n'),
            116 => cooked.push('\t'),
            98 => cooked.push('\u{8}'),
            118 => cooked.push('\u{b}'),
            102 => cooked.push('\u{c}'),
            114 => cooked.push('\r'),
            48..=57 => {
                if e != 48 || (self.byte(0) >= 48 && self.byte(0) <= 57) {
                    self.lenient = true; // legacy octal escapes and \8 \9
                }
                cooked.push('\0')
            }
            10 | 13 | 0x2028 | 0x2029 => {}
            120 | 117 => {
                let mut p = self.pos;
                let mut x: u32 = 0;
                let mut ok = true;
                if e == 117 && p < self.s.len() && self.s[p] == b'{' {
                    p += 1;
                    let mut k = 0;
                    while ok && p < self.s.len() && self.s[p] != b'}' {
                        match hexval(self.s[p] as u32) {
                            Some(h) if x < 0x1000000 => x = x * 16 + h,
                            _ => ok = false,
                        }
                        p += 1;
                        k += 1;
                    }
                    ok = ok && k > 0 && p < self.s.len();
                    p += 1;
                } else {
                    for _ in 0..(if e == 120 { 2 } else { 4 }) {
                        match if ok && p < self.s.len() { hexval(self.s[p] as u32) } else { None } {
                            Some(h) => x = x * 16 + h,
                            None => ok = false,
                        }
                        p += 1;
                    }
                }
                // an escape that denotes no scalar value: not representable / not valid
                match if ok { char::from_u32(x) } else { None } {
                    Some(c) => {
                        cooked.push(c);
                        while self.pos < p {
                            v.push(self.s[self.pos] as char);
                            self.pos += 1;
                        }
                    }
                    None => self.lenient = true,
                }
            }
            _ => push(cooked, e),
        }
        Ok(())
    }
    /// characters up to "`" (false) or "${" (true), both consumed
    fn template_chars(&mut self) -> Result<(String, bool), ()> {
        let mut v = String::new();
        let mut cooked = String::new();
        loop {
            let Some((c, n)) = self.cp(self.pos) else { return Err(()) };
            if c == 96 || (c == 36 && self.is(1, b'{')) {
                self.pos += if c == 96 { 1 } else { 2 };
                if cooked != v {
                    self.cooked = Some(cooked);
                }
                return Ok((v, c == 36));
            }
            if c == 92 {
                self.escape(&mut v, &mut cooked)?;
                continue;
            }
            self.pos += n;
            push(&mut v, c);
            if c == 13 {
                if !self.is(0, 10) {
                    cooked.push('\n');
                }
            } else {
                push(&mut cooked, c);
            }
        }
    }
    fn regex(&mut self) -> Result<String, ()> {
        let start = self.pos;
        self.pos += 1;
        let mut class = false;
        let mut n = 0;
        loop {
            let Some((c, m)) = self.cp(self.pos) else { return Err(()) };
            if is_lt(c) {
                return Err(());
            }
            self.pos += m;
            n += 1;
            if c == 92 {
                let Some((e, m)) = self.cp(self.pos) else { return Err(()) };
                if is_lt(e) {
                    return Err(());
                }
                self.pos += m;
            } else if c == 91 {
                class = true;
            } else if c == 93 {
                class = false;
            } else if c == 47 && !class {
                break;
            }
        }
        if n == 1 {
            return Err(());
        }
        while let Some((c, m)) = self.cp(self.pos) {
            if !id_part(c) {
                break;
            }
            self.pos += m;
        }
        Ok(unsafe { String::from_utf8_unchecked(self.s[start..self.pos].to_vec()) })
    }
}
