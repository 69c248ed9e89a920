//! Builds source texts with symbolic holes from templates.
//!   $$ @@     literal '$' / '@'
//!   $1..$9    that many arbitrary ASCII bytes
//!   $[a¦b¦c]  one of the alternatives, chosen by a symbolic index (padded with blanks to equal width)
//!   @[a¦b¦c]  one of the alternatives, chosen by forking (exact text)
//!   $h        an arbitrary hexadecimal digit     $d  an arbitrary decimal digit
//!   $2u       two arbitrary bytes forming one code point U+0080..U+07FF
//!   $3u $4u   an arbitrary three-byte / four-byte code point
//!   $(a)N     N bytes of the alphabet named a
//!   $_n @_n   one of the alternatives of the named set n (see `named`)
//!   ⟂ (\x01)  (inside an @ alternative) what follows is appended to the end of the text
//!   @*N*c     N times the character c
//!   ~~        (inside alternatives) nothing
//! and before everything else
//!   \x02      the text is cut at any character boundary
//!   \x03      any one ASCII character of the text is replaced by an arbitrary ASCII byte
//!   \x04      an arbitrary ASCII byte is put in front of any character of the text, or at its end
//!   \x05      likewise, one of several characters of two to four bytes
//!   \x06      likewise, a line feed
//!   \x07      any one ASCII character of the text is left out
use crate::rt::*;

pub fn build(t: &str) -> String {
    let op = t.as_bytes()[0];
    let s = if op < 8 {
        let mut v = text(&t[1..]);
        let at = choice(v.len().max(1) as u32 + (op != 3) as u32) as usize;
        // the text is not symbolic here, so this does not fork
        assume(at >= v.len() || v[at] & 0xC0 != 0x80);
        match op {
            2 => v.truncate(at),
            3 => {
                assume(at < v.len() && v[at] < 128);
                v[at] = sym();
                assume(v[at] < 128);
            }
            4 => {
                let x = sym();
                assume(x < 128 && at <= v.len());
                v.insert(at, x);
            }
            5 => {
                let c = ["é", "\u{A0}", "\u{2028}", "\u{2029}", "\u{FEFF}", "\u{3000}", "\u{200D}", "中", "𝒜", "😀"][choice(10) as usize];
                let t = v.split_off(at.min(v.len()));
                v.extend_from_slice(c.as_bytes());
                v.extend_from_slice(&t);
            }
            6 => v.insert(at.min(v.len()), b'\n'),
            7 => {
                assume(at < v.len() && v[at] < 128);
                v.remove(at);
            }
            _ => fail(9005),
        }
        v
    } else {
        text(t)
    };
    let s = unsafe { String::from_utf8_unchecked(s) };
    note(&s);
    s
}

fn text(t: &str) -> Vec<u8> {
    let b = t.as_bytes();
    let mut v: Vec<u8> = Vec::with_capacity(64);
    let mut later: Vec<Vec<u8>> = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if (c == b'$' || c == b'@') && i + 1 < b.len() {
            let n = b[i + 1];
            if n == c {
                v.push(c);
                i += 2;
                continue;
            }
            if n == b'[' || n == b'_' {
                let set;
                let (b, mut j): (&[u8], usize) = if n == b'[' {
                    (b, i + 2)
                } else {
                    set = named(b[i + 2]);
                    (set.as_bytes(), 0)
                };
                let mut alts: Vec<Vec<u8>> = vec![vec![]];
                loop {
                    if b[j] == 0xC2 && b[j + 1] == 0xA6 {
                        alts.push(vec![]);
                        j += 2;
                    } else if b[j] == b']' && j + 1 < b.len() && b[j + 1] == b']' {
                        alts.last_mut().unwrap().push(b']');
                        j += 2;
                    } else if b[j] == b']' {
                        break;
                    } else if b[j] == b'~' && b[j + 1] == b'~' {
                        j += 2;
                    } else {
                        alts.last_mut().unwrap().push(b[j]);
                        j += 1;
                    }
                }
                if n == b'_' && j + 1 != b.len() {
                    fail(9004);
                }
                i = if n == b'[' { j + 1 } else { i + 3 };
                if c == b'$' {
                    pick(&alts, &mut v);
                } else {
                    let k = choice(alts.len() as u32) as usize;
                    match alts[k].iter().position(|c| *c == 1) {
                        Some(m) => {
                            v.extend_from_slice(&alts[k][..m]);
                            later.push(alts[k][m + 1..].to_vec());
                        }
                        None => v.extend_from_slice(&alts[k]),
                    }
                }
                continue;
            }
            if c == b'@' && n == b'*' {
                let (mut k, mut j) = (0, i + 2);
                while b[j] != b'*' {
                    k = k * 10 + (b[j] - b'0') as usize;
                    j += 1;
                }
                for _ in 0..k {
                    v.push(b[j + 1]);
                }
                i = j + 2;
                continue;
            }
            if c == b'@' && n == b'h' {
                v.push(b"0123456789abcdef"[choice(16) as usize]);
                i += 2;
                continue;
            }
            if c == b'$' {
                match n {
                    b'(' => {
                        // $(a)N: N bytes of the named alphabet a
                        let al = alphabet(b[i + 2]);
                        for _ in 0..(b[i + 4] - b'0') {
                            let x = sym();
                            assume((x as usize) < al.len());
                            v.push(al[x as usize]);
                        }
                        i += 3;
                    }
                    b'3' if i + 2 < b.len() && b[i + 2] == b'u' => {
                        // the first two bytes are chosen by forking, the last one symbolically
                        let k = choice(128 + 2) as u8;
                        let mut k = k as u32 * 8 + choice(8);
                        k += 32; // skip E0 80..9F
                        if k >= 13 * 64 + 32 {
                            k += 32; // skip ED A0..BF
                        }
                        assume(k < 1024);
                        v.push(0xE0 + (k / 64) as u8);
                        v.push(0x80 + (k % 64) as u8);
                        v.push(tail());
                        i += 3;
                        continue;
                    }
                    b'4' if i + 2 < b.len() && b[i + 2] == b'u' => {
                        let k = 16 + choice(256);
                        v.push(0xF0 + (k / 64) as u8);
                        v.push(0x80 + (k % 64) as u8);
                        v.push(tail());
                        v.push(tail());
                        i += 3;
                        continue;
                    }
                    b'2' if i + 2 < b.len() && b[i + 2] == b'u' => {
                        v.push(0xC2 + choice(30) as u8);
                        v.push(tail());
                        i += 3;
                        continue;
                    }
                    b'1'..=b'9' => {
                        for _ in 0..(n - b'0') {
                            let x = sym();
                            assume(x < 128);
                            v.push(x);
                        }
                    }
                    b'd' => {
                        let x = sym();
                        assume(x >= b'0' && x <= b'9');
                        v.push(x);
                    }
                    b'h' => {
                        let x = sym();
                        assume((x >= b'0' && x <= b'9') | (x >= b'a' && x <= b'f') | (x >= b'A' && x <= b'F'));
                        v.push(x);
                    }
                    _ => fail(9000),
                }
                i += 2;
                continue;
            }
        }
        if c == 0xC2 && b[i + 1] == 0xA6 {
            fail(9003);
        }
        v.push(c);
        i += 1;
    }
    while let Some(s) = later.pop() {
        v.extend_from_slice(&s);
    }
    v
}

fn named(n: u8) -> &'static str {
    match n {
        // binary operators
        b'b' => " ?? ¦ || ¦ && ¦ | ¦ ^ ¦ & ¦ == ¦ != ¦ === ¦ !== ¦ < ¦ > ¦ <= ¦ >= ¦ instanceof ¦ in ¦ << ¦ >> ¦ >>> ¦ + ¦ - ¦ * ¦ / ¦ % ¦ ** ]",
        // one operator of each precedence
        b'l' => " ?? ¦ || ¦ && ¦ | ¦ ^ ¦ & ¦ == ¦ < ¦ in ¦ << ¦ + ¦ - ¦ * ¦ % ¦ ** ]",
        // prefix operators
        b'u' => "! ¦~ ¦+ ¦- ¦++ ¦-- ¦typeof ¦void ¦delete ¦await ¦new ¦~~]",
        // assignment operators
        b'q' => "=¦*=¦/=¦%=¦+=¦-=¦<<=¦>>=¦>>>=¦&=¦^=¦|=¦**=¦=>¦==]",
        // tokens
        b't' => "a ¦b ¦1 ¦'s'¦`t`¦(¦)¦[¦]]¦{¦}¦,¦;¦:¦=¦=>¦...¦.¦?.¦?¦+¦++¦*¦/¦\n¦async ¦await ¦yield ¦let ¦function ¦class ¦get ¦of ¦in ¦new ¦super ¦this ¦if ¦else ¦return ¦var ¦for ¦do ¦while ¦import ¦export ¦default ¦case ¦static ¦**]",
        // tokens of expressions
        b'e' => "a ¦b ¦1 ¦(¦)¦[¦]]¦{¦}¦,¦:¦=¦=>¦...¦.¦?.¦?¦+¦++¦*¦!¦async ¦await ¦yield ¦in ¦new ¦`t`]",
        // few tokens of patterns
        b'p' => "a ¦1 ¦(¦)¦[¦]]¦{¦}¦,¦:¦=¦=>¦...¦.]",
        // words that are identifiers in some contexts
        b'k' => "as¦async¦from¦get¦of¦set¦target¦let¦static¦implements¦interface¦package¦private¦protected¦public¦yield¦await¦eval¦arguments¦enum¦a]",
        // reserved words and a name
        b'r' => "break¦case¦catch¦class¦const¦continue¦debugger¦default¦delete¦do¦else¦enum¦export¦extends¦false¦finally¦for¦function¦if¦import¦in¦instanceof¦new¦null¦return¦super¦switch¦this¦throw¦true¦try¦typeof¦var¦void¦while¦with¦a]",
        // where code can be
        b'x' => "~~¦function f(){\x01}¦function*g(){\x01}¦async function h(){\x01}¦async function*i(){\x01}¦()=>{\x01}¦async()=>{\x01}¦({m(){\x01}})¦({*m(){\x01}})¦({async m(){\x01}})¦({get m(){\x01}})¦class A{m(){\x01}}¦class A{static m(){\x01}}¦class A extends B{constructor(){\x01}}¦class A extends B{m(){\x01}}¦'use strict';\x01¦{\x01}]",
        // functions and code
        b'f' => "~~¦function f(){\x01}¦function*g(){\x01}¦async function h(){\x01}¦()=>{\x01}¦async()=>{\x01}¦'use strict';\x01]",
        b'h' => "~~¦function*g(){\x01}¦async function h(){\x01}¦'use strict';\x01]",
        // where an expression can be
        b'y' => "~~¦(\x01)¦[\x01]]¦f(\x01)¦a[\x01]]¦({a:\x01})¦({[\x01]]:1})¦`${\x01}`¦a?\x01:c¦a?b:\x01¦x=\x01¦x=>\x01¦a,\x01¦!\x01¦if(\x01);¦for(a in \x01);¦for(;\x01;);¦throw \x01¦var v=\x01¦let {v=\x01}=a¦switch(\x01){}¦switch(a){case \x01:}¦new a(\x01)¦a?.[\x01]]¦class A extends (\x01){}¦(p=\x01)=>1¦function f(p=\x01){}]",
        // between tokens
        b'w' => " ¦\n¦/**/¦//x\n¦/*\n*/]",
        // between tokens, fewer
        b'v' => " ¦\n]",
        // candidates for assignment targets
        b'z' => "a¦eval¦arguments¦this¦1¦a.b¦a[b]]¦a()¦a?.b¦a`t`¦(a)¦((a))¦(a.b)¦(a,b)¦(eval)¦[a]]¦{a}¦({a})¦([a]])¦[]]¦{}¦new a¦new a.b¦new.target¦super.x¦a+b¦-a¦a++¦x=>1¦(a=b)¦[[a]]]]¦[[a]][0]]¦{}.x¦{a=1}¦[a=1]]¦[a,,b]]¦null¦async¦let¦yield¦await¦function(){}¦class{}¦`t`¦/r/¦'s'¦a.b()¦a().b¦import.meta¦async()¦static]",
        // items of parameter lists and patterns
        b'i' => "a¦a=1¦...a¦[a]]¦{a}¦{a=1}¦{a:b}¦{a:b=1}¦{...a}¦[a,...b]]¦[,a]]¦a.b¦(a)¦{a(){}}¦...[a]]¦...{a}¦...a=1¦{a:1}¦[a.b]]¦[a=1]]¦{[a]]:b}¦{'s':b}¦{get a(){}}¦[...a,]]¦{...a,b}¦a=x=>1¦a=b=c¦[a]]=b¦{a}=b¦yield¦await¦eval¦this¦~~]",
        // lists
        b'L' => "~~¦,¦,,¦a¦a,¦a,,¦,a¦,,a¦a,b¦a,,b¦a,b,¦,a,b¦a,b,c¦...a¦...a,¦,...a¦,,...a¦a,...b¦a,,...b¦a,...b,¦a,...b,c¦...a,b¦...a,...b¦...[a]]¦...{a}¦...[a]],b¦a=1¦a=1,b=2¦a=1,¦a,b=1¦,a=1¦a=1,...b¦[a]],b¦[a,,...b]]¦[,...a]]¦{a},{b}¦[a]]=1,{b}=2¦a:b¦a:b,¦a:b,c:d¦a:b,...c¦a,b:c¦a:b=1,c¦a,a¦...a=1¦a:b=1,...c¦[a]]:b,c¦'a':b¦1:a,b¦a(){},b¦a,b(){}¦get a(){},b]",
        // deeply nested texts
        b'Z' => "(((((((((((((((((((((((((\x01)))))))))))))))))))))))))¦([[[[[[[[[[[[[[[[[[[[[[[[\x01]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]])¦({a:{a:{a:{a:{a:{a:{a:{a:{a:{a:{a:{a:{a:{a:{a:{a:{a:{a:{a:{a:{a:{a:{a:{a:\x01}}}}}}}}}}}}}}}}}}}}}}}})¦(async(async(async(async(async(async(async(async(async(async(async(async(async(async(async(async(async(async(async(async(async(async(async(async(\x01)))))))))))))))))))))))))¦(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(f(\x01)))))))))))))))))))))))))¦(`${`${`${`${`${`${`${`${`${`${`${`${`${`${`${`${`${`${`${`${`${`${`${`${\x01}`}`}`}`}`}`}`}`}`}`}`}`}`}`}`}`}`}`}`}`}`}`}`}`)¦(x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>x=>\x01)¦(x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:x=>({y:\x01})})})})})})})})})})})})})})})})})})})})})})})}))¦(([([([([([([([([([([([([([([([([([([([([([([([([\x01]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1]])=>1)¦(a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:a?b:\x01)¦(!!!!!!!!!!!!!!!!!!!!!!!!\x01)¦(new(new(new(new(new(new(new(new(new(new(new(new(new(new(new(new(new(new(new(new(new(new(new(new(\x01)))))))))))))))))))))))))¦(a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[a[\x01]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]])¦(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(a?.(\x01)))))))))))))))))))))))))¦(...[...[...[...[...[...[...[...[...[...[...[...[...[...[...[...[...[...[...[...[...[...[...[...[\x01]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]])¦(function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){function(){\x01}}}}}}}}}}}}}}}}}}}}}}}})¦(class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[class{[\x01]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}}]](){}})¦(class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=class{a(b=\x01){}}){}}){}}){}}){}}){}}){}}){}}){}}){}}){}}){}}){}}){}}){}}){}}){}}){}}){}}){}}){}}){}}){}}){}})¦(a=a=a=a=a=a=a=a=a=a=a=a=a=a=a=a=a=a=a=a=a=a=a=a=\x01)¦(a**a**a**a**a**a**a**a**a**a**a**a**a**a**a**a**a**a**a**a**a**a**a**a**\x01)¦(({...({...({...({...({...({...({...({...({...({...({...({...({...({...({...({...({...({...({...({...({...({...({...({...\x01})})})})})})})})})})})})})})})})})})})})})})})}))¦(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(a,(\x01)))))))))))))))))))))))))¦(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(/r/+(\x01)))))))))))))))))))))))))¦(import(import(import(import(import(import(import(import(import(import(import(import(import(import(import(import(import(import(import(import(import(import(import(import(\x01)))))))))))))))))))))))))¦({a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){{a(){\x01}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}})¦(a+a+a+a+a+a+a+a+a+a+a+a+a+a+a+a+a+a+a+a+a+a+a+a+\x01)¦(a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?a?\x01:b:b:b:b:b:b:b:b:b:b:b:b:b:b:b:b:b:b:b:b:b:b:b:b)¦(()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{()=>{\x01}}}}}}}}}}}}}}}}}}}}}}}})¦(async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>async()=>\x01)¦(new new anew new anew new anew new anew new anew new anew new anew new anew new anew new anew new anew new anew new anew new anew new anew new anew new anew new anew new anew new anew new anew new anew new anew new a\x01)¦(a.ba.ba.ba.ba.ba.ba.ba.ba.ba.ba.ba.ba.ba.ba.ba.ba.ba.ba.ba.ba.ba.ba.ba.b\x01)¦(-(-(-(-(-(-(-(-(-(-(-(-(-(-(-(-(-(-(-(-(-(-(-(-(\x01)))))))))))))))))))))))))¦([,...[,...[,...[,...[,...[,...[,...[,...[,...[,...[,...[,...[,...[,...[,...[,...[,...[,...[,...[,...[,...[,...[,...[,...\x01]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]]])¦(f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,f(a,\x01)))))))))))))))))))))))))¦{{{{{{{{{{{{{{{{{{{{{{{{\x01}}}}}}}}}}}}}}}}}}}}}}}}¦if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)if(a)\x01¦if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else if(a);else \x01¦for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)for(;;)\x01¦do do do do do do do do do do do do do do do do do do do do do do do do \x01;while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a);while(a)¦l:l:l:l:l:l:l:l:l:l:l:l:l:l:l:l:l:l:l:l:l:l:l:l:\x01¦function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){function f(){\x01}}}}}}}}}}}}}}}}}}}}}}}}¦try{try{try{try{try{try{try{try{try{try{try{try{try{try{try{try{try{try{try{try{try{try{try{try{\x01}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}}catch{}¦switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:switch(a){case 1:\x01}}}}}}}}}}}}}}}}}}}}}}}}¦class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){class A{m(){\x01}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}}¦async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){async function f(){\x01}}}}}}}}}}}}}}}}}}}}}}}}¦a\na\na\na\na\na\na\na\na\na\na\na\na\na\na\na\na\na\na\na\na\na\na\na\n\x01¦for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(\x01in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);in a);¦for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(for(\x01of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);of a);¦for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=for([a=\x01]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);]]of b);¦var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=var{a=\x01}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;}=b;¦with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)with(a)\x01¦for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/for(;;){x\n/\x01}}}}}}}}}}}}}}}}}}}}}}}}¦while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)while(a)\x01¦let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=let[a=\x01]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;]]=b;¦for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)for(a of b)\x01¦label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{label:{\x01}}}}}}}}}}}}}}}}}}}}}}}}]",
        // deeply nested texts that are known to take exponential time
        b'K' => "((a=(a=(a=(a=(a=(a=(a=(a=(a=(a=(a=(a=(a=(a=(a=(a=(a=(a=(a=(a=(a=(a=(a=(a=\x01)))))))))))))))))))))))))¦((x=(x=(x=(x=(x=(x=(x=(x=(x=(x=(x=(x=(x=(x=(x=(x=(x=(x=(x=(x=(x=(x=(x=(x=\x01)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)¦(async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=async(x=\x01)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)=>1)¦([a=[a=[a=[a=[a=[a=[a=[a=[a=[a=[a=[a=[a=[a=[a=[a=[a=[a=[a=[a=[a=[a=[a=[a=\x01]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1]]=1)¦(({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=({a=\x01}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1)}=1))¦(({[({[({[({[({[({[({[({[({[({[({[({[({[({[({[({[({[({[({[({[({[({[({[({[\x01]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1})]]:1}))]",
        // words of import and export declarations
        b'm' => " a ¦,¦{a}¦{a as b}¦{}¦* ¦* as b ¦ from ¦'y'¦{default as c}¦{if as d}¦{if}¦{a,}¦{a,b}¦{,}¦ default ¦ as ¦;¦\n¦ var a=1 ¦ function f(){}¦ class A{}¦(¦.meta¦1]",
        // directives
        b'd' => "'use strict';¦\"use strict\"\n¦'use strict' ¦'a';¦'use strict'.b;¦('use strict');¦'use strict'+c;¦'use strict',d;¦'use  strict';¦`use strict`;¦~~¦;]",
        // what strict mode does not allow, and what it does
        b'n' => "with(a);¦var static¦let yield¦eval=1¦arguments++¦delete a¦delete(a)¦delete a.b¦package¦interface=>1¦({eval}=a)¦let=1¦a¦implements:;¦static()¦private`t`¦for(eval of a);¦[arguments]]=a¦function f(){with(a);}¦()=>{with(a);}¦({m(){with(a);}})¦x=>delete x]",
        // property names
        b'a' => "a¦'s'¦1¦[a]]¦constructor¦get¦set¦static¦async¦prototype¦if¦yield¦await¦'constructor'¦`t`¦a.b]",
        // operands with `in`
        b'o' => "b in c¦(b in c)¦[b in c]]¦f(b in c)¦`${b in c}`¦x=>b in c¦x=>{b in c}¦function(){b in c}¦{a:b in c}¦b?c in d:e¦b?c:d in e¦class{m(){b in c}}¦a[b in c]]¦{[b in c]]:1}¦b,c in d¦b=c in d¦b¦!b in c¦new b(c in d)¦a?.[b in c]]¦{m(p=b in c){}}¦(x=b in c)=>1¦async x=>b in c¦class extends(b in c){}¦{a=b in c}=d¦[a=b in c]]=d]",
        // statements and declarations
        b's' => "a¦;¦{}¦{a}¦var b¦let c¦const d=1¦function e(){}¦async function f(){}¦function*g(){}¦class H{}¦let¦let\n[i]]=1¦let[j]]=1¦if(k);¦for(;;);¦while(l);¦do;while(m)¦return¦break¦continue¦throw n¦try{}catch{}¦switch(o){}¦with(p);¦q:;¦debugger¦x=>1¦async x=>1¦async\nfunction r(){}¦(function(){})¦[]]¦'s'¦1¦/r/¦`t`¦import('x')¦import 'x'¦export{a}¦yield¦await a¦async¦new a¦a=1¦~~]",
        // primary expressions
        b'c' => "a¦this¦1¦'s'¦`t`¦(a)¦[]]¦function(){}¦class{}¦new a¦new a()¦super.a¦async¦async(a)¦null¦/r/¦import(a)¦new.target¦x=>1¦({})¦a++¦!a]",
        // what continues a left-hand side expression
        b'g' => ".b¦[c]]¦()¦(d,...e)¦`t`¦`${f}`¦?.g¦?.[h]]¦?.(i)¦.if¦?.if¦\n(j)¦~~]",
        // expressions of every kind
        b'X' => "a¦a,b¦a=b,c¦a,b in c¦this¦1¦'s'¦`t`¦`t${a}u${b}`¦a`t`¦a`t${b}u`¦(a)¦(a,b)¦[]]¦[a]]¦[,a,]]¦[a,...b,c]]¦[...a]]¦{}¦{a}¦{a,b,}¦{a:b}¦{a:b,c:d}¦{[a]]:b}¦{'s':b}¦{1:b}¦{...a}¦{a(){}}¦{a(b,c){d}}¦{get a(){}}¦{set a(b){}}¦{async a(){}}¦{*a(){}}¦{async*a(){}}¦{[a]](){}}¦{a=1}¦function(){}¦function a(b,c){d}¦function(...a){}¦function(a=1){}¦function*(){}¦function*a(){yield}¦async function(){}¦async function a(){await b}¦async function*(){}¦class{}¦class A{}¦class extends A{}¦class A extends B{c(){}}¦class{static a(){}}¦class{get a(){}}¦class{set a(b){}}¦class{constructor(){}}¦class{;a(){};[b]](){}}¦class{*a(){}async b(){}async*c(){}}¦a=>b¦a=>{}¦a=>{b}¦a=>({})¦(a)=>b¦(a,b)=>c¦()=>a¦(a=1)=>b¦(...a)=>b¦([a]])=>b¦({a})=>b¦async a=>b¦async(a)=>b¦async()=>{}¦async(a,b)¦async¦new a¦new a()¦new a(b)¦new a.b(c)¦new new a()()¦new a()()¦new a().b¦new(a)¦new a[b]]¦new.target¦a.b¦a[b]]¦a.b.c¦a[b]][c]]¦a.if¦a()¦a(b,c)¦a(...b)¦a()()¦a().b¦a.b()¦a[b]]()¦a?.b¦a?.[b]]¦a?.()¦a?.b.c¦a?.b(c)¦a?.b?.c¦a?.b[c]]¦super.a¦super[a]]¦super()¦import(a)¦import.meta¦a++¦a--¦++a¦--a¦a.b++¦++a.b¦a[b]]--¦a().b++¦+a¦-a¦!a¦~a¦typeof a¦void a¦delete a¦delete a.b¦!!a¦- -a¦a+b¦a+b*c¦a*b+c¦a-b-c¦a**b¦a**b**c¦(-a)**b¦-a**b¦a??b¦a??b||c¦a||b&&c¦a in b¦a instanceof b¦a<b¦a==b¦a|b¦a?b:c¦a?b:c?d:e¦a=b¦a=b=c¦a+=b¦a.b=c¦a[b]]=c¦[a]]=b¦[a,...b]]=c¦{a}=b¦[a=1]]=b¦{a:b}=c¦{a=1}=b¦{a:[b]]}=c¦{...a}=b¦yield¦yield a¦yield*a¦await a¦/r/¦/r/g¦/=r/¦null¦true¦false¦~~]",
        // every place of an expression
        b'H' => "~~¦(\x01)¦[\x01]]¦[a,\x01]]¦[...\x01]]¦[\x01,a]]¦({a:\x01})¦({a:\x01,b})¦({[\x01]]:1})¦({[\x01]](){}})¦({...\x01})¦({a(b=\x01){}})¦({a(){\x01}})¦({get a(){\x01}})¦({async*a(){\x01}})¦f(\x01)¦f(a,\x01)¦f(\x01,a)¦f(...\x01)¦a[\x01]]¦a?.[\x01]]¦a?.(\x01)¦new a(\x01)¦new(\x01)¦new \x01¦(\x01).a¦(\x01)()¦\x01.a¦\x01[a]]¦\x01()¦\x01?.a¦\x01`t`¦\x01++¦\x01+a¦a+\x01¦\x01*a¦a*\x01¦\x01**a¦a**\x01¦\x01??a¦a??\x01¦\x01||a¦a&&\x01¦\x01 in a¦a<\x01¦\x01?a:b¦a?\x01:b¦a?b:\x01¦\x01=a¦a=\x01¦\x01+=a¦a-=\x01¦\x01,a¦a,\x01¦\x01=>a¦(\x01)=>a¦async(\x01)=>a¦async(\x01)¦a=>\x01¦async a=>\x01¦()=>{\x01}¦(a=\x01)=>b¦!\x01¦-\x01¦++\x01¦typeof \x01¦delete \x01¦await \x01¦yield \x01¦`${\x01}`¦`a${b}${\x01}c`¦import(\x01)¦(class extends \x01{})¦(class{[\x01]](){}})¦(class{a(b=\x01){}})¦(class{a(){\x01}})¦function*g(){yield \x01}¦function*g(){yield*\x01}¦function*g(a=\x01){}¦async function f(){await \x01}¦async function f(){for await(a of \x01);}¦async function f(a=\x01){}¦function f(){return \x01}¦throw \x01¦if(\x01)a¦if(\x01);else a¦while(\x01);¦do;while(\x01)¦for(\x01;;);¦for(;\x01;);¦for(;;\x01);¦for(\x01 in a);¦for(\x01 of a);¦for(a in \x01);¦for(a of \x01);¦for(var a=\x01;;);¦for(let[a=\x01]]of b);¦with(\x01);¦switch(\x01){}¦switch(a){case \x01:b}¦switch(a){default:\x01}¦var a=\x01¦let a=\x01¦const a=\x01¦var a=\x01,b=1¦let[a=\x01]]=b¦let{a=\x01}=b¦let{[\x01]]:a}=b¦[\x01]]=a¦({a:\x01}=b)¦({a=\x01}=b)¦({[\x01]]:a}=b)¦[...\x01]]=a¦function f(a=\x01){}¦function f([a=\x01]]){}¦l:\x01¦'use strict';\x01¦\x01;a¦\x01\na¦a\n\x01¦a;\x01¦{\x01}¦try{\x01}catch{}¦try{}catch(a){\x01}¦try{}catch([a=\x01]]){}¦try{}finally{\x01}¦if(a)\x01¦if(a)\x01;else b¦if(a);else \x01¦for(;;)\x01¦do \x01;while(a)¦with(a)\x01¦class A{m(){\x01}}¦class A{static m(){\x01}}¦class A extends B{constructor(){\x01}}¦class A extends \x01{}¦function f(){\x01}]",
        // statements of every kind
        b'S' => "a¦;¦{}¦{a}¦{a;b}¦var a¦var a=1¦var a,b¦var a=1,b=2¦var [a]]=b¦var {a}=b¦let a¦let a=1¦let [a]]=b¦let {a,b:c}=d¦const a=1¦const [a]]=b¦function a(){}¦function a(b){c}¦function a(b,...c){return d}¦async function a(){}¦function*a(){}¦async function*a(){}¦class A{}¦class A extends B{}¦class A{a(){}static b(){}}¦let¦let[a]]=1¦if(a);¦if(a)b¦if(a){}¦if(a);else b¦if(a){b}else{c}¦if(a);else if(b);else c¦for(;;);¦for(a;b;c)d¦for(var a=1;b;c++){}¦for(let a,b;;);¦for(a in b);¦for(var a in b);¦for(let a in b)c¦for(const [a]] in b);¦for(a of b);¦for(var a of b)c¦for(let {a} of b);¦for([a]] of b);¦for(a.b of c);¦for await(a of b);¦while(a);¦while(a)b¦while(a){}¦do;while(a)¦do a;while(b)¦do{}while(a)¦return¦return a¦break¦break a¦continue¦continue a¦throw a¦try{}catch{}¦try{}catch(a){}¦try{a}catch([b]]){c}¦try{}finally{}¦try{}catch(a){}finally{b}¦switch(a){}¦switch(a){case b:}¦switch(a){case b:c;d}¦switch(a){default:}¦switch(a){case b:default:c;case d:}¦with(a);¦with(a)b¦a:;¦a:b¦a:b:c¦a:{}¦debugger¦a=>1¦a=>{}¦async a=>1¦async\nfunction b(){}¦(function(){})¦(class{})¦({})¦[]]¦'s'¦'use strict'¦1¦/r/¦`t`¦a.b¦a()¦a=1¦a+b¦a?b:c¦a,b¦++a¦a++¦!a¦new a¦yield¦yield a¦await a¦async¦this¦super.a¦super()¦import('x')¦import.meta¦import'x'¦import a from'x'¦import{a}from'x'¦import{a as b}from'x'¦import*as a from'x'¦import a,{b}from'x'¦import a,*as b from'x'¦export{a}¦export{a as b}¦export{a}from'x'¦export*from'x'¦export*as a from'x'¦export default a¦export default function(){}¦export default class{}¦export var a¦export let a=1¦export function a(){}¦export class A{}¦export async function a(){}¦~~]",
        // every place of a statement
        b'T' => "~~¦{\x01}¦{a;\x01}¦{\x01;a}¦\x01;a¦\x01\na¦a;\x01¦a\n\x01¦if(a)\x01¦if(a){\x01}¦if(a)\x01;else b¦if(a)\x01\nelse b¦if(a);else \x01¦if(a)if(b)\x01\nelse c¦for(;;)\x01¦for(a in b)\x01¦for(a of b){\x01}¦for(var a of b)\x01¦while(a)\x01¦do \x01;while(a)¦do \x01\nwhile(a)¦with(a)\x01¦l:\x01¦l:m:\x01¦switch(a){case 1:\x01}¦switch(a){case 1:\x01;case 2:}¦switch(a){default:\x01}¦try{\x01}catch{}¦try{}catch(a){\x01}¦try{\x01}finally{}¦try{}finally{\x01}¦function f(){\x01}¦function f(){\x01;a}¦function*g(){\x01}¦async function f(){\x01}¦async function*f(){\x01}¦(function(){\x01})¦()=>{\x01}¦async()=>{\x01}¦({m(){\x01}})¦({get a(){\x01}})¦({set a(b){\x01}})¦({*m(){\x01}})¦({async m(){\x01}})¦class A{m(){\x01}}¦class A{static m(){\x01}}¦class A{get a(){\x01}}¦class A extends B{constructor(){\x01}}¦(class{m(){\x01}})¦'use strict';\x01¦'s';\x01¦function f(){'use strict';\x01}¦function f(){for(;;){\x01}}¦`${()=>{\x01}}`¦x={a:function(){\x01}}]",
        // every place of a pattern or parameter
        b'P' => "~~¦[\x01]]=x¦[\x01,b]]=x¦[b,\x01]]=x¦[\x01,]]=x¦[,\x01]]=x¦({a:\x01}=x)¦({\x01}=x)¦({\x01,b}=x)¦({b,\x01}=x)¦({[a]]:\x01}=x)¦({a:\x01,b}=x)¦[[\x01]]]]=x¦[{\x01}]]=x¦({a:[\x01]]}=x)¦({a:{\x01}}=x)¦let[\x01]]=x¦let[b,\x01]]=x¦var{\x01}=x¦var{b,\x01}=x¦const{a:\x01}=x¦let{a:[\x01]]}=x¦function f(\x01){}¦function f(b,\x01){}¦function f(\x01,b){}¦function f([\x01]]){}¦function f({\x01}){}¦(\x01)=>x¦(b,\x01)=>x¦(\x01,b)=>x¦([\x01]])=>x¦({\x01})=>x¦({a:\x01})=>x¦async(\x01)=>x¦async(b,\x01)=>x¦async([\x01]])=>x¦(\x01)¦(b,\x01)¦[\x01]]¦({\x01})¦for([\x01]]of x);¦for({\x01}of x);¦for(let[\x01]]of x);¦for(const{\x01}in x);¦for(\x01 of x);¦for(var \x01 of x);¦try{}catch(\x01){}¦try{}catch([\x01]]){}¦({set a(\x01){}})¦({set a(b,\x01){}})¦({get a(\x01){}})¦({m(\x01){}})¦({m(b,\x01){}})¦({*m(\x01){}})¦({async m(\x01){}})¦class A{m(\x01){}}¦class A{m(b,\x01){}}¦class A{set a(\x01){}}¦class A{set a(b,\x01){}}¦class A{set a(\x01,b){}}¦class A{constructor(\x01){}}¦class A{constructor(b,\x01){}}¦class A{static m(b,\x01){}}¦function*g(\x01){}¦async function f(\x01){}¦(function(\x01){})¦f(\x01)¦f(b,\x01)¦new f(\x01)¦x=>[\x01]]=y¦`${[\x01]]=x}`¦for([\x01]]=x;;);¦if([\x01]]=x);¦'use strict';[\x01]]=x¦'use strict';function f(\x01){}¦'use strict';(\x01)=>x¦function f(\x01){'use strict'}¦(\x01)=>{'use strict'}¦({m(\x01){'use strict'}})¦class A{m(\x01){'use strict'}}]",
        _ => fail(9002),
    }
}

fn pick(alts: &[Vec<u8>], v: &mut Vec<u8>) {
    let n = alts.len();
    let w = alts.iter().map(|a| a.len()).max().unwrap();
    let mut table = vec![b' '; n * w];
    for (k, a) in alts.iter().enumerate() {
        table[k * w..k * w + a.len()].copy_from_slice(a);
    }
    let idx = sym();
    assume((idx as usize) < n);
    for j in 0..w {
        v.push(table[idx as usize * w + j]);
    }
}

/// a symbolic UTF-8 continuation byte
fn tail() -> u8 {
    let x = sym();
    assume((x >= 0x80) & (x <= 0xBF));
    x
}

fn alphabet(n: u8) -> &'static [u8] {
    match n {
        b'p' => b"=.<>!?&|+-*/%^~:;,(){}[]1a ",
        b'o' => b"=.<>!?&|+-*",
        b'n' => b"0179.oxbXeE_+-aFn;\\",
        b'c' => b"/*\n\r a-<>!",
        b'r' => b"/\\[]\na(g",
        b't' => b"`$\\{}\na",
        b'q' => b"'\"\\\n\ranx0`",
        b'h' => b"<!->/*\n a",
        b'm' => b"a/}` \n\\${[",
        b'i' => b"abcdefghijklmnopqrstuvwxyz",
        _ => fail(9001),
    }
}
