//! What each property explores.
use crate::plex::*;
use crate::Job;

macro_rules! jobs {
    ($($tier:literal $mode:expr, $t:expr;)*) => { &[$(Job { tier: $tier, mode: $mode, t: $t }),*] };
}
const L: u32 = KIND | ERR;

pub static C01: &[Job] = jobs! {
    0 TILING, "$4";
    0 TILING, "a$2u$1;";
    0 TILING, "$2ub $2u c";
    0 TILING, "'$2u'$1+x";
    0 TILING, "/*$2u*/a//$2u\nb";
    0 TILING, "$3";
    0 TILING, "a $(h)4 b";
    0 TILING, "0$(n)3;";
    1 TILING, "$5";
    1 TILING, "$2u$3";
    1 TILING, "@[`¦'¦\"¦\\u¦//¦/*¦<!--¦0x¦1e¦.]$4";
    0 TILING, "\x03@_S";
    0 TILING, "\x03@_X";
    0 TILING, "\x04@_S";
    0 TILING, "\x04@_X";
    0 TILING, "\x05@_S";
    0 TILING, "@*65600* $[a¦é]$[+¦'b'¦`c`]$[1¦~~]";
    0 TILING, "@*300*a$[ ¦+¦é]'@*300*b$['¦\n]@*300*1$[;¦.]@*300*\n+";
};
pub static C02: &[Job] = jobs! {
    0 L | PUNCT, "$3";
    0 L | PUNCT, "a$(p)3b";
    0 L | PUNCT, "a$(o)4b";
    1 L | PUNCT, "a$(p)4b";
    1 L | PUNCT, "$4";
    1 L | PUNCT, "a$(o)5";
    0 L | PUNCT, "\x03@_S";
    0 L | PUNCT, "\x03@_X";
    0 L | PUNCT, "\x04@_S";
    0 L | PUNCT, "\x04@_X";
    0 L | PUNCT, "\x05@_S";
};
pub static C03: &[Job] = jobs! {
    0 L | NUM, "$d$3";
    0 L | NUM, "$(n)5";
    1 L | NUM, "$d$4";
    0 L | NUM, ".$d$3";
    0 L | NUM, "0$(n)4";
    0 L | NUM, "1$(n)4";
    0 L | NUM, "0x$3";
    0 L | NUM, "$d.$d@[e¦E¦e+¦E-]$2";
    0 L | NUM, "$d$2u";
    1 L | NUM, "$(n)6";
    1 L | NUM, "$d$5";
    1 L | NUM, "0$5";
    0 L | NUM, "\x03@_S";
    0 L | NUM, "\x03@_X";
    0 L | NUM, "\x04@_S";
    0 L | NUM, "\x04@_X";
    0 L | NUM, "\x05@_S";
};
pub static C04: &[Job] = jobs! {
    0 L | STR, "'$4";
    0 L | STR, "\"$4";
    0 L | STR, "'$3'x";
    0 L | STR, "\"$2u$1\"";
    0 L | STR, "'\\$2';";
    0 L | STR, "'\\$3u';";
    0 L | STR, "'$(q)5";
    0 L | STR, "'\\x$3'";
    0 L | STR, "'\\u$h$h$h$h'";
    1 L | STR, "\"$(q)7";
    1 L | STR, "'$6";
    0 L | STR, "\x03@_S";
    0 L | STR, "\x03@_X";
    0 L | STR, "\x04@_S";
    0 L | STR, "\x04@_X";
    0 L | STR, "\x05@_S";
};
pub static C05: &[Job] = jobs! {
    0 L | WORD, "$3";
    0 L | WORD, "a$3";
    0 L | WORD, "@[await¦as¦async¦break¦case¦catch¦class¦const¦continue¦debugger¦default¦delete¦do¦else¦enum¦export¦extends¦false¦finally¦for¦from¦function¦get¦if¦implements¦import¦in¦instanceof¦interface¦let¦new¦null¦of¦package¦private¦protected¦public¦return¦set¦static¦super¦switch¦target¦this¦throw¦true¦try¦typeof¦var¦void¦while¦with¦yield]$1";
    0 L | WORD, "a$2u";
    0 L | WORD, "$2u$1";
    0 L | WORD, "a$3u";
    0 L | WORD, "$3u";
    0 L | WORD, "@[a¦~~]@[𐐀¦𝒜¦😀¦𠀀¦󠄀¦􏿿]$1";
    1 L | WORD, "$4u";
    0 L | WORD, "\\u0@[0¦6]$2";
    0 L | WORD, "\\u@h@h@h$h";
    1 L | WORD, "\\u@h$3";
    1 L | WORD, "\\u@h@h$h$h";
    0 L | WORD, "\\u{$3";
    0 L | WORD, "a\\u{$2}";
    1 L | WORD, "a\\u{$3}";
    0 L | WORD, "a\\u00$h$h";
    0 L | WORD, "\\u{@[0¦1¦D8¦DF¦FF]@h@h$h}";
    0 L | WORD, "\\u{@[00¦01¦0f¦10¦11]ff$h$h}";
    1 L | WORD, "$4";
    1 L | WORD, "a\\u@h@h$h$h";
    1 L | WORD, "\\u{$5";
    1 L | WORD, "$2u$2u";
    1 L | WORD, "\\u{00@h@h@h$h$h$h}";
    0 L | WORD, "\x03@_S";
    0 L | WORD, "\x03@_X";
    0 L | WORD, "\x04@_S";
    0 L | WORD, "\x04@_X";
    0 L | WORD, "\x05@_S";
};
pub static C06: &[Job] = jobs! {
    0 L | TRIVIA | NL | START, "a$3b";
    0 L | TRIVIA | NL | START, "a/$3b";
    1 L | TRIVIA | NL | START, "a/$4b";
    0 L | TRIVIA | NL | START, "a/*$(c)4*/b";
    0 L | TRIVIA | NL | START, "//$3b";
    0 L | TRIVIA | NL | START, "a$2ub";
    0 L | TRIVIA | NL | START, "a$3ub";
    0 L | TRIVIA | NL | START, "a//$3ub\nc";
    0 L | TRIVIA | NL | START, "a/*$3u*/b";
    0 L | TRIVIA | NL | START, "/*$3";
    0 L | TRIVIA | NL | START, "$3";
    1 L | TRIVIA | NL | START, "a$(c)6b";
    1 L | TRIVIA | NL | START, "a/*$5*/b";
    1 L | TRIVIA | NL | START, "a$3u$3ub";
    0 L | TRIVIA | NL | START, "\x03@_S";
    0 L | TRIVIA | NL | START, "\x03@_X";
    0 L | TRIVIA | NL | START, "\x04@_S";
    0 L | TRIVIA | NL | START, "\x04@_X";
    0 L | TRIVIA | NL | START, "\x05@_S";
};
pub static C07: &[Job] = jobs! {
    0 L | REGEX | TPL | REREAD | SPAN | NL, "/$3";
    1 L | REGEX | TPL | REREAD | SPAN | NL, "/$4";
    0 L | REGEX | TPL | REREAD | SPAN | NL, "a/$(r)5/g";
    0 L | REGEX | TPL | REREAD | SPAN | NL, "/[$3]/";
    0 L | REGEX | TPL | REREAD | SPAN | NL, "/\\$2/g";
    0 L | REGEX | TPL | REREAD, "/$3u/";
    0 L | REGEX | TPL | REREAD, "/[$3u]/";
    0 L | REGEX | TPL | REREAD | SPAN | NL, "/\\$3u/";
    0 L | REGEX | TPL | REREAD | SPAN | NL, "`$4";
    0 L | REGEX | TPL | REREAD | SPAN | NL, "`a$${$(m)3}`";
    0 L | REGEX | TPL | REREAD | SPAN | NL, "}$(t)5";
    0 L | REGEX | TPL | REREAD | SPAN | NL, "/=$3/";
    0 L | REGEX | TPL | REREAD | SPAN | NL, "/a/$2u;";
    1 L | REGEX | TPL | REREAD | SPAN | NL, "`$(t)7`";
    1 L | REGEX | TPL | REREAD | SPAN | NL, "/$(r)7/";
    1 L | REGEX | TPL | REREAD | SPAN | NL, "`$${$(m)4}`";
    1 L | REGEX | TPL | REREAD | SPAN | NL, "a/$6/b";
    0 L | REGEX | TPL | REREAD, "\x03@_S";
    0 L | REGEX | TPL | REREAD, "\x03@_X";
    0 L | REGEX | TPL | REREAD, "\x04@_S";
    0 L | REGEX | TPL | REREAD, "\x04@_X";
    0 L | REGEX | TPL | REREAD, "\x05@_S";
};
pub static C08: &[Job] = jobs! {
    0 L | TRIVIA | NL | START, "<!$3";
    0 L | TRIVIA | NL | START | MODULE, "<!$3";
    1 L | TRIVIA | NL | START, "<!$4";
    1 L | TRIVIA | NL | START | MODULE, "<!$4";
    0 L | TRIVIA | NL | START, "--$3";
    0 L | TRIVIA | NL | START | MODULE, "--$3";
    0 L | TRIVIA | NL | START, "a$(h)5\nb";
    0 L | TRIVIA | NL | START | MODULE, "a$(h)5\nb";
    0 L | TRIVIA | NL | START, "$(h)5";
    0 L | TRIVIA | NL | START | MODULE, "$(h)5";
    0 L | TRIVIA | NL | START, "/*$(h)3*/-->$1\nb";
    1 L | TRIVIA | NL | START, "$(h)7";
    1 L | TRIVIA | NL | START | MODULE, "$(h)7";
    0 L | TRIVIA | NL | START, "\x03@_S";
    0 L | TRIVIA | NL | START, "\x03@_X";
    0 L | TRIVIA | NL | START, "\x04@_S";
    0 L | TRIVIA | NL | START, "\x04@_X";
    0 L | TRIVIA | NL | START, "\x05@_S";
    0 L | TRIVIA | NL | START | MODULE, "\x03@_S";
    0 L | TRIVIA | NL | START | MODULE, "\x04@_S";
};
pub static C09: &[Job] = jobs! {
    0 REWIND, "$2";
    0 REWIND, "a$2b";
    0 REWIND, "a\n/$(m)4";
    0 REWIND, "`$(m)4";
    0 REWIND, "}$(m)3";
    0 REWIND, "$2u a$2u b";
    0 REWIND, "{$(p)2 \n b";
    0 REWIND, "x /*$(c)2*/ y\n--> z\n w";
    1 REWIND, "$3";
    1 REWIND, "@[(¦{¦[]$(p)3 \n b";
    1 REWIND, "$(m)6";
    0 REWIND, "@_S";
    0 REWIND, "@_X";
    0 REWIND, "@*65600* a$[+¦\n]$[b¦/c/¦`d`]";
};
pub static C27: &[Job] = jobs! {
    0 FROMSTR, "$(i)2$(i)2";
    0 FROMSTR, "$[await¦as¦async¦break¦case¦catch¦class¦const¦continue¦debugger¦default¦delete¦do¦else¦enum¦export¦extends¦false¦finally¦for¦from¦function¦get¦if¦implements¦import¦in¦instanceof¦interface¦let¦new¦null¦of¦package¦private¦protected¦public¦return¦set¦static¦super¦switch¦target¦this¦throw¦true¦try¦typeof¦var¦void¦while¦with¦yield]";
    0 FROMSTR, "$1";
    0 FROMSTR, "$2";
    0 FROMSTR, "$3";
    0 FROMSTR, "$4";
    0 FROMSTR, "$5";
    0 FROMSTR, "$6";
    0 FROMSTR, "$7";
    0 FROMSTR, "$8";
    0 FROMSTR, "$9";
    0 FROMSTR, "$9$1";
    0 FROMSTR, "$9$2";
    0 FROMSTR, "\x03@[await¦as¦async¦break¦case¦catch¦class¦const¦continue¦debugger¦default¦delete¦do¦else¦enum¦export¦extends¦false¦finally¦for¦from¦function¦get¦if¦implements¦import¦in¦instanceof¦interface¦let¦new¦null¦of¦package¦private¦protected¦public¦return¦set¦static¦super¦switch¦target¦this¦throw¦true¦try¦typeof¦var¦void¦while¦with¦yield]";
    0 FROMSTR, "\x04@[await¦as¦async¦break¦case¦catch¦class¦const¦continue¦debugger¦default¦delete¦do¦else¦enum¦export¦extends¦false¦finally¦for¦from¦function¦get¦if¦implements¦import¦in¦instanceof¦interface¦let¦new¦null¦of¦package¦private¦protected¦public¦return¦set¦static¦super¦switch¦target¦this¦throw¦true¦try¦typeof¦var¦void¦while¦with¦yield]";
};
