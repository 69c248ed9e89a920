//! What each parser property explores.
use crate::plex::MODULE as M;
use crate::pparse::*;
use crate::Job;

macro_rules! jobs {
    ($($tier:literal $mode:expr, $t:expr;)*) => { &[$(Job { tier: $tier, mode: $mode, t: $t }),*] };
}

pub static C10: &[Job] = jobs! {
    0 TOTAL, "$3";
    0 TOTAL | M, "$3";
    0 TOTAL, "$4";
    0 TOTAL, "a$2u$1";
    0 TOTAL, "$3u$1";
    0 TOTAL, "$_t$_t$_t";
    0 TOTAL, "@_f$_t$_t";
    0 TOTAL | M, "@_f$_t$_t";
    0 TOTAL, "@_y$_e$_e";
    0 TOTAL, "@_x$_t$_t";
    1 TOTAL | M, "@_x$_t$_t";
    1 TOTAL | M, "$4";
    1 TOTAL | M, "$_t$_t$_t";
    1 TOTAL, "@_y$_e$_e$_e";
    1 TOTAL, "@_x$_t$_t$_t";
    1 TOTAL, "$5";
    1 TOTAL, "$_t$_t$_t$_t";
    0 TOTAL, "\x02@_H@_X";
    0 TOTAL, "\x02@_T@_S";
    0 TOTAL, "\x02@_P@_i";
    0 TOTAL | M, "\x02@_S";
    0 TOTAL, "\x03@_S";
    0 TOTAL, "\x04@_S";
    0 TOTAL, "\x05@_S";
    0 TOTAL, "\x05(@_X)";
    0 TOTAL, "\x03(@_X)";
    0 TOTAL | M, "@_T@_S";
    1 TOTAL, "\x04(@_X)";
    1 TOTAL, "\x03@_Ha";
    1 TOTAL, "\x03@_Pa";
    1 TOTAL | M, "\x03@_S";
    1 TOTAL | M, "\x02@_T@_S";
    1 TOTAL, "\x03@_H@[a.b¦[a]]¦(a)¦{a}¦a=>b¦a+b]";
    0 TOTAL, "@_P@_L";
    0 TOTAL, "\x07@_H@_X";
    0 TOTAL, "\x07@_T@_S";
    0 TOTAL | M, "\x07@_S";
    0 TOTAL, "@_Z@[a¦~~¦}¦)¦]]¦a b¦...a¦a=>b¦{a=1}¦/¦`¦=¦[a]]=1]";
    0 TOTAL, "@_Z$1";
    0 TOTAL, "@_K@[a¦)]";
    0 TOTAL, "[@*300*,$[a¦~~]$[,¦~~] ]";
    0 TOTAL, "@*300*;$[a¦)]";
    0 TOTAL, "@*300*\n$[a¦)]";
    0 TOTAL, "a@*300*b$[ ¦.]c";
    0 TOTAL, "@*24*{a$[;¦~~]@*24*}";
    0 TOTAL, "@*24*[a@*24*]$[=b¦;¦]]]";
    0 TOTAL, "@*24*(a@*24*)$[=b¦;¦)]";
    0 TOTAL, "@*24*!a$[=b¦;]";
    0 TOTAL, "'@*300*a$['¦~~]";
    0 TOTAL, "@*300*1$[.¦e1¦a]1";
};
pub static C26: &[Job] = jobs! {
    0 EMIT, "$3";
    0 EMIT | M, "$2";
    0 EMIT, "a\n\t$2";
    1 EMIT, "a\n\t$3";
    0 EMIT, "é\n a$2u$1";
    0 EMIT, "'$1$1é$1";
    0 EMIT, "a@_v@_t@_v@_t";
    1 EMIT, "a@_w@_t@_w$_t";
    0 EMIT, "@_f@_t@_t";
    0 EMIT, "@*65600* a$[ b¦)¦'¦.]";
    0 EMIT, "@*9*\n@*2*\t$[a¦\n]$[)¦\n¦']";
    0 EMIT, "@*98*\n@*2*\t$[a¦\n]$[)¦\n¦']";
    0 EMIT, "$[a¦\n]`$[~~¦\n]$[~~¦\n]` $[a¦`¦\n]$[)¦\n¦b]`";
    0 EMIT, "'$[a¦\\\n]$[a¦\\\n]'$[~~¦\n]'$[a¦\\\n]$[a¦\n]'";
    0 EMIT, "/*$[a¦\n]$[a¦\n]*/$[=¦)¦*]/*$[a¦\n]$[a¦\n]*/=";
    1 EMIT, "$4";
    1 EMIT, "@_x@_t@_t";
    1 EMIT, "a\n\t$4";
    0 EMIT, "\x02@_H@_X";
    0 EMIT, "\x02@_T@_S";
    0 EMIT, ";\n @_T@_S";
    0 EMIT, ";\n\t@_P@_i";
    0 EMIT, "\x05;\n@_S";
    1 EMIT, "\x03\n@_S";
    1 EMIT, "\x04\n(@_X)";
    1 EMIT, "\x03\n@_Ha";
};
pub static C31: &[Job] = jobs! {
    0 0, "$3";
    0 M, "$3";
    0 0, "$_t$_t$_t";
    0 0, "@_f$_t$_t";
    0 M, "@_f$_t$_t";
    1 0, "@_x$_t$_t";
    1 M, "@_x$_t$_t";
    0 0, "@_y$_e$_e";
    1 M, "$_t$_t$_t";
    1 0, "@_y$_e$_e$_e";
    1 0, "@_x$_t$_t$_t";
    1 0, "$4";
    1 0, "$_e$_e$_e$_e";
    0 0, "\x02@_S";
    0 0, "\x03@_S";
    0 0, "\x04@_S";
    0 0, "\x03(@_X)";
    0 0, "@_H@_X";
    1 0, "@_H$_X";
    0 0, "@_T@_S";
    0 0, "@_P@_i";
    0 M, "@_T@_S";
    1 M, "@_H@_X";
    1 0, "\x04(@_X)";
    1 0, "\x05(@_X)";
    1 0, "\x05@_S";
    1 M, "\x03@_S";
    1 M, "\x04@_S";
    1 0, "\x03@_Ha";
    1 0, "\x04@_Ha";
    1 0, "\x03@_Pa";
    1 0, "\x04@_Pa";
    1 0, "@_H@_H@[a¦a,b¦{a}¦a.b()¦a=>b]";
    1 0, "@_T@_T@[a¦;¦{}¦var a¦let a¦function a(){}¦a\n/b/g]";
    1 0, "@_T@_H@[a¦{a}¦a,b¦/b/]";
    0 0, "\x07@_H@_X";
    0 0, "\x07@_T@_S";
    0 0, "[@*300*,$[a¦~~]$[,¦~~] ]";
    0 0, "@*300*;$[a¦)]";
    0 0, "@*300*\n$[a¦)]";
    0 0, "a@*300*b$[ ¦.]c";
    0 0, "@*24*{a$[;¦~~]@*24*}";
    0 0, "@*24*[a@*24*]$[=b¦;¦]]]";
    0 0, "@*24*(a@*24*)$[=b¦;¦)]";
    0 0, "@*24*!a$[=b¦;]";
    0 0, "'@*300*a$['¦~~]";
    0 0, "@*300*1$[.¦e1¦a]1";
};
pub static C11: &[Job] = jobs! {
    0 0, "a$_b b$_b c";
    0 0, "a$_l b$_l c$_l d";
    0 0, "$_u a$_b $_u b";
    0 0, "async function f(){x=$_u$_u a$_l$_u b}";
    0 0, "a$_l b?c$_l d:e$_l f";
    0 0, "a$_q b$_q c";
    0 0, "a$[?¦:¦,¦=¦+¦??]b$[?¦:¦,¦=¦+¦=>]c$[?¦:¦,¦=¦+¦||]d$[?¦:¦,¦=]e";
    0 0, "(a$_l b)$_l c";
    0 0, "a$_l(b$_l c)";
    0 0, "a$_l b=>c";
    0 0, "x=>a$_l b";
    0 0, "async x=>$_u a$_l b";
    0 0, "function*g(){x$_q yield a$_l b}";
    0 0, "$_u$_u a$[++¦--¦~~]$_l b";
    0 0, "a$_l b$[++¦--¦.c¦(d)¦[e]]¦`t`¦?.f]$_l c";
    0 0, "a$_l$[function(){}¦class{}¦x=>1¦async x=>1¦()=>{}¦new b¦[]]¦{}¦this¦(b,c)¦`t`¦/r/¦1¦'s'¦null]$_l c";
    1 0, "a$_b b$_b c$_b d";
    1 0, "a$_l b$_l c$_l d$_l e";
    1 0, "$_u a$_b $_u b$_b $_u c";
    0 0, "@_H$[a+b¦a*b¦a**b¦-a¦!a¦a++¦++a¦a?b:c¦a=b¦a+=b¦a,b¦a??b¦a||b¦a&&b¦a|b¦a in b¦a<b¦a==b¦a=>b¦async a=>b¦await a¦yield a¦typeof a¦a-b-c¦a?.b¦new a]";
    0 0, "$_l a$_l b$_l c";
    0 0, "a-b$[-¦+¦*¦**¦<¦,¦=¦??¦||¦&&¦?¦|]c$[-¦+¦*¦**¦<¦,¦=¦??¦||¦&&¦:¦|]d$[-¦+¦*¦**¦<¦,¦=¦??¦||¦&&¦:¦|]e";
    0 0, "a$_v$[+¦-¦**¦??¦in¦?¦=¦,¦=>¦++]$_v b$_v$[+¦*¦**¦||¦instanceof¦:¦=¦,]$_v c";
    1 0, "\x04a@_l b@_l c";
    1 0, "\x03a@_l b@_l c";
    1 0, "@_H$[a+b¦a*b¦a**b¦-a¦!a¦a++¦++a¦a?b:c¦a=b¦a+=b¦a,b¦a??b¦a||b¦a&&b¦a|b¦a in b¦a<b¦a==b¦a=>b¦async a=>b¦await a¦yield a¦typeof a¦a-b-c¦a?.b¦new a]$_b $[a+b¦a*b¦a**b¦-a¦!a¦a++¦++a¦a?b:c¦a=b¦a+=b¦a,b¦a??b¦a||b¦a&&b¦a|b¦a in b¦a<b¦a==b¦a=>b¦async a=>b¦await a¦yield a¦typeof a¦a-b-c¦a?.b¦new a]";
    1 0, "@_H a$_b b$_b c";
};
pub static C12: &[Job] = jobs! {
    0 SPANS | ONLY, "$_t$_v$_t$_v";
    0 SPANS | ONLY, "a$_v$[+¦?.b¦.b¦(¦[¦,¦=¦=>¦++]$_v$[b¦)¦]]¦1]$_v$[)¦]]¦;¦b¦~~]$_v";
    0 SPANS | ONLY, "$_v$[var¦let¦const]$_v a$_v$[=¦,¦;¦~~]$_v b$_v;$_v";
    0 SPANS | ONLY, "function$_v$[*¦~~]f(a$_v$[,¦=¦~~]$_v b$_v)$_v{$_v c$_v}$_v";
    0 SPANS | ONLY, "async$_v$[function f¦x=>¦(x)=>¦(x)¦function*f]$_v$[(){}¦{}¦1¦~~]$_v;";
    0 SPANS | ONLY, "class A$_v$[extends B¦~~]$_v{$_v$[static ¦get ¦async ¦*¦~~]$_v a($[b¦~~]){$_v}$_v;$_v}";
    0 SPANS | ONLY, "({$_v$[get ¦async ¦*¦...¦~~]$_v a$[(){}¦(b){}¦:b¦,b¦~~¦=1]$_v,$_v})$[=c¦~~]";
    0 SPANS | ONLY, "$[if(a)¦while(a)¦for(;;)¦for(a of b)¦for(let a in b)¦do¦with(a)¦l:]$_v$[b¦;¦{}¦{b}¦b;]$_v$[else c¦while(d)¦while(d);¦~~]$_v";
    0 SPANS | ONLY, "switch(a){$_v$[case b:¦default:¦~~]$_v c$_v$[case d:¦default:¦~~]$_v}$_v";
    0 SPANS | ONLY, "try{$_v}$_v$[catch(a){}¦catch{}¦~~]$_v$[finally{}¦~~]$_v";
    0 SPANS | ONLY | M, "import$_v$[a ¦a,{b}¦{b as c}¦* as d¦a,* as b¦'x'¦{}]$_v$[from'x'¦~~]$_v$[;¦~~]$_v";
    0 SPANS | ONLY | M, "export$_v$[{a}¦{a as b}¦*¦* as c¦default¦var a¦class A{}¦function f(){}¦default class{}¦default function(){}]$_v$[from'x'¦;¦d¦~~]$_v";
    0 SPANS | ONLY, "$[(¦[¦[[¦({¦({a:]$_v$[a¦...a¦[a]]¦{a}¦{b:a}]$_v$[=1¦~~]$_v$[,c¦,¦~~]$_v$[)¦]]¦]]]]¦})]$_v$[=>1¦=2¦~~]";
    0 SPANS | ONLY, "$[let ¦var ¦const ]$[[¦{¦{a:¦[[]$_v$[a¦...a¦[a]]¦{a}]$_v$[=1¦~~]$_v$[,c¦,¦~~]$_v$[]]¦}¦]]]]]$_v=b";
    0 SPANS | ONLY, "`$_v$${$_v a$_v}$_v$${b}`$_v`c`";
    0 SPANS | ONLY, "new$_v a$_v$[()¦(b)¦.c¦~~¦?.d]$_v$[()¦.e¦`t`¦~~]$_v";
    0 SPANS | ONLY, "$_v'use strict'$_v;$_v'b'$_v$[+c¦;¦~~]$_v";
    0 SPANS | ONLY, "$_u$_v a$_b$_v b$_v";
    0 SPANS | ONLY, "$1a$1b$1";
    0 SPANS | ONLY, "é$[+¦ ¦\n¦;]'é'$_v𝒜$[=>¦+¦;]`é$${é}é`;a";
    0 SPANS | ONLY, "function f(){$[return¦throw¦yield¦await¦break¦continue]$_v$[a¦~~¦*a]$_v$[;¦~~]$_v}";
    0 SPANS | ONLY, "for$_v(@[var ¦~~¦let ]$_v$[a¦[a]]¦{a}]$_v$[;¦in¦of]$_v$[b¦;]$_v$[;¦c¦~~]$_v)$_v;";
    1 SPANS | ONLY, "@_x$_w$_t$_w$_t$_w";
    1 SPANS | ONLY, "@_y$_w$_e$_w$_e$_w";
    1 SPANS | ONLY, "$_t$_t$_w$_t$_t";
    1 SPANS | ONLY, "$_t$_w$_t$_w$_t";
    1 SPANS | ONLY, "a$_w$[+¦?.b¦.b¦(¦[¦,¦=¦=>¦++]$_w$[b¦)¦]]¦1]$_w$[)¦]]¦;¦b¦~~]$_w";
    1 SPANS | ONLY, "$_w$[var¦let¦const]$_w a$_w$[=¦,¦;¦~~]$_w b$_w;$_w";
    1 SPANS | ONLY, "function$_w$[*¦~~]f(a$_w$[,¦=¦~~]$_w b$_w)$_w{$_w c$_w}$_w";
    1 SPANS | ONLY, "async$_w$[function f¦x=>¦(x)=>¦(x)¦function*f]$_w$[(){}¦{}¦1¦~~]$_w;";
    1 SPANS | ONLY, "class A$_w$[extends B¦~~]$_w{$_w$[static ¦get ¦async ¦*¦~~]$_w a($[b¦~~]){$_w}$_w;$_w}";
    1 SPANS | ONLY, "({$_w$[get ¦async ¦*¦...¦~~]$_w a$[(){}¦(b){}¦:b¦,b¦~~¦=1]$_w,$_w})$[=c¦~~]";
    1 SPANS | ONLY, "$[if(a)¦while(a)¦for(;;)¦for(a of b)¦for(let a in b)¦do¦with(a)¦l:]$_w$[b¦;¦{}¦{b}¦b;]$_w$[else c¦while(d)¦while(d);¦~~]$_w";
    1 SPANS | ONLY, "switch(a){$_w$[case b:¦default:¦~~]$_w c$_w$[case d:¦default:¦~~]$_w}$_w";
    1 SPANS | ONLY, "try{$_w}$_w$[catch(a){}¦catch{}¦~~]$_w$[finally{}¦~~]$_w";
    1 SPANS | ONLY | M, "import$_w$[a ¦a,{b}¦{b as c}¦* as d¦a,* as b¦'x'¦{}]$_w$[from'x'¦~~]$_w$[;¦~~]$_w";
    1 SPANS | ONLY | M, "export$_w$[{a}¦{a as b}¦*¦* as c¦default¦var a¦class A{}¦function f(){}¦default class{}¦default function(){}]$_w$[from'x'¦;¦d¦~~]$_w";
    1 SPANS | ONLY, "$[(¦[¦[[¦({¦({a:]$_w$[a¦...a¦[a]]¦{a}¦{b:a}]$_w$[=1¦~~]$_w$[,c¦,¦~~]$_w$[)¦]]¦]]]]¦})]$_w$[=>1¦=2¦~~]";
    1 SPANS | ONLY, "$[let ¦var ¦const ]$[[¦{¦{a:¦[[]$_w$[a¦...a¦[a]]¦{a}]$_w$[=1¦~~]$_w$[,c¦,¦~~]$_w$[]]¦}¦]]]]]$_w=b";
    1 SPANS | ONLY, "`$_w$${$_w a$_w}$_w$${b}`$_w`c`";
    1 SPANS | ONLY, "new$_w a$_w$[()¦(b)¦.c¦~~¦?.d]$_w$[()¦.e¦`t`¦~~]$_w";
    1 SPANS | ONLY, "$_w'use strict'$_w;$_w'b'$_w$[+c¦;¦~~]$_w";
    1 SPANS | ONLY, "$_u$_w a$_b$_w b$_w";
    1 SPANS | ONLY, "$1a$1$1b$1";
    1 SPANS | ONLY, "é$[+¦ ¦\n¦;]'é'$_w𝒜$[=>¦+¦;]`é$${é}é`;a";
    1 SPANS | ONLY, "function f(){$[return¦throw¦yield¦await¦break¦continue]$_w$[a¦~~¦*a]$_w$[;¦~~]$_w}";
    1 SPANS | ONLY, "for$_w(@[var ¦~~¦let ]$_w$[a¦[a]]¦{a}]$_w$[;¦in¦of]$_w$[b¦;]$_w$[;¦c¦~~]$_w)$_w;";
    0 SPANS | ONLY, ";@_H@_X";
    0 SPANS | ONLY, ";@_T@_S";
    0 SPANS | ONLY, ";@_P@_i";
    0 SPANS | ONLY, ";$_c$_v$_g$_v$_g$[++¦~~¦=a]";
    0 SPANS | ONLY, "\x04;@_S";
    0 SPANS | ONLY, "\x05;@_S";
    0 SPANS | ONLY | M, "\x05;@_S";
    0 SPANS | ONLY, "\x05;(@_X)";
    0 SPANS | ONLY, ";$_u$_v$_z$_v$[++¦=b¦~~¦+c¦=>1]";
    1 SPANS | ONLY, "\x04;(@_X)";
    1 SPANS | ONLY | M, "\x04;@_S";
    1 SPANS | ONLY, "\x04;@_Ha";
    1 SPANS | ONLY, "\x05;@_Ha";
    1 SPANS | ONLY, "\x04;@_Pa";
    1 SPANS | ONLY, "\x05;@_Pa";
    1 SPANS | ONLY, ";@_H@_H@[a¦a,b¦{a}¦a.b()¦a=>b]";
    0 crate::ptree::SPANNED, "@_H@_X";
    0 crate::ptree::SPANNED, "@_T@_S";
    0 crate::ptree::SPANNED, "@_P@_i";
    0 crate::ptree::SPANNED | M, "@_S";
    0 SPANS | ONLY, "@_P@_L";
    0 SPANS | ONLY, "\x06(@_X)";
    0 SPANS | ONLY, "@*65600* $[a+b¦f(x)¦[y]]¦var z¦x=>{}]$[\n¦;]$[c¦~~]";
    0 SPANS | ONLY, "@*300*a$[+¦(¦.]@*300*b$[)¦~~]";
};
pub static C13: &[Job] = jobs! {
    0 0, "function f(){$[var a¦let a=1¦const a=1¦return¦return a¦throw a¦debugger¦do;while(a)¦a¦a=b¦x=>1¦x=>{}¦'d'¦a++¦if(a)b]$_w$[a¦1¦(b)¦[c]]¦`t`¦+b¦++b¦/r/g¦=b¦.b¦in b¦{}¦function g(){}¦else c¦,b¦=>c¦~~]}";
    0 0, "for(;;){$[break¦continue¦break x¦continue x¦debugger¦throw a¦do;while(a)¦let a]$[ ¦\n¦;¦}¦/*\n*/]$[a¦1¦;¦{}¦(b)¦}¦else¦x:]}";
    0 M, "$[import 'x'¦import a from 'x'¦export{a}¦export*from'x'¦export default a¦export default function(){}¦export var a¦export let a=1¦import('x')¦import.meta]$_w$[a¦(b)¦[c]]¦`t`¦+b¦from 'y'¦as b¦{}¦;]";
    0 0, "a$_w$[++¦--¦++b¦--b]$_w$[b¦++¦--¦c]";
    0 0, "function*g(){yield$_w$[a¦*a¦;¦+a¦in a¦?b:c¦,b¦[b]]¦/r/¦}]$_w}";
    0 0, "$[async¦async ()¦async x¦async(x)¦x¦(x)¦()]$_w$[=>¦=> ]$_w$[{}¦1¦{a}]$_w$[b¦(c)¦;¦~~]";
    0 0, "async$_w$[function f(){}¦function¦x=>1¦(x)=>1¦(x)¦x¦in a¦;]$_w";
    0 0, "$[let¦var¦const¦static¦get¦of]$_w$[a¦[a]]=b¦[a]]¦{a}=b¦{a}¦=1¦let¦yield¦~~]$_w$[;¦b¦~~]";
    0 0, "$[if(a)¦while(a)¦for(;;)¦do¦l:¦with(a)]$_w$[b¦;¦~~]$_w$[else c¦while(d)¦while(d)e¦~~]$_w$[f¦~~]";
    0 0, "for(a$_w$[;¦~~]$_w b$_w$[;¦~~]$_w c);";
    0 0, "({$[get¦set¦static¦async¦*¦async *]$_w a$_w($[b¦~~]){}})";
    0 0, "class A{$[get¦set¦static¦async¦*¦async *¦static async¦static get¦~~]$_w a$_w($[b¦~~]){}$_w$[;¦~~]$_w b(){}}";
    0 0, "{$_w$[a¦1¦var b¦return¦~~]$_w}$_w$[c¦;¦(d)¦~~]";
    0 0, "do$_w$[a¦;¦{}]$_w while(b)$_w$[c¦;¦(d)¦while(e);¦}]";
    0 0, "a$1b";
    0 0, "a$2b";
    0 0, "a$1$1++$1b";
    0 0, "$['use strict'¦'a'¦1]$_w$[+a¦(b)¦.c¦[d]]¦,e¦d¦'f'¦in g]";
    1 0, "function f(){return$2a}";
    1 0, "@_x$[a¦1¦b()¦c++¦return¦throw d¦debugger]$_w$_t$_w$_t";
    1 0, "$_t$_w$_t$_w$_t$[;¦~~]";
    0 0, "\x04@_S";
    0 M, "\x04@_S";
    0 0, "@_S$_w$[a¦(b)¦[c]]¦`d`¦/e/g¦+f¦++g¦{}¦;¦in h¦else i¦while(j)]";
    0 0, "@_T$_v@[a¦return¦break¦x++¦var b¦do;while(c)¦throw d¦e=>{}]$_w$[a¦(b)¦[c]]¦`d`¦/e/g¦++g¦{}¦;]";
    0 0, "(@_X)$_w$[a¦(b)¦++c¦/d/g¦`e`]";
    1 0, "\x04@_S\n@[a¦(b)¦++c]";
    1 0, "@_T@_S$_w$[a¦(b)¦++c¦/d/g¦`e`]";
    1 0, "\x04@_T@[a¦return a¦a++]";
    0 0, "\x06@_H@_X";
    0 0, "\x06@_P@_L";
    0 0, "\x06@_P@_i";
    0 0, "\x06@_T@_S";
    0 M, "\x06@_S";
};
pub static C14: &[Job] = jobs! {
    0 0, "@_f$_k";
    0 0, "@_h$[var ¦let ¦const a,¦break ¦function ¦(function ¦function*¦(function*¦async function ¦(async function ¦class ¦(class ¦new ¦++¦-¦x=>¦async ¦delete ¦typeof ¦try{}catch(¦for(¦for(var ¦for(let ¦({¦({get ¦a.¦a?.¦[¦({a:¦let{¦let[¦let{a:¦...¦a,]$_k$[~~¦=1¦:¦(){}¦(){})¦{}¦{})¦=>1¦(a)=>1¦(a)¦.a¦++¦){}¦ of a);¦ in a);¦;;);¦})¦=1}=a)¦:1})¦(){}})¦]]=a¦}=a)¦}=a¦=1}=a¦]";
    1 0, "@_f$[var ¦let ¦const a,¦break ¦function ¦(function ¦function*¦(function*¦async function ¦(async function ¦class ¦(class ¦new ¦++¦-¦x=>¦async ¦delete ¦typeof ¦try{}catch(¦for(¦for(var ¦for(let ¦({¦({get ¦a.¦a?.¦[¦({a:¦let{¦let[¦let{a:¦...¦a,]$_k$[~~¦=1¦:¦(){}¦(){})¦{}¦{})¦=>1¦(a)=>1¦(a)¦.a¦++¦){}¦ of a);¦ in a);¦;;);¦})¦=1}=a)¦:1})¦(){}})¦]]=a¦}=a)¦}=a¦=1}=a¦]";
    0 0, "@_f($_k$[)=>1¦=1)=>1¦,a)=>1¦)¦})=>1¦)=>{}]";
    0 0, "@_f$[async(¦function g(¦({a(¦({set a(¦(...¦({¦([¦async({¦function g({¦function g(...]$_k$[)=>1¦){}¦){}})¦})=>1¦]])=>1¦}){}]";
    0 0, "@_f class A{$[~~¦static ¦get ¦set ¦async ¦*¦async*¦static get ]$_k$[(){}¦(a){}¦(a){$¦;¦=1]}";
    0 0, "@_f({$[~~¦get ¦set ¦async ¦*¦async*¦...]$_k$[(){}¦(a){}¦¦:a¦=a¦,a¦ a(){}]})";
    0 M, "$[import ¦import{¦import{a as ¦import*as ¦import a,{¦export{¦export{a as ¦export*as ¦export var ¦export function ¦export class ¦export default ¦export default function ]$_k$[ from'x'¦}from'x'¦}¦,{b}from'x'¦ as b}from'x'¦(){}¦{}¦=1¦;]";
    0 M, "@_f$[~~¦var ¦let ¦function ¦class ¦a.¦a?.¦({¦x=>¦async ]$_k$[~~¦=1¦:;¦(){}¦{}¦=>1¦})¦(){}})¦:1})]";
    0 0, "$[~~¦var ¦let ¦function ¦class ¦({¦a.¦a?.¦({get ¦class A{¦[¦({a:]$_r$[~~¦=1¦:;¦(){}¦{}¦=>1¦})¦(){}})¦:1})¦(){}}¦]]=1¦}=1)]";
    0 M, "$[import{¦import{a as ¦export{¦export{a as ¦export*as ¦export default ]$_r$[}from'x'¦}¦ as b}from'x'¦ as b}¦ from'x'¦;]";
    0 0, "$_k$_v$_k$_v$[a¦=1¦=>1¦(b)¦:¦;¦~~]";
    1 0, "$_k$_w$_k$_w$[a¦=1¦=>1¦(b)¦:¦;¦~~]";
    0 0, "@[let¦async¦yield¦await¦static¦get¦of]$_t$_t";
    1 0, "@_f$_k$_t$_t";
    1 0, "@_x$_k$_t";
    1 M, "@_x$_k$_t";
    0 0, "@_P$_k";
    0 0, "@_H$_k";
    0 0, "@_T$_k";
    0 0, "@[function*g(){¦async function f(){¦'use strict';]@_P$_k@[}¦~~]";
    0 0, "@[function*g(){¦async function f(){¦'use strict';]@_H$_k@[}¦~~]";
    0 M, "@_P$_k";
    0 M, "@_H$_k";
    0 0, "@_P$_r";
    0 0, "@_H$_r";
    1 0, "@_x@_P$_k";
    1 0, "@_x@_H$_k";
    1 0, "@_T$_k$_w$[a¦(b)¦=c¦=>d¦:¦{}]";
};
pub static C15: &[Job] = jobs! {
    0 0, "@[~~¦'use strict';]$[++¦--¦~~]$_z$_q b";
    0 0, "@[~~¦'use strict';]$_z$[++¦--]";
    0 0, "@[~~¦'use strict';]$[++¦--]$_z";
    0 0, "@[~~¦'use strict';]$[[¦({a:¦[...¦({...¦[a,¦({[a]]:¦[[[]$_z$[~~¦=1]$[]]=b¦})¦}=b)¦]]+=b¦,c]]=b¦]]]]=b]";
    0 0, "@[~~¦'use strict';]for($_z$[ of ¦ in ¦=1;;¦ =1 of ]b);";
    0 0, "@[~~¦'use strict';]for($[[¦{a:¦[...¦{...¦{]$_z$[~~¦=1]$[]]¦}]$[ of ¦ in ¦=1;;]b);";
    0 0, "($_z)$_q b";
    0 0, "(($_z$[,a¦=1¦~~]))$[=b¦++¦+=b]";
    0 0, "[$_z,$_z]=b";
    1 0, "@_f[$_z,$_z]=b";
    0 0, "class A extends B{m(){$_z=b}}";
    0 0, "async function f(){for await($_z of b);}";
    0 0, "function*g(){$[[yield]]¦{a:yield}¦[yield a]]¦[a=yield]]¦(yield)]=b}";
    0 0, "[$_e$_e]=b";
    0 0, "({$_e$_e}=b)";
    1 0, "[$_e$_e$_e]=b";
    1 0, "({$_e$_e$_e}=b)";
    1 0, "@_x$_z$_q b";
    1 0, "@_y$_z=b";
    0 0, "@_P@_z";
    0 0, "@_H@_z=b";
    0 0, "@_H@_z++";
    0 0, "@[[\x01]]=x¦({a:\x01}=x)¦for([\x01]] of x);¦for({a:\x01} in x);¦[...\x01]]=x¦({...\x01}=x)]@_P a";
    0 0, "\x03@[[a]]=b¦{a}=b¦({a}=b)¦[a.b]]=c¦({a:b[c]]}=d)¦[a=1]]=b¦({a=1}=b)¦for(a of b);¦for([a]] of b);¦(a)=b¦(a.b)=c¦++a¦a++¦++(a)¦a.b++¦[...a]]=b¦({...a}=b)¦[,a]]=b¦[[a]]]]=b]";
    1 0, "@_P@_z=b";
    1 0, "@_T@_z=b";
    1 0, "@_x@_P@_z";
};
pub static C16: &[Job] = jobs! {
    0 0, "($_i$[,¦~~]$_i$[,¦~~])$[=>1¦=>{}¦~~¦=b]";
    0 0, "async($[a¦...a¦[a]]¦{a=1}¦a=1¦a.b¦~~]$[,¦~~]$[a¦...a¦[a]]¦{a=1}¦a=1¦a.b¦~~]$[,¦~~])$[=>1¦=>{}¦~~¦=b]";
    1 0, "async($_i$[,¦~~]$_i$[,¦~~])$[=>1¦=>{}¦~~¦=b]";
    0 0, "[$_i,$_i]$[=b¦~~¦=>1]";
    0 0, "[$_i,$_i,]$[=b¦~~]";
    0 0, "({$_i,$_i$[,¦~~]}$[=b¦~~¦=>1])";
    0 0, "({a:$_i}$[=b¦~~])";
    0 0, "$[let ¦var ¦const ]$[[¦{¦{a:¦{[a]]:]$_i$[,b¦,¦~~]$[]]¦}]=c";
    0 0, "function f($_i$[,¦~~]$_i$[,¦~~]){}";
    0 0, "@[({a(¦({set a(¦class A{a(¦(function(¦(async function(]$_i$[,¦~~]$_i@[){}})¦){}}¦){})]";
    1 0, "@[({a(¦({set a(¦class A{a(¦(function(¦(async function(]$_i$[,¦~~]$_i@[){}})¦){}}¦){})]";
    0 0, "try{}catch($_i$[,¦~~]){}";
    0 0, "for($[let ¦var ¦const ¦~~]$_i$[ of ¦ in ¦=1;;]c);";
    0 0, "($_p$_p$_p)$[=>1¦~~]";
    0 0, "[$_p$_p]$[=1¦~~]";
    0 0, "({$_p$_p}$[=1¦~~])";
    0 0, "@_y($_i)=>1";
    0 0, "@_y async $[a¦(a)¦(a,b)¦()¦({a=1})]$[=>1¦~~]";
    0 0, "$[~~¦a+¦a?¦a=¦!¦...¦new ¦a,¦a??]$[a¦(a)¦()¦async a¦async()]=>$[1¦{}¦({})¦{a}¦a,b¦a=b¦a?b:c¦x=>1]$[~~¦+b¦()¦.c¦?d:e¦`t`¦,f¦=g¦:c]";
    0 0, "$[[a=¦{a=¦({a=¦[{a=¦(a=]$[[¦{¦(]$[a¦a=1¦...a¦{a}¦{a=1}¦a.b]$[]]¦}¦)]$[=1¦=>1¦~~]$[]]¦}¦})¦}]]¦)]$[=1¦=>1¦~~]";
    1 0, "$[[a=¦{a=¦({a=¦[{a=¦(a=]$[[¦{¦(]$_i$[]]¦}¦)]$[=1¦=>1¦~~]$[]]¦}¦})¦}]]¦)]$[=1¦=>1¦~~]";
    1 0, "($_p$_p$_p$_p)$[=>1¦~~]";
    1 0, "async($_p$_p$_p)$[=>1¦~~]";
    1 0, "[$_p$_p$_p]$[=1¦~~]";
    1 0, "({$_p$_p$_p}$[=1¦~~])";
    1 0, "$[let ¦var ¦const ]$_p$_p$_p$_p=1";
    1 0, "function f($_p$_p$_p){}";
    0 0, "@_P@_i";
    0 0, "@_P@_i,@_i";
    0 0, "\x03@_P@[a¦[a]]¦{a}¦a=b¦...a]";
    0 0, "@_P@_P@[a¦a=1¦...a¦{a}¦[a]]¦a.b¦~~]";
    1 0, "\x04@_P@[a¦[a]]¦{a}¦a=b¦...a]";
    1 0, "@_P@_P@_i";
    1 0, "@_H@_P@[a¦a=1¦...a]";
    0 0, "@_P@_L";
    0 0, "\x07@_P@_i";
};
pub static C17: &[Job] = jobs! {
    0 0, "@_x@_x$[super()¦super.a¦super[a]]¦super¦return¦return a¦yield¦yield a¦await a¦await¦new.target¦super`t`]";
    0 0, "@_x@_y$[super()¦super.a¦yield¦yield a¦await a¦yield*a¦await]";
    0 0, "class A$[~~¦ extends B]{$[~~¦static ]$[~~¦get ¦set ¦async ¦*]$[constructor¦'constructor'¦[constructor]]¦a]($[~~¦a¦a=super()¦a=super.b]){$[super()¦()=>super()¦super.a¦function f(){super()}¦super().b¦({m(){super()}})¦class C extends D{constructor(){super()}}¦super()()¦super[a]]]}}";
    0 0, "({$[~~¦get ¦set ¦async ¦*¦async*]$[constructor¦a¦[a]]¦'s'¦1]($[~~¦a¦a=super.b¦a=await b¦a=yield]){$[super()¦super.a¦yield a¦await a¦return¦()=>super.a¦function f(){super.a}]}})";
    0 0, "$[function¦function*¦async function¦async function*] f($[~~¦a=yield¦a=await¦yield¦await¦a=yield b¦a=await b]){$[yield¦yield a¦await a¦await¦for await(a of b);¦for await(;;);¦for await(a in b);¦()=>yield¦()=>await a¦async()=>await a¦function g(){yield}¦yield:¦var yield¦var await]}";
    0 0, "@_x$[for await(a of b);¦for await(a in b);¦for await(;;);¦for(a of await b);¦yield*a¦yield\n*a¦x=yield¦x=yield?1:2¦a?yield:1¦[yield]]¦f(yield,yield)¦`${yield}`¦{yield}¦({yield})¦({yield:1})¦a.yield¦(yield)=>1¦yield=>1¦await=>1¦async yield=>1]";
    0 0, "@_x$[return¦return\na¦{return}¦if(a)return¦()=>{return}¦label:return¦switch(a){case 1:return}¦try{return}catch{}¦for(;;)return;¦with(a)return]";
    0 M, "@_x$[return¦yield a¦await a¦new.target¦super()¦super.a¦import.meta¦this]";
    1 0, "@_x@_x@_x$[super()¦super.a¦return¦yield a¦await a¦yield¦await]";
    1 0, "@_x@_x$_t$_t";
    1 0, "@_x$[yield¦await¦super¦return]$_t$_t";
    0 0, "@_x@_H$[super()¦super.a¦yield¦yield a¦await a¦yield*a¦await]";
    0 0, "@_x@_T$[super()¦super.a¦yield a¦await a¦return¦return a¦for await(a of b);¦yield¦await]";
    0 0, "@_x@_P$[yield¦await¦a=yield¦a=await b¦a=super.b¦a=super()¦[a=yield]]¦{[yield]]:a}]";
    1 0, "@_x@_x@_H$[super()¦super.a¦yield a¦await a]";
    1 0, "@_x@_T@_H$[super()¦super.a¦yield a¦await a]";
};
pub static C18: &[Job] = jobs! {
    0 M, "import$_m$_m$_m";
    0 M, "export$_m$_m$_m";
    0 0, "$[import¦export]$_m$_m$_m";
    0 M, "@_x$[import 'x'¦import a from 'x'¦export{a}¦export var a¦export default a¦export*from'x'¦import('x')¦import.meta¦import{a}from'x']";
    0 0, "@_x$[import 'x'¦import a from 'x'¦export{a}¦export var a¦export default a¦export*from'x'¦import('x')¦import.a¦import(a,b)¦import()¦import(...a)¦new import(a)]";
    0 M, "$[if(a)¦else ¦for(;;)¦l:¦do ¦switch(a){case 1:¦try{¦;¦'a';¦'a'\n¦a\n¦{}]$[import 'x'¦export{a}¦export default 1¦import('x')¦import.meta.a]$[~~¦}¦}catch{}¦ while(a)]";
    0 M, "export default $[class{}¦class A{}¦class extends B{}¦function(){}¦function f(){}¦function*(){}¦async function(){}¦async\nfunction f(){}¦async()=>1¦async¦(class{})¦a=>1¦[]]¦{}¦let¦var a¦a,b¦a in b¦1]$[~~¦;¦\nb¦ b¦(c)¦.d]";
    0 M, "export $[var¦let¦const¦class¦function¦async¦async function¦function*]$_t$_t";
    0 M, "import{$[a¦if¦default¦as¦'s'¦*¦let]$[ as ¦,¦~~]$[b¦if¦as¦default¦eval¦~~]$[,¦~~]}from'x'";
    0 M, "export{$[a¦if¦default¦as¦'s'¦*¦let]$[ as ¦,¦~~]$[b¦if¦as¦default¦eval¦~~]$[,¦~~]}$[from'x'¦~~]";
    0 M, "import$[('x')¦(a)¦(a,b)¦()¦.meta¦.a¦.meta.b¦`t`¦ ('x').then(y)¦('x')()¦(a in b)¦(...a)¦\n.meta¦?.meta]$[~~¦+1¦=1¦.a¦()¦?.b]";
    0 M, "import $[a¦{a}¦* as a¦a,{b}¦a,*as b¦{a},b¦a,b]$_w$[from¦of¦~~]$_w$['x'¦1¦a¦`x`¦/r/¦null]";
    1 M, "import$_m$_m$_m$_m";
    1 M, "export$_m$_m$_m$_m";
    1 M, "@_x$[import¦export]$_m$_m";
    1 M, "$_t$[import¦export]$_m$_m";
    0 M, "\x03@[import'x'¦import a from'x'¦import{a}from'x'¦import{a as b}from'x'¦import{a,b as c}from'x'¦import*as a from'x'¦import a,{b}from'x'¦import a,*as b from'x'¦import{}from'x'¦export{a}¦export{a as b,c}¦export{a}from'x'¦export{}¦export*from'x'¦export*as a from'x'¦export default a¦export default function(){}¦export default function a(){}¦export default class{}¦export default async function(){}¦export default[a]]¦export var a¦export let a=1¦export const{a}=b¦export function a(){}¦export function*a(){}¦export class A{}¦export async function a(){}¦import('x')¦import.meta]";
    0 M, "\x04@[import'x'¦import a from'x'¦import{a}from'x'¦import{a as b}from'x'¦import{a,b as c}from'x'¦import*as a from'x'¦import a,{b}from'x'¦import a,*as b from'x'¦import{}from'x'¦export{a}¦export{a as b,c}¦export{a}from'x'¦export{}¦export*from'x'¦export*as a from'x'¦export default a¦export default function(){}¦export default function a(){}¦export default class{}¦export default async function(){}¦export default[a]]¦export var a¦export let a=1¦export const{a}=b¦export function a(){}¦export function*a(){}¦export class A{}¦export async function a(){}¦import('x')¦import.meta]";
    0 M, "\x02@[import'x'¦import a from'x'¦import{a}from'x'¦import{a as b}from'x'¦import{a,b as c}from'x'¦import*as a from'x'¦import a,{b}from'x'¦import a,*as b from'x'¦import{}from'x'¦export{a}¦export{a as b,c}¦export{a}from'x'¦export{}¦export*from'x'¦export*as a from'x'¦export default a¦export default function(){}¦export default function a(){}¦export default class{}¦export default async function(){}¦export default[a]]¦export var a¦export let a=1¦export const{a}=b¦export function a(){}¦export function*a(){}¦export class A{}¦export async function a(){}¦import('x')¦import.meta]";
    0 M, "@_T$[import'x'¦import a from'x'¦import{a}from'x'¦import{a as b}from'x'¦import{a,b as c}from'x'¦import*as a from'x'¦import a,{b}from'x'¦import a,*as b from'x'¦import{}from'x'¦export{a}¦export{a as b,c}¦export{a}from'x'¦export{}¦export*from'x'¦export*as a from'x'¦export default a¦export default function(){}¦export default function a(){}¦export default class{}¦export default async function(){}¦export default[a]]¦export var a¦export let a=1¦export const{a}=b¦export function a(){}¦export function*a(){}¦export class A{}¦export async function a(){}¦import('x')¦import.meta]";
    0 0, "@_T$[import'x'¦import a from'x'¦import{a}from'x'¦import{a as b}from'x'¦import{a,b as c}from'x'¦import*as a from'x'¦import a,{b}from'x'¦import a,*as b from'x'¦import{}from'x'¦export{a}¦export{a as b,c}¦export{a}from'x'¦export{}¦export*from'x'¦export*as a from'x'¦export default a¦export default function(){}¦export default function a(){}¦export default class{}¦export default async function(){}¦export default[a]]¦export var a¦export let a=1¦export const{a}=b¦export function a(){}¦export function*a(){}¦export class A{}¦export async function a(){}¦import('x')¦import.meta]";
    0 M, "@_H$[import'x'¦import a from'x'¦import{a}from'x'¦import{a as b}from'x'¦import{a,b as c}from'x'¦import*as a from'x'¦import a,{b}from'x'¦import a,*as b from'x'¦import{}from'x'¦export{a}¦export{a as b,c}¦export{a}from'x'¦export{}¦export*from'x'¦export*as a from'x'¦export default a¦export default function(){}¦export default function a(){}¦export default class{}¦export default async function(){}¦export default[a]]¦export var a¦export let a=1¦export const{a}=b¦export function a(){}¦export function*a(){}¦export class A{}¦export async function a(){}¦import('x')¦import.meta]";
    0 M, "@[import'x'¦import a from'x'¦import{a}from'x'¦import{a as b}from'x'¦import{a,b as c}from'x'¦import*as a from'x'¦import a,{b}from'x'¦import a,*as b from'x'¦import{}from'x'¦export{a}¦export{a as b,c}¦export{a}from'x'¦export{}¦export*from'x'¦export*as a from'x'¦export default a¦export default function(){}¦export default function a(){}¦export default class{}¦export default async function(){}¦export default[a]]¦export var a¦export let a=1¦export const{a}=b¦export function a(){}¦export function*a(){}¦export class A{}¦export async function a(){}¦import('x')¦import.meta]$_w@[import'x'¦import a from'x'¦import{a}from'x'¦import{a as b}from'x'¦import{a,b as c}from'x'¦import*as a from'x'¦import a,{b}from'x'¦import a,*as b from'x'¦import{}from'x'¦export{a}¦export{a as b,c}¦export{a}from'x'¦export{}¦export*from'x'¦export*as a from'x'¦export default a¦export default function(){}¦export default function a(){}¦export default class{}¦export default async function(){}¦export default[a]]¦export var a¦export let a=1¦export const{a}=b¦export function a(){}¦export function*a(){}¦export class A{}¦export async function a(){}¦import('x')¦import.meta]";
    1 0, "\x03@[import'x'¦import a from'x'¦import{a}from'x'¦import{a as b}from'x'¦import{a,b as c}from'x'¦import*as a from'x'¦import a,{b}from'x'¦import a,*as b from'x'¦import{}from'x'¦export{a}¦export{a as b,c}¦export{a}from'x'¦export{}¦export*from'x'¦export*as a from'x'¦export default a¦export default function(){}¦export default function a(){}¦export default class{}¦export default async function(){}¦export default[a]]¦export var a¦export let a=1¦export const{a}=b¦export function a(){}¦export function*a(){}¦export class A{}¦export async function a(){}¦import('x')¦import.meta]";
    1 M, "\x04@_T@[import'x'¦import a from'x'¦import{a}from'x'¦import{a as b}from'x'¦import{a,b as c}from'x'¦import*as a from'x'¦import a,{b}from'x'¦import a,*as b from'x'¦import{}from'x'¦export{a}¦export{a as b,c}¦export{a}from'x'¦export{}¦export*from'x'¦export*as a from'x'¦export default a¦export default function(){}¦export default function a(){}¦export default class{}¦export default async function(){}¦export default[a]]¦export var a¦export let a=1¦export const{a}=b¦export function a(){}¦export function*a(){}¦export class A{}¦export async function a(){}¦import('x')¦import.meta]";
    0 M, "\x07@_S";
};
pub static C19: &[Job] = jobs! {
    0 0, "$_d$_d@_n";
    0 0, "$[function f(){¦()=>{¦({m(){¦class A{m(){¦async()=>{¦function*g(){¦({get a(){¦(function(){]$_d@_n@[}¦}})¦}}¦})]";
    0 0, "$[a;¦;¦{}¦'a';¦('b');¦'c'+d;¦`use strict`;¦function f(){}]'use strict';@_n";
    0 0, "function f(){'use strict'$[;¦~~]$[}¦\n}]@_n";
    0 0, "$[function f(){'use strict'}¦()=>{'use strict'}¦({m(){'use strict'}})¦class A{m(){}}¦(function(){'use strict'})]\n@_n";
    0 0, "class A$[~~¦ extends B]{$[m(){¦static m(){¦get m(){¦[¦constructor(){]@_n$[}¦]](){}]}";
    0 0, "class A extends ($_n){}";
    0 0, "(class{m(){@_n}})\n@_n";
    0 0, "$['use strict';¦~~]$[(x)=>¦()=>{¦function f(){¦({m(){¦async x=>¦[¦`${¦(x=]@_n$[~~¦}¦}})¦]]¦}`¦)=>1]";
    0 M, "@_n";
    0 M, "@_f@_n";
    0 0, "$[function f¦(function¦({m¦({set a¦()=>¦async function f¦function*f¦]($[a¦a,b¦a=1¦...a¦{a}¦[a]]¦~~])$[=>¦~~]{$['use strict'¦'a'¦~~]}$[)¦})¦~~]";
    0 0, "'use strict'$_w$_t$_w$_n";
    1 0, "$_d$_d$_d@_n";
    1 0, "@_x$_d@_n";
    1 0, "'use strict';@_x@_n";
    1 0, "'$(q)2use strict';with(a);";
    0 0, "'use strict';@_T@_n";
    0 0, "'use strict';@_H@_n";
    0 0, "@_T'use strict';@_n";
    0 0, "@[function f(){¦()=>{¦({m(){¦class A{m(){¦async()=>{¦function*g(){¦({get a(){¦({set a(b){¦(function(){¦async function f(){]'use strict'}@[~~¦})¦}]@_n";
    0 0, "class A{m(){@_T@_n}}";
    0 0, "class A{@[m(a=\x01){}}¦[\x01]](){}}¦get [\x01]](){}}¦static [\x01]](){}}¦m(){\x01}}]@_H@_n";
    0 0, "\x03'use strict';with(a);";
    0 0, "\x04'use strict';with(a);";
    0 0, "\x05function f(){'use strict';with(a);}";
    0 M, "@_T@_n";
    0 M, "@_H@_n";
    1 0, "function f(){'use strict';@_T@_n}@_n";
    1 0, "'use strict';@_P@_n";
    1 0, "@_T@_T'use strict';@[with(a);¦var static]";
};
pub static C20: &[Job] = jobs! {
    0 0, "class A{$[static ¦~~]$[~~¦get ¦set ¦async ¦*¦async*¦async\n]$_a$[()¦(a)¦(a,b)¦(...a)¦(a=1)¦({a})¦(a,a)]{}}";
    0 0, "({$[~~¦get ¦set ¦async ¦*¦async*¦async\n¦static ]$_a$[()¦(a)¦(a,b)¦(...a)¦(a=1)¦({a})¦(a,a)]{}})";
    0 0, "({$_a$[:b¦=b¦,¦~~¦ b¦:b,c¦ b(){}]})";
    0 0, "$[class¦class A¦(class¦(class A¦x=class]$[~~¦ extends B¦ extends a.b()¦ extends (a,b)¦ extends a+b¦ extends class{}¦ extends new a¦ extends null¦ extends x=>1¦ extends{}¦ extends ()=>{}]{$[~~¦;¦a(){}¦;a(){};¦a(){}b(){}¦a¦a=1¦,¦a(){},]}$[)¦~~¦.b]";
    0 0, "({$[a¦a:1¦...a¦a(){}¦get a(){}¦[a]]:1¦'s':1¦1:1]$[,¦~~¦;]$[b¦b:1¦...b¦b(){}¦set b(c){}¦~~]$[,¦,,¦~~]})";
    0 0, "[$[,¦a¦...a¦a,¦,,¦(a,b)¦...]$[,¦a¦...a¦a,¦~~]$[,¦a¦...a¦~~]$[,¦~~] ]";
    0 0, "({$[a¦set a¦get a¦*a¦async a]($[~~¦a¦a,b¦a,a¦[a]]¦a=1¦...a¦a,]){$['use strict'¦~~¦'use strict';a¦var a]}})";
    0 0, "class A{$[a¦set a¦get a¦*a¦async a¦constructor¦static a]($[~~¦a¦a,b¦a,a¦[a]]¦a=1¦...a¦a,]){$['use strict'¦~~¦'use strict';a¦yield¦await b]}}";
    0 0, "({$[get¦set¦static¦async¦*]$_t$_t})";
    1 0, "@_f({$[get¦set¦static¦async¦*]$_t$_t})";
    0 0, "class A{$[get¦set¦static¦async¦*]$_t$_t{}}";
    0 0, "({$_e$_e})";
    0 0, "class A{$_t$_t}";
    1 0, "class A{$_t$_t$_t}";
    0 0, "function*g(){$[({m(){¦({*m(){¦({async m(){¦({get m(){¦class A{m(){¦class A{*m(){¦class A{static m(){]$[yield a¦await a¦a]$[}})¦}}]}";
    0 0, "async function g(){$[({m(){¦({*m(){¦({async m(){¦({get m(){¦class A{m(){¦class A{*m(){¦class A{static m(){]$[yield a¦await a¦a]$[}})¦}}]}";
    0 0, "'use strict';({$[~~¦get ¦set ¦async ¦*]$_k$[(){}¦(a){}¦:1¦~~]})";
    0 0, "({$_r$[(){}¦:1¦~~¦=1]})";
    1 0, "({$_e$_e$_e})";
    1 0, "class A{$_t$_t$_t$_t}";
    0 0, "\x03class A{@[a(){}¦get a(){}¦set a(b){}¦*a(){}¦async a(){}¦async*a(){}¦[a]](){}¦'s'(){}¦1(){}¦get [a]](){}¦set 's'(b){}¦get(){}¦set(){}¦async(){}¦static(){}¦if(){}¦a(b,c=1,...d){}¦a([b]],{c}){}¦get if(){}¦async get(){}¦*async(){}¦async set(){}¦static a(){}¦static get a(){}¦static set a(b){}¦static*a(){}¦static async a(){}¦static async*a(){}¦static static(){}¦static get(){}¦constructor(){}¦;¦static [a]](){}¦get constructor(){}]}";
    0 0, "\x03({@[a(){}¦get a(){}¦set a(b){}¦*a(){}¦async a(){}¦async*a(){}¦[a]](){}¦'s'(){}¦1(){}¦get [a]](){}¦set 's'(b){}¦get(){}¦set(){}¦async(){}¦static(){}¦if(){}¦a(b,c=1,...d){}¦a([b]],{c}){}¦get if(){}¦async get(){}¦*async(){}¦async set(){}¦a¦a:b¦...a¦[a]]:b¦'s':b¦1:b¦get¦set:b¦async¦a=1¦if:b¦async:b¦get:b¦static¦{}]})";
    1 0, "\x04class A{@[a(){}¦get a(){}¦set a(b){}¦*a(){}¦async a(){}¦async*a(){}¦[a]](){}¦'s'(){}¦1(){}¦get [a]](){}¦set 's'(b){}¦get(){}¦set(){}¦async(){}¦static(){}¦if(){}¦a(b,c=1,...d){}¦a([b]],{c}){}¦get if(){}¦async get(){}¦*async(){}¦async set(){}¦static a(){}¦static get a(){}¦static set a(b){}¦static*a(){}¦static async a(){}¦static async*a(){}¦static static(){}¦static get(){}¦constructor(){}¦;¦static [a]](){}¦get constructor(){}]}";
    1 0, "\x04({@[a(){}¦get a(){}¦set a(b){}¦*a(){}¦async a(){}¦async*a(){}¦[a]](){}¦'s'(){}¦1(){}¦get [a]](){}¦set 's'(b){}¦get(){}¦set(){}¦async(){}¦static(){}¦if(){}¦a(b,c=1,...d){}¦a([b]],{c}){}¦get if(){}¦async get(){}¦*async(){}¦async set(){}¦a¦a:b¦...a¦[a]]:b¦'s':b¦1:b¦get¦set:b¦async¦a=1¦if:b¦async:b¦get:b¦static¦{}]})";
    0 0, "class A{$[a(){}¦get a(){}¦set a(b){}¦*a(){}¦async a(){}¦async*a(){}¦[a]](){}¦'s'(){}¦1(){}¦get [a]](){}¦set 's'(b){}¦get(){}¦set(){}¦async(){}¦static(){}¦if(){}¦a(b,c=1,...d){}¦a([b]],{c}){}¦get if(){}¦async get(){}¦*async(){}¦async set(){}¦static a(){}¦static get a(){}¦static set a(b){}¦static*a(){}¦static async a(){}¦static async*a(){}¦static static(){}¦static get(){}¦constructor(){}¦;¦static [a]](){}¦get constructor(){}]$[;¦\n¦~~]$[a(){}¦get a(){}¦set a(b){}¦*a(){}¦async a(){}¦async*a(){}¦[a]](){}¦'s'(){}¦1(){}¦get [a]](){}¦set 's'(b){}¦get(){}¦set(){}¦async(){}¦static(){}¦if(){}¦a(b,c=1,...d){}¦a([b]],{c}){}¦get if(){}¦async get(){}¦*async(){}¦async set(){}¦static a(){}¦static get a(){}¦static set a(b){}¦static*a(){}¦static async a(){}¦static async*a(){}¦static static(){}¦static get(){}¦constructor(){}¦;¦static [a]](){}¦get constructor(){}]}";
    0 0, "({$[a(){}¦get a(){}¦set a(b){}¦*a(){}¦async a(){}¦async*a(){}¦[a]](){}¦'s'(){}¦1(){}¦get [a]](){}¦set 's'(b){}¦get(){}¦set(){}¦async(){}¦static(){}¦if(){}¦a(b,c=1,...d){}¦a([b]],{c}){}¦get if(){}¦async get(){}¦*async(){}¦async set(){}¦a¦a:b¦...a¦[a]]:b¦'s':b¦1:b¦get¦set:b¦async¦a=1¦if:b¦async:b¦get:b¦static¦{}]$[,¦;]$[a(){}¦get a(){}¦set a(b){}¦*a(){}¦async a(){}¦async*a(){}¦[a]](){}¦'s'(){}¦1(){}¦get [a]](){}¦set 's'(b){}¦get(){}¦set(){}¦async(){}¦static(){}¦if(){}¦a(b,c=1,...d){}¦a([b]],{c}){}¦get if(){}¦async get(){}¦*async(){}¦async set(){}¦a¦a:b¦...a¦[a]]:b¦'s':b¦1:b¦get¦set:b¦async¦a=1¦if:b¦async:b¦get:b¦static¦{}]})";
    0 0, "@[class A{¦x={¦class A{static ¦class A extends B{]@[get a(¦set a(¦a(¦*a(¦async a(¦constructor(]$[~~¦a,¦[a]],¦a=1,¦...a,¦{a},]@_i@[~~¦,¦,a¦,...a])$[{}¦{a}¦a]}";
    0 0, "@[class A{¦x={]@[set a(¦a(¦constructor(]@_i,@_i){}";
    1 0, "@_H@[class A{\x01}¦{\x01}]@[a(){}¦get a(){}¦set a(b){}¦*a(){}¦async a(){}¦async*a(){}¦[a]](){}¦'s'(){}¦1(){}¦get [a]](){}¦set 's'(b){}¦get(){}¦set(){}¦async(){}¦static(){}¦if(){}¦a(b,c=1,...d){}¦a([b]],{c}){}¦get if(){}¦async get(){}¦*async(){}¦async set(){}¦a¦a:b¦...a¦[a]]:b¦'s':b¦1:b¦get¦set:b¦async¦a=1¦if:b¦async:b¦get:b¦static¦{}]";
    1 0, "class A{$[a(){}¦get a(){}¦set a(b){}¦*a(){}¦async a(){}¦async*a(){}¦[a]](){}¦'s'(){}¦1(){}¦get [a]](){}¦set 's'(b){}¦get(){}¦set(){}¦async(){}¦static(){}¦if(){}¦a(b,c=1,...d){}¦a([b]],{c}){}¦get if(){}¦async get(){}¦*async(){}¦async set(){}¦static a(){}¦static get a(){}¦static set a(b){}¦static*a(){}¦static async a(){}¦static async*a(){}¦static static(){}¦static get(){}¦constructor(){}¦;¦static [a]](){}¦get constructor(){}]$[;¦\n¦~~]$[a(){}¦get a(){}¦set a(b){}¦*a(){}¦async a(){}¦async*a(){}¦[a]](){}¦'s'(){}¦1(){}¦get [a]](){}¦set 's'(b){}¦get(){}¦set(){}¦async(){}¦static(){}¦if(){}¦a(b,c=1,...d){}¦a([b]],{c}){}¦get if(){}¦async get(){}¦*async(){}¦async set(){}¦static a(){}¦static get a(){}¦static set a(b){}¦static*a(){}¦static async a(){}¦static async*a(){}¦static static(){}¦static get(){}¦constructor(){}¦;¦static [a]](){}¦get constructor(){}]$[;¦\n¦~~]$[a(){}¦get a(){}¦set a(b){}¦*a(){}¦async a(){}¦async*a(){}¦[a]](){}¦'s'(){}¦1(){}¦get [a]](){}¦set 's'(b){}¦get(){}¦set(){}¦async(){}¦static(){}¦if(){}¦a(b,c=1,...d){}¦a([b]],{c}){}¦get if(){}¦async get(){}¦*async(){}¦async set(){}¦static a(){}¦static get a(){}¦static set a(b){}¦static*a(){}¦static async a(){}¦static async*a(){}¦static static(){}¦static get(){}¦constructor(){}¦;¦static [a]](){}¦get constructor(){}]}";
    0 0, "@_P@_L";
};
pub static C21: &[Job] = jobs! {
    0 0, "for(@[var ¦let ¦const ¦~~]a=$_o$[;;¦ in d¦ of d];);";
    0 0, "for($_o$[;;¦ in d¦ of d];);";
    0 0, "for(@[var ¦let ¦const ¦~~]$[a¦[a]]¦{a}¦[a=b in c]]¦{a=b in c}¦{[b in c]]:a}¦a,b¦a=1,b]$[ in ¦ of ¦;;¦ in;¦ of;¦;]$[b¦b in c¦b,c¦b=c¦x=>b in c]$[~~¦;¦;b in c¦;;]);";
    0 0, "for(x=>$[a in b¦{a in b}¦(a in b)¦[a in b]]];;);";
    0 0, "for(var f=$[()=>¦x=>¦async x=>¦async()=>]$[a in b¦{a in b}¦{return a in b}¦y=>a in b¦(a in b)];;);";
    0 0, "$[a¦if(a¦while(a¦x=a¦f(a¦(a¦[a¦x=>a¦var x=a¦a?b¦throw a¦switch(a¦for(;a¦for(;;a¦for(x of a¦for(x in a] in b$[~~¦)¦);¦]]¦:c¦){}¦;);]";
    0 0, "for(@[var ¦let ¦~~]a=b?$[c in d¦c]:$[e in f¦e];;);";
    0 0, "for($[a=b¦a¦[a=b¦(a=b¦{a}=b¦a[b¦a(b¦a`${b¦!a¦a+b] in c$[~~¦]]¦)¦}`]$[;;¦ in d¦ of d¦=1;;]);";
    0 0, "for($[let¦async¦yield¦of¦let[a]]¦let.a¦let()¦(let)¦async.a¦this.a]$[ in a¦ of a¦;;¦=1;;¦ of of a¦ of=>1;;]);";
    0 0, "for(a in b)for(c=$_o;;);";
    0 0, "for(a=function(){for($[b in c¦var b in c¦b of c];);b in c};;);";
    0 0, "for($_e$_e$_e;);";
    0 0, "for($[var¦let¦const] $_p$_p in b);";
    1 0, "for($_e$_e$_e of a);";
    1 0, "for($_e$_e$_e in a);";
    1 0, "for(@[var ¦let ¦~~]a=$_o$_b $_o;;);";
    0 0, "@[for(\x01;;);¦for(var x=\x01;;);¦for(let x=\x01;;);¦for(\x01 in d);¦for(\x01 of d);¦for(var x in \x01);¦for(var[x=\x01]]of y);]@_H@[b in c¦b¦b,c in d]";
    0 0, "for(@_H b in c";
    1 0, "@[for(\x01;;);¦for(var x=\x01;;);¦for(\x01 in d);]@_H@_H@[b in c¦b]";
    0 0, "@_H b in c";
    0 0, "@[for(\x01;;);¦for(var x=\x01;;);¦for(\x01 in d);]@_T@[b in c¦var b=c in d]";
    0 0, "for(@_X@[;;)¦ in d)¦ of d)¦ in e;;)];";
    0 0, "@_H for(@[var a=1,b¦let[a]]¦a¦a.b]@[ in ¦ of ¦;;]c);";
};
pub static C25: &[Job] = jobs! {
    0 0, "$[if(a)¦if(a){}else ¦while(a)¦for(;;)¦for(a of b)¦for(a in b)¦do ¦with(a)¦l:¦l:m:]$_s$[~~¦ while(a)¦ else b¦;]";
    0 0, "if(a)$_s else $_s";
    0 0, "if(a)if(b)$[c¦{c}¦;¦c;]$[ else d¦~~]$[ else e¦~~]";
    0 0, "{$_s}$_s";
    0 0, "switch($[a¦a,b¦~~]){$[case a:¦default:¦case:¦~~¦case a,b:]$_s$[case a:¦default:¦~~]$[b¦~~¦break]}";
    0 0, "try$[{}¦{a}¦a¦;]$[catch{}¦catch(a){}¦catch({a}){}¦catch([a]]){}¦catch(a=1){}¦catch(a.b){}¦catch(){}¦catch a{}¦~~]$[finally{}¦finally a¦finally{b}¦~~¦catch{}]$[~~¦c]";
    0 0, "$[if¦while¦for¦with¦switch¦do¦try¦throw¦debugger¦return]$_t$_t";
    0 0, "$[if(¦while(¦with(¦switch(¦do;while(¦for(;¦for(]$_e$_e)$[;¦{}¦a¦~~]";
    0 0, "for($[a¦var a¦let a¦~~¦a=1¦var a=1,b¦const a=1]$[;¦,¦~~]$[b¦~~]$[;¦~~]$[c¦~~])$[;¦{}¦a]";
    0 0, "$[a¦l¦yield¦await¦async¦let¦if¦1¦'s'¦this]:$_s";
    0 0, "for(;;)$[break¦continue]$[~~¦ a¦\na¦;a¦ 1¦ if¦ yield¦ await]$[;¦}¦~~]";
    0 0, "$_s$[;¦\n¦~~]$_s";
    1 0, "@_f$_s$[;¦\n¦~~]$_s";
    0 0, "@_f$[var¦let¦const]$[ a¦ a=1¦ a,b¦ a=1,b=2¦ a=1,¦ [a]]=b¦ {a}=b¦ [a]]¦ {a}¦ a.b¦ if¦ 1]$[;¦,c¦ c¦~~]";
    0 0, "$[{¦({¦{a:¦({a:¦x={¦()=>{¦()=>({]$[a¦a:1¦a,b¦}¦1¦a(){}¦'s':1¦[a]:1]$[}¦})¦}}¦}})]";
    0 0, "$[function¦function*¦async function¦async function*¦(function¦(function*¦(async function¦!function]$[ f¦ ¦ yield¦ await]$[()¦(a)¦(a,)¦(,)¦(a b)¦(1)¦]$[{}¦{a}¦;¦a¦~~]$[)¦~~¦()]";
    0 M, "@_f$_s$[;¦\n¦~~]";
    1 0, "@_f$_s$[;¦\n¦~~]$_s$[;¦\n¦~~]$_s";
    1 0, "$[if(a)¦while(a)¦for(;;)¦do ¦l:¦with(a)¦else¦{]$_t$_t$_t";
    1 0, "$_t$_t$_t$_t";
    0 0, "\x03@_S";
    0 0, "\x02@_T@_S";
    0 M, "\x03@_S";
    0 0, "@_T@_S";
    0 0, "@_T@_T@[a¦;¦{}¦var a¦let a¦function a(){}¦class A{}¦if(a);else b¦do;while(a)¦a:b¦break]";
    1 0, "\x04@_S";
    1 0, "\x05@_S";
    1 0, "\x03@_T@[a¦;¦{}¦var a]";
    1 0, "@_T@_T@_S";
    0 0, "\x07@_T@_S";
};
pub static C28: &[Job] = jobs! {
    0 0, "`$(t)4`";
    0 0, "a`$(t)3`b";
    0 0, "`a$${$3}b`";
    0 0, "`$(t)2$${b$(t)2}`";
    0 0, "$[~~¦a¦a.b¦a()¦new a¦a?.b¦(a)¦1¦async¦x=>¦typeof ¦super¦a\n]`x$[~~¦${b}¦${b}y¦${b}${c}¦y${b}]`$[~~¦`z`¦.b¦()¦+d¦`${e}`¦?.f]";
    0 0, "`$${$[{}¦{a:1}¦`x`¦`${a}`¦'}'¦/}/¦/[}]]/¦a/*}*/¦a//}\n¦function(){}¦()=>{}¦class{m(){}}¦a,b¦a in b¦yield¦x=>{}¦~~¦{¦}]$[~~¦+`y`¦.b¦}]}z`";
    0 0, "function*g(){`$${yield}$${yield a}`}";
    0 0, "async function f(){`$${await a}`}";
    0 0, "for(`$${a in b}`;;);";
    0 0, "`$${a}$(t)3$${b}`";
    0 0, "`a$1`$1`b$1`";
    0 0, "`\\$2`";
    0 0, "a?.$[b¦[c]]¦(d)]$[~~¦.e¦\n]`x$[~~¦${f}]`";
    0 SPANS, "`$[~~¦a¦\n¦\r\n¦\\n]$${b}$[~~¦c¦$$¦{]$${d$[~~¦ ¦\n]}$[~~¦e]`";
    1 0, "`$(t)5`";
    1 0, "`$${$_e$_e}`";
    1 0, "`$2$${$_e}$2`";
    0 0, "\x03@[`a`¦`${a}`¦`a${b}c`¦`a${b}c${d}e`¦a`b`¦a`b${c}d`¦a.b`c`¦a()`b`¦`${`a`}`¦`${a}`¦`${a}${b}`¦a`b``c`]";
    0 0, "\x04@[`a`¦`${a}`¦`a${b}c`¦`a${b}c${d}e`¦a`b`¦a`b${c}d`¦a.b`c`¦a()`b`¦`${`a`}`¦`${a}`¦`${a}${b}`¦a`b``c`]";
    0 0, "\x05@[`a`¦`${a}`¦`a${b}c`¦`a${b}c${d}e`¦a`b`¦a`b${c}d`¦a.b`c`¦a()`b`¦`${`a`}`¦`${a}`¦`${a}${b}`¦a`b``c`]";
    0 0, "\x02@_H@[`a`¦`${a}`¦`a${b}c`¦`a${b}c${d}e`¦a`b`¦a`b${c}d`¦a.b`c`¦a()`b`¦`${`a`}`¦`${a}`¦`${a}${b}`¦a`b``c`]";
    0 0, "@_H@[`a`¦`${a}`¦`a${b}c`¦`a${b}c${d}e`¦a`b`¦a`b${c}d`¦a.b`c`¦a()`b`¦`${`a`}`¦`${a}`¦`${a}${b}`¦a`b``c`]";
    0 0, "`a$${@_X}b`";
    0 0, "`a$${@_X}b$${@_c}`";
    1 0, "`a$${@_X}b$${@_X}c`";
    0 0, "x=`$${()=>{@_S}}`";
    1 0, "\x04`$${@_X}`";
};
pub static C29: &[Job] = jobs! {
    0 0, "$_c$_g$_g$_g";
    0 0, "new $_c$_g$_g";
    0 0, "new new a$_g$_g$_g";
    0 0, "$_u$_c$_g";
    1 0, "$_u$_c$_g$_g";
    0 0, "a$_g$_g$[=1¦++¦=>1¦+b¦?b:c¦`t`¦\n(b)¦\n[c]]]";
    0 0, "f($[a¦...a¦~~¦a,¦,¦a,b¦...a,...b¦a b¦a=1¦x=>1¦a,,b]$[,¦~~]$[c¦...c¦~~])$_g";
    0 0, "new f($[a¦...a¦~~¦a,¦,¦a,b¦...a,...b¦a b¦a=1¦x=>1¦a,,b]$[,¦~~]$[c¦...c¦~~])$_g";
    0 0, "new.$[target¦a¦meta]$_g$_g";
    0 M, "import$[.meta¦(a)]$_g$_g";
    0 0, "class A extends B{constructor(){super$_g$_g$_g}}";
    0 0, "a?.$_e$_e";
    0 0, "a?$[.¦.1¦..¦?.]$[1¦b¦.5]$[:c¦~~]";
    0 0, "a$_v$[.¦?.¦(¦[]$_v$[b¦)¦c)¦d]]¦if¦this]$_v$_g";
    1 0, "a$_w$[.¦?.¦(¦[]$_w$[b¦)¦c)¦d]]¦if¦this]$_w$_g";
    1 0, "$_c$_g$_g$_g$_g";
    1 0, "new $_c$_g$_g$_g";
    1 0, "@_y$_c$_g$_g";
    0 0, "@_H@_c@_g";
    0 0, "@_H$[new a¦new a.b¦new a()¦new a().b¦new new a()¦new(a())¦a?.b¦a?.()¦a.b`c`¦super.a()¦import(a).b¦new.target.a¦new a`b`¦new a()`b`¦async()()¦async a`b`]$_g";
    0 0, "\x04a@_g@_g";
    1 0, "\x03a@_g@_g";
    0 0, "@[a.b¦a[b]]¦a()¦a?.b¦new a¦new a()¦a`b`¦this¦super()¦super.a¦(a)¦[]]¦{}.a¦'s'¦/r/]$_g$_g$_v$_g";
    1 0, "@_H@_c@_g@_g";
};
pub static C30: &[Job] = jobs! {
    0 0, "$_t$[/¦/=]$[b¦=b¦[/]]¦\\/]/$[g¦~~¦ g¦.x]";
    0 0, "$_s$[/¦\n/]b/$[g¦~~¦.x¦/c]";
    0 0, "$_c$_g$[/¦ /¦\n/]b$[/¦~~]$[g¦/c¦~~]";
    0 0, "$[)¦]]¦}¦++¦--]$[/]b/g";
    0 0, "$[a=¦(¦[¦{¦,¦;¦!¦&&¦?¦:¦=>¦return¦typeof¦case¦in¦of¦...¦do¦else¦await¦yield¦`${¦void¦delete¦new¦throw]/b/$[g¦~~]";
    0 0, "@_f$[a=¦yield¦await¦return¦async¦of¦get¦let¦this¦null¦true¦super]$_w/b/$[g¦~~]";
    0 0, "@[if(a)¦while(a)¦f(a)¦(a)¦for(;;)¦with(a)¦function f(){}¦x=function(){}¦{}¦x={}¦()=>{}¦x=()=>{}¦class A{}¦x=class{}¦do{}while(a)¦l:¦a++¦a--¦a?.b¦`t`¦a=`${b}`¦/r/]$_w/b/$[g¦~~]";
    0 0, "a/$2/b";
    0 0, "=/$3/";
    0 0, "x=/$(r)4/g";
    0 0, "a/b$[/¦/=¦//¦/*]c$[/¦~~]d";
    1 0, "$_t$_t/b/g";
    1 0, "@_x$_t/b/g";
    1 0, "x=/$(r)5/$1";
    0 0, "@_H@[/b/g¦a/b/g¦(a)/b/g¦/b/.c¦/[/]]/¦{}/b/g¦a++/b/g¦/=/¦/b/in c]";
    0 0, "@_T@[/b/g¦a/b/g¦{}/b/g¦{}\n/b/g¦(a)\n/b/g¦;/b/]";
    0 0, "(@_X)/b/g";
    0 0, "@_S$_v/b/g";
    0 0, "@_X/b/g";
    0 0, "\x04a/b/c";
    0 0, "\x04=/b/g";
    1 0, "\x04@_H/b/";
    1 0, "@_H@_X/b/g";
};
