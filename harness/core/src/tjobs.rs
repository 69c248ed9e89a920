//! What each property of syntax trees explores.
use crate::plex::MODULE as M;
use crate::ptree::*;
use crate::Job;

macro_rules! jobs {
    ($($tier:literal $mode:expr, $t:expr;)*) => { &[$(Job { tier: $tier, mode: $mode, t: $t }),*] };
}
pub static C22: &[Job] = jobs! {
    0 TRAVERSE, "$_s";
    0 TRAVERSE, "$_c$_g";
    0 TRAVERSE, "a$_b b";
    0 TRAVERSE, "$_u$_u a";
    0 TRAVERSE, "x$_q b";
    1 TRAVERSE, "($_i$[,¦~~]$_i$[,¦~~])$[=>1¦=>{}]";
    0 TRAVERSE, "($_i,$_i)=>1";
    0 TRAVERSE, "async($_i)=>$[1¦{}]";
    0 TRAVERSE, "[$_i,$_i]=b";
    0 TRAVERSE, "({$_i,$_i}=b)";
    0 TRAVERSE, "({a:$_i}=b)";
    1 TRAVERSE, "[[$_i]=$_i]$[=b¦~~]";
    0 TRAVERSE, "[[$_i]]$[=b¦~~]";
    0 TRAVERSE, "@[let ¦var ¦const ]$[[¦{¦{a:¦{[a]]:]$_i$[,b¦,¦~~]$[]]¦}]=c";
    0 TRAVERSE, "function$[*¦~~] f($_i$[,b¦~~]){$[a¦'use strict'¦'b';c¦~~]}";
    0 TRAVERSE, "for(@[var ¦~~¦let ]$_i$[ of ¦ in ¦=1;;]c)$[d¦;¦{}]";
    0 TRAVERSE, "for($[a¦var a¦let a=1,b¦~~];$[b¦~~];$[c¦~~])$[;¦{}¦a]";
    1 TRAVERSE, "class A@[~~¦ extends B]{$[~~¦static ]$[~~¦get ¦set ¦async ¦*¦async*]$_a($[~~¦b]){$[~~¦c]}$[~~¦;]$[~~¦d(){}]}";
    0 TRAVERSE, "class $[A¦A extends B]{$[~~¦static ]$[~~¦get ¦set ¦async ¦*]$[a¦'s'¦1¦[a]]¦if]($[~~¦b]){c}$[~~¦;d(){}]}";
    0 TRAVERSE, "x={$[~~¦get ¦set ¦async ¦*¦async*¦...]$_a$[~~¦(){}¦(b){}¦:c¦,d],$[e¦...f¦~~]}";
    0 TRAVERSE, "[$[a¦,¦...b¦~~]$[c¦,¦...d],$[~~¦e¦,]]]";
    0 TRAVERSE, "f($[a¦...b¦~~]$[,c¦,...d¦,¦~~])";
    0 TRAVERSE, "$[a¦~~]`$[~~¦x]$${$_c}$[~~¦y]$${b}`";
    0 TRAVERSE, "@_x$[a?b:c¦yield a¦yield*a¦await a¦super.a¦return a¦new.target¦a,b¦!a]";
    0 TRAVERSE, "try{a}$[catch(b){c}¦catch{d}¦catch([e]]){}¦~~]$[finally{f}¦~~]";
    0 TRAVERSE, "switch(a){$[case b:¦default:¦~~]$[c;¦~~]$[case d:e¦default:f¦~~]}";
    0 TRAVERSE, "$[if(a)b¦if(a)b;else ¦while(a)¦do ¦l:¦with(a)]$[c¦{}¦;]$[~~¦ while(d)¦ else e]";
    0 TRAVERSE, "$['a';¦\"b\"\n¦~~]$['c';¦1;¦~~]function f(){$['use strict';¦~~]'d'}";
    0 TRAVERSE | M, "import$_m$_m";
    0 TRAVERSE | M, "export$_m$_m";
    1 TRAVERSE | M, "import$_m$_m$_m";
    0 TRAVERSE | M, "$[import.meta.a¦import('x').b¦export default class A{}¦export default function(){}¦export default a=>b]";
    1 TRAVERSE, "@_x$_s";
    1 TRAVERSE, "@_y$_c$_g";
    1 TRAVERSE, "$_t$_t$_t";
    1 TRAVERSE, "$_e$_e$_e$_e";
    0 TRAVERSE, "@_H@_X";
    0 TRAVERSE, "@_T@_S";
    0 TRAVERSE | M, "@_S";
    0 TRAVERSE, "@_P@_i";
    1 TRAVERSE | M, "@_T@_S";
    1 TRAVERSE, "@_H@_H@[a¦a,b¦{a}¦a.b()¦a=>b¦-a]";
    1 TRAVERSE, "@_T@_T@[a¦;¦{}¦var a¦if(a);else b]";
    1 TRAVERSE, "@_T@_H@[a¦{a}¦a,b¦function(){}]";
    1 TRAVERSE, "@_P@_P@_i";
    0 TRAVERSE | M, "@_T@_S";
    0 TRAVERSE, "\x05@_S";
    0 TRAVERSE, "@_P@_L";
    0 TRAVERSE, "[@*300*,@[a¦~~]@[,¦~~] ]";
    0 TRAVERSE, "@*24*{a@[;¦~~]@*24*}";
    0 TRAVERSE, "@*24*[a@*24*]@[=b¦;¦]]]";
    0 TRAVERSE, "@*24*(a@*24*)@[=b¦;¦)]";
    0 TRAVERSE, "@*24*!a@[=b¦;]";
};
pub static C23: &[Job] = jobs! {
    0 SERDE, "@_s";
    0 SERDE, "@_c@_g";
    0 SERDE, "a@_b b";
    0 SERDE, "@_u@_u a";
    0 SERDE, "x@_q b";
    1 SERDE, "(@_i@[,¦~~]@_i@[,¦~~])@[=>1¦=>{}]";
    0 SERDE, "(@_i,@_i)=>1";
    0 SERDE, "async(@_i)=>@[1¦{}]";
    0 SERDE, "[@_i,@_i]=b";
    0 SERDE, "({@_i,@_i}=b)";
    0 SERDE, "({a:@_i}=b)";
    1 SERDE, "[[@_i]=@_i]@[=b¦~~]";
    0 SERDE, "[[@_i]]@[=b¦~~]";
    0 SERDE, "@[let ¦var ¦const ]@[[¦{¦{a:¦{[a]]:]@_i@[,b¦,¦~~]@[]]¦}]=c";
    0 SERDE, "function@[*¦~~] f(@_i@[,b¦~~]){@[a¦'use strict'¦'b';c¦~~]}";
    0 SERDE, "for(@[var ¦~~¦let ]@_i@[ of ¦ in ¦=1;;]c)@[d¦;¦{}]";
    0 SERDE, "for(@[a¦var a¦let a=1,b¦~~];@[b¦~~];@[c¦~~])@[;¦{}¦a]";
    1 SERDE, "class A@[~~¦ extends B]{@[~~¦static ]@[~~¦get ¦set ¦async ¦*¦async*]@_a(@[~~¦b]){@[~~¦c]}@[~~¦;]@[~~¦d(){}]}";
    0 SERDE, "class @[A¦A extends B]{@[~~¦static ]@[~~¦get ¦set ¦async ¦*]@[a¦'s'¦1¦[a]]¦if](@[~~¦b]){c}@[~~¦;d(){}]}";
    0 SERDE, "x={@[~~¦get ¦set ¦async ¦*¦async*¦...]@_a@[~~¦(){}¦(b){}¦:c¦,d],@[e¦...f¦~~]}";
    0 SERDE, "[@[a¦,¦...b¦~~]@[c¦,¦...d],@[~~¦e¦,]]]";
    0 SERDE, "f(@[a¦...b¦~~]@[,c¦,...d¦,¦~~])";
    0 SERDE, "@[a¦~~]`@[~~¦x]$${@_c}@[~~¦y]$${b}`";
    0 SERDE, "@_x@[a?b:c¦yield a¦yield*a¦await a¦super.a¦return a¦new.target¦a,b¦!a]";
    0 SERDE, "try{a}@[catch(b){c}¦catch{d}¦catch([e]]){}¦~~]@[finally{f}¦~~]";
    0 SERDE, "switch(a){@[case b:¦default:¦~~]@[c;¦~~]@[case d:e¦default:f¦~~]}";
    0 SERDE, "@[if(a)b¦if(a)b;else ¦while(a)¦do ¦l:¦with(a)]@[c¦{}¦;]@[~~¦ while(d)¦ else e]";
    0 SERDE, "@['a';¦\"b\"\n¦~~]@['c';¦1;¦~~]function f(){@['use strict';¦~~]'d'}";
    0 SERDE | M, "import@_m@_m";
    0 SERDE | M, "export@_m@_m";
    1 SERDE | M, "import@_m@_m@_m";
    0 SERDE | M, "@[import.meta.a¦import('x').b¦export default class A{}¦export default function(){}¦export default a=>b]";
    0 SERDE, "'$2'";
    0 SERDE, "\"$2\"";
    0 SERDE, "`$1$${a}$1`";
    0 SERDE, "/$2/";
    0 SERDE, "$1$2u";
    0 SERDE, "'$2u$1'";
    1 SERDE, "'$3u'";
    0 SERDE, "$d$1";
    1 SERDE, "$3";
    0 SERDE, "'$1';\"$1\"";
    0 SPANTEXT, "$3";
    0 SPANTEXT, "$d:$d$d";
    0 SPANTEXT, "$d$1$d";
    0 SPANTEXT, "$d:$d:$1";
    0 SPANTEXT, "$d$d:6$d$d";
    0 SPANTEXT, "6$d53$d:429$d96729$d";
    1 SPANTEXT, "@[~~¦1]$d$1$d@[~~¦:¦:1]";
    0 SPANTEXT, "@[18446744073709551615:1¦18446744073709551616:1¦1:18446744073709551615¦1:18446744073709551616¦99999999999999999999999:0¦4294967296:4294967295]";
    1 SERDE, "@_x@_s";
    1 SERDE, "@_y@_c@_g";
    1 SERDE, "@_t@_t@_t";
    1 SERDE, "'$3'";
    1 SERDE, "`$3`";
    1 SPANTEXT, "$5";
    0 SERDE, "@_H@_X";
    0 SERDE, "@_T@_S";
    0 SERDE | M, "@_S";
    0 SERDE, "@_P@_i";
    1 SERDE | M, "@_T@_S";
    1 SERDE, "@_H@_H@[a¦a,b¦{a}¦a.b()¦a=>b¦-a]";
    1 SERDE, "@_T@_T@[a¦;¦{}¦var a¦if(a);else b]";
    1 SERDE, "@_T@_H@[a¦{a}¦a,b¦function(){}]";
    1 SERDE, "@_P@_P@_i";
    0 SERDE, "\x05@_S";
    0 SERDE, "\x05(@_X)";
    0 SERDE, "[@*300*,@[a¦~~]@[,¦~~] ]";
    0 SERDE, "@*300*;@[a¦)]";
    0 SERDE, "@*300*\n@[a¦)]";
    0 SERDE, "a@*300*b@[ ¦.]c";
    0 SERDE, "@*24*{a@[;¦~~]@*24*}";
    0 SERDE, "@*24*[a@*24*]@[=b¦;¦]]]";
    0 SERDE, "@*24*(a@*24*)@[=b¦;¦)]";
    0 SERDE, "@*24*!a@[=b¦;]";
    0 SERDE, "'@*300*a@['¦~~]";
    0 SERDE, "@*300*1@[.¦e1¦a]1";
    0 SERDE, "@*65600* @[a¦b(c)¦[d]=e]";
};
pub static C24: &[Job] = jobs! {
    0 PRINT, "@_s";
    0 PRINT, "@_c@_g";
    0 PRINT, "a@_b b";
    0 PRINT, "@_u@_u a";
    0 PRINT, "x@_q b";
    1 PRINT, "(@_i@[,¦~~]@_i@[,¦~~])@[=>1¦=>{}]";
    0 PRINT, "(@_i,@_i)=>1";
    0 PRINT, "async(@_i)=>@[1¦{}]";
    0 PRINT, "[@_i,@_i]=b";
    0 PRINT, "({@_i,@_i}=b)";
    0 PRINT, "({a:@_i}=b)";
    1 PRINT, "[[@_i]=@_i]@[=b¦~~]";
    0 PRINT, "[[@_i]]@[=b¦~~]";
    0 PRINT, "@[let ¦var ¦const ]@[[¦{¦{a:¦{[a]]:]@_i@[,b¦,¦~~]@[]]¦}]=c";
    0 PRINT, "function@[*¦~~] f(@_i@[,b¦~~]){@[a¦'use strict'¦'b';c¦~~]}";
    0 PRINT, "for(@[var ¦~~¦let ]@_i@[ of ¦ in ¦=1;;]c)@[d¦;¦{}]";
    0 PRINT, "for(@[a¦var a¦let a=1,b¦~~];@[b¦~~];@[c¦~~])@[;¦{}¦a]";
    1 PRINT, "class A@[~~¦ extends B]{@[~~¦static ]@[~~¦get ¦set ¦async ¦*¦async*]@_a(@[~~¦b]){@[~~¦c]}@[~~¦;]@[~~¦d(){}]}";
    0 PRINT, "class @[A¦A extends B]{@[~~¦static ]@[~~¦get ¦set ¦async ¦*]@[a¦'s'¦1¦[a]]¦if](@[~~¦b]){c}@[~~¦;d(){}]}";
    0 PRINT, "x={@[~~¦get ¦set ¦async ¦*¦async*¦...]@_a@[~~¦(){}¦(b){}¦:c¦,d],@[e¦...f¦~~]}";
    0 PRINT, "[@[a¦,¦...b¦~~]@[c¦,¦...d],@[~~¦e¦,]]]";
    0 PRINT, "f(@[a¦...b¦~~]@[,c¦,...d¦,¦~~])";
    0 PRINT, "@[a¦~~]`@[~~¦x]$${@_c}@[~~¦y]$${b}`";
    0 PRINT, "@_x@[a?b:c¦yield a¦yield*a¦await a¦super.a¦return a¦new.target¦a,b¦!a]";
    0 PRINT, "try{a}@[catch(b){c}¦catch{d}¦catch([e]]){}¦~~]@[finally{f}¦~~]";
    0 PRINT, "switch(a){@[case b:¦default:¦~~]@[c;¦~~]@[case d:e¦default:f¦~~]}";
    0 PRINT, "@[if(a)b¦if(a)b;else ¦while(a)¦do ¦l:¦with(a)]@[c¦{}¦;]@[~~¦ while(d)¦ else e]";
    0 PRINT, "@['a';¦\"b\"\n¦~~]@['c';¦1;¦~~]function f(){@['use strict';¦~~]'d'}";
    0 PRINT | M, "import@_m@_m";
    0 PRINT | M, "export@_m@_m";
    1 PRINT | M, "import@_m@_m@_m";
    0 PRINT | M, "@[import.meta.a¦import('x').b¦export default class A{}¦export default function(){}¦export default a=>b]";
    0 PRINT, "@[if(a)¦if(a)\nelse b¦if(a)b;else ¦for(;;)¦for(a in b)¦for(a of b)¦while(a)¦do \nwhile(a)¦with(a)¦l:¦switch(a){case 1:}¦switch(a){default:\ncase b:}¦function f(){}¦x=>{}¦class A{m(){}}¦{}¦'use strict';¦for(;;)if(a)¦try{}catch(e){}finally{}]@_s";
    0 PRINT, "@[if(a)¦if(a)\nelse b¦if(a)b;else ¦for(;;)¦for(a in b)¦for(a of b)¦while(a)¦do \nwhile(a)¦with(a)¦l:¦switch(a){case 1:}¦switch(a){default:\ncase b:}¦function f(){}¦x=>{}¦class A{m(){}}¦{}¦'use strict';¦for(;;)if(a)¦try{}catch(e){}finally{}]@[a¦;¦{}¦var b]@[\n¦;¦;;]@[a¦;¦{}¦function f(){}¦do;while(a)]";
    1 PRINT, "@_s\n@_s";
    0 PRINT, "@_s\n@[a¦(b)¦[c]]¦`d`¦/e/¦++f¦;¦{}¦function g(){}¦class H{}]";
    0 PRINT, "a@_b@_u a";
    0 PRINT, "@_c@_b@[a¦/r/¦1¦.5¦$a¦++b¦'s'¦é]";
    0 PRINT, "@[a¦/r/¦/r/g¦1¦1.¦0x1¦1e5¦1_0¦$¦_¦'s'¦`t`¦a++¦a--¦(a)¦[]]¦é]@[ in ¦ instanceof ¦+¦-¦/¦<¦.a¦ .a¦[b]]¦,¦?.a¦ ?b:]@[a¦$¦_¦é¦/r/¦+a¦-a¦++a¦--a¦!--a¦!a¦.5¦1¦'s'¦`t`¦{}¦[]]¦(a)¦typeof a¦~a]";
    1 PRINT, "@_c@_b@_c";
    1 PRINT, "@_c@_g@_g";
    1 PRINT, "@_y@_c@_g";
    1 PRINT, "@_x@_s";
    0 PRINT, "$3";
    1 PRINT, "$4";
    0 PRINT, "a$2b";
    0 PRINT, "@[var ¦let ¦const ¦typeof ¦void ¦delete ¦throw ¦new ¦async ¦class ¦function ¦get=>]$2@[~~¦=1¦(){}¦{}]";
    0 PRINT, "$1 in $1";
    0 PRINT, "$d$1$1a";
    0 PRINT, "$d$1@[.¦ .¦ in ¦?.¦[¦`¦/]$1";
    0 PRINT, "/$2/$1";
    0 PRINT, "/$1/$1@[ in ¦.¦/¦ instanceof ]a";
    0 PRINT, "'$2'";
    0 PRINT, "\"$2\"";
    1 PRINT, "'$3'";
    0 PRINT, "`$2`";
    1 PRINT, "`$3`";
    0 PRINT, "`$1$${a}$1`";
    0 PRINT, "x`$1$${`$1`}$1`";
    0 PRINT, "({'$1':1,\"$1\"(){}})";
    0 PRINT, "'$1';\"$1\";a";
    0 PRINT, "$1$2u";
    0 PRINT, "a $1$2u";
    0 PRINT, "'$2u$1'";
    0 PRINT, "a.@_r";
    0 PRINT, "({@_r:1,get @_r(){}})";
    0 PRINT, "class A{static @_k(){}async @_r(){}}";
    0 PRINT, "@_k=1";
    0 PRINT, "@_k in a";
    0 PRINT, "for(@_k@[ in ¦ of ]b);";
    0 PRINT, "var @_k";
    0 PRINT, "@[!¦typeof ¦++¦new ¦...¦()=>]@_k";
    1 PRINT, "@_t@_t@_t";
    1 PRINT, "@_e@_e@_e@_e";
    0 PRINT, "@_H@_X";
    0 PRINT, "@_T@_S";
    0 PRINT | M, "@_S";
    0 PRINT, "@_P@_i";
    1 PRINT | M, "@_T@_S";
    1 PRINT, "@_H@_H@[a¦a,b¦{a}¦a.b()¦a=>b¦-a]";
    1 PRINT, "@_T@_T@[a¦;¦{}¦var a¦if(a);else b]";
    1 PRINT, "@_T@_H@[a¦{a}¦a,b¦function(){}]";
    1 PRINT, "@_P@_P@_i";
    0 PRINT | M, "@_S@[\n¦;]@[a¦(b)¦import*as c from'y'¦export{d as e}from'z'¦export default class{}]";
    0 PRINT, "@_S\n@_S";
    1 PRINT, "\x04@_S";
    1 PRINT, "\x04(@_X)";
    0 PRINT, "\x05@_S";
    0 PRINT, "\x05(@_X)";
    0 PRINT, "@_P@_L";
    0 PRINT, "@[let[¦var{¦[¦({¦new a(¦import(¦super(]@_L@[]]=b¦}=b¦]]¦})¦)]";
    0 PRINT, "[@*300*,@[a¦~~]@[,¦~~] ]";
    0 PRINT, "@*300*;@[a¦)]";
    0 PRINT, "@*300*\n@[a¦)]";
    0 PRINT, "a@*300*b@[ ¦.]c";
    0 PRINT, "@*24*{a@[;¦~~]@*24*}";
    0 PRINT, "@*24*[a@*24*]@[=b¦;¦]]]";
    0 PRINT, "@*24*(a@*24*)@[=b¦;¦)]";
    0 PRINT, "@*24*!a@[=b¦;]";
    0 PRINT, "'@*300*a@['¦~~]";
    0 PRINT, "@*300*1@[.¦e1¦a]1";
};
pub static C32: &[Job] = jobs! {
    0 ENTRY, "@_s@[~~¦\na¦;b]";
    0 ENTRY | M, "@_s@[~~¦\na]";
    0 ENTRY, "@_c@_g";
    0 ENTRY, "@_c@_b@[a¦/b/¦{}¦(c)¦d=>e]";
    0 ENTRY, "@_z@[=¦+=¦++¦\n++b¦=>1¦,¦?b:c¦ in b¦ of b]@[~~¦b]";
    0 ENTRY, "@_s@_n";
    0 ENTRY, "$3";
    0 ENTRY | M, "$2";
    1 ENTRY | M, "$3";
    1 ENTRY, "$_t$_t$_t";
    0 ENTRY | M, "import@_m@_m";
    0 ENTRY | M, "export@_m@_m";
    0 ENTRY, "@_d a";
    1 ENTRY, "@_s@[ ¦\n]@_s";
    1 ENTRY, "@_c$_g$_g";
    1 ENTRY, "@_c$_b$_c";
    0 ENTRY, "@_p@_p@_p";
    1 ENTRY, "$4";
    1 ENTRY, "$_t$_t$_t$_t";
    0 ENTRY, "[@_i,@_i]=b";
    0 ENTRY, "(@_i,@_i)=>b";
    0 ENTRY, "{@_s}b";
    0 ENTRY, "a$[ ¦\n¦;¦,¦~~]$[/¦++¦`b`¦(¦[¦.¦=>]$[c¦d/¦~~¦)¦]]]";
    1 ENTRY, "$_e$_e$_e$_e";
    0 ENTRY, "@_H@_X";
    0 ENTRY, "@[{¦function¦function*¦async function¦class¦let[¦'a'¦async¦/a/¦`a`]@[}¦a:1}¦a}¦a(){}}¦(){}¦ b(){}¦{}¦ b{}¦ extends c{}¦a]]¦ x=>1¦(x)=>{}]@[~~¦.d¦()¦,e¦=f¦\ng¦)¦;]";
    0 ENTRY, "@_T@_S";
    0 ENTRY | M, "@_S";
    0 ENTRY, "@_P@_i";
    1 ENTRY | M, "@_T@_S";
    1 ENTRY, "@_H@_H@[a¦a,b¦{a}¦a.b()¦a=>b¦-a]";
    1 ENTRY, "@_T@_T@[a¦;¦{}¦var a¦if(a);else b]";
    1 ENTRY, "@_T@_H@[a¦{a}¦a,b¦function(){}]";
    1 ENTRY, "@_P@_P@_i";
    0 ENTRY, "\x02@_T@_S";
    0 ENTRY, "\x03@_S";
    0 ENTRY, "\x04@_S";
    1 ENTRY, "\x03(@_X)";
    1 ENTRY | M, "\x03@_S";
    0 ENTRY, "@_P@_L";
};
