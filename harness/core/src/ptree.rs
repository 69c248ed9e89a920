//! Properties of syntax trees: traversal, serialization and printing.
use crate::plex::MODULE;
use crate::pparse::parse;
use crate::rt::*;
use crate::{dump, Job};
use fajt_ast::traverse::{Traverse, Visitor};
use fajt_ast::*;
use serde::ser::*;

pub const TRAVERSE: u32 = 3 << 8;
pub const SERDE: u32 = 4 << 8;
pub const SPANTEXT: u32 = 5 << 8;
pub const PRINT: u32 = 6 << 8;
pub const ENTRY: u32 = 7 << 8;
pub const SPANNED: u32 = 8 << 8;

const NO: usize = usize::MAX;

/// A node of a tree: the name of its type, where it starts and ends in the source (if it says so), and
/// where the nodes inside it end in the list of nodes (which are in order of entering).
#[derive(Clone, PartialEq, Debug)]
struct N {
    name: &'static str,
    span: (usize, usize),
    last: usize,
}

// ---- what a visitor sees

struct Rec {
    nodes: Vec<N>,
    open: Vec<usize>,
    /// the node whose inside is not to be visited
    skip: usize,
    nested: bool,
    /// the functions called
    calls: Vec<&'static str>,
    /// what `Spanned` says of the enum just entered, and whether the node in it has that span
    want: Option<(usize, usize)>,
    spanned: bool,
}
impl Rec {
    fn new(skip: usize) -> Rec {
        Rec { nodes: Vec::with_capacity(64), open: Vec::with_capacity(32), skip, nested: true, calls: Vec::with_capacity(128), want: None, spanned: true }
    }
    fn begin(&mut self, name: &'static str, span: (usize, usize)) -> bool {
        if let Some(w) = self.want.take() {
            self.spanned &= span.0 == NO || span == w;
        }
        self.open.push(self.nodes.len());
        self.nodes.push(N { name: base(name), span, last: NO });
        self.nodes.len() - 1 != self.skip
    }
    fn end(&mut self, name: &'static str, span: (usize, usize)) {
        match self.open.pop() {
            Some(k) if self.nodes[k].name == base(name) && self.nodes[k].span == span => self.nodes[k].last = self.nodes.len(),
            _ => self.nested = false,
        }
    }
}
fn base(n: &'static str) -> &'static str {
    n.split('<').next().unwrap().trim()
}
macro_rules! rec {
    (plain { $($t:ty, $e:ident $x:ident;)* } spanning { $($et:ty, $ee:ident $ex:ident;)* } list { $($lt:ty, $le:ident $lx:ident;)* } spanned { $($st:ty, $se:ident $sx:ident;)* }) => {
        impl Visitor for Rec {
            $(fn $e(&mut self, _: &mut $t) -> bool { self.calls.push(stringify!($e)); self.begin(stringify!($t), (NO, NO)) }
            fn $x(&mut self, _: &mut $t) { self.calls.push(stringify!($x)); self.end(stringify!($t), (NO, NO)) })*
            $(fn $ee(&mut self, n: &mut $et) -> bool {
                self.calls.push(stringify!($ee));
                let r = self.begin(stringify!($et), (NO, NO));
                self.want = Some((n.span().start, n.span().end));
                r
            }
            fn $ex(&mut self, _: &mut $et) { self.calls.push(stringify!($ex)); self.end(stringify!($et), (NO, NO)) })*
            $(fn $le(&mut self, n: &mut $lt) -> bool { self.calls.push(stringify!($le)); self.begin(stringify!($lt), (n.span.start, n.span.end)) }
            fn $lx(&mut self, n: &mut $lt) { self.calls.push(stringify!($lx)); self.end(stringify!($lt), (n.span.start, n.span.end)) })*
            $(fn $se(&mut self, n: &mut $st) -> bool {
                self.calls.push(stringify!($se));
                let r = self.begin(stringify!($st), (n.span.start, n.span.end));
                self.spanned &= *n.span() == n.span;
                r
            }
            fn $sx(&mut self, n: &mut $st) { self.calls.push(stringify!($sx)); self.end(stringify!($st), (n.span.start, n.span.end)) })*
        }
    };
}
rec! {
    plain {
        Program, enter_program exit_program;
        Literal, enter_literal exit_literal;
        LitNumber, enter_number_literal exit_number_literal;
        TemplatePart, enter_template_part exit_template_part;
        ObjectBindingProp, enter_object_binding_prop exit_object_binding_prop;
        PropertyName, enter_property_name exit_property_name;
        ForInit, enter_for_init exit_for_init;
        ForDeclaration, enter_for_declaration exit_for_declaration;
        Callee, enter_callee exit_callee;
        Argument, enter_argument exit_argument;
        MemberObject, enter_member_object exit_member_object;
        MemberProperty, enter_member_property exit_member_property;
        ArrayElement, enter_array_element exit_array_element;
        ArrowFunctionBody, enter_arrow_function_body exit_arrow_function_body;
        PropertyDefinition, enter_property_definition exit_property_definition;
        BinaryOperator, enter_binary_operator exit_binary_operator;
        LogicalOperator, enter_logical_operator exit_logical_operator;
        AssignmentOperator, enter_assignment_operator exit_assignment_operator;
        UnaryOperator, enter_unary_operator exit_unary_operator;
        UpdateOperator, enter_update_operator exit_update_operator;
        AssignmentProp, enter_assignment_prop exit_assignment_prop;
        LitString, enter_string_literal exit_string_literal;
        LitTemplate, enter_template_literal exit_template_literal;
        LitArray, enter_array_literal exit_array_literal;
        LitObject, enter_object_literal exit_object_literal;
    }
    spanning {
        Expr, enter_expr exit_expr;
        Stmt, enter_stmt exit_stmt;
        BindingPattern, enter_binding_pattern exit_binding_pattern;
        ClassElement, enter_class_element exit_class_element;
        DeclExport, enter_export exit_export;
        PatternOrExpr, enter_pattern_or_expr exit_pattern_or_expr;
        AssignmentPattern, enter_assignment_pattern exit_assignment_pattern;
    }
    list {
        StmtList<Stmt>, enter_stmt_list exit_stmt_list;
    }
    spanned {
        Super, enter_super exit_super;
        DeclFunction, enter_function_decl exit_function_decl;
        DeclClass, enter_class_decl exit_class_decl;
        DeclImport, enter_import exit_import;
        StmtExpr, enter_stmt_expr exit_stmt_expr;
        StmtBlock, enter_block_stmt exit_block_stmt;
        ExprBinary, enter_binary_expr exit_binary_expr;
        ExprLogical, enter_logical_expr exit_logical_expr;
        ExprUnary, enter_unary_expr exit_unary_expr;
        ExprCall, enter_call_expr exit_call_expr;
        ExprMember, enter_member_expr exit_member_expr;
        ExprOptionalMember, enter_optional_member_expr exit_optional_member_expr;
        ExprOptionalCall, enter_optional_call_expr exit_optional_call_expr;
        ExprParenthesized, enter_parenthesized_expr exit_parenthesized_expr;
        ExprLiteral, enter_literal_expr exit_literal_expr;
        ExprAssignment, enter_assignment_expr exit_assignment_expr;
        ExprYield, enter_yield_expr exit_yield_expr;
        ExprConditional, enter_conditional_expr exit_conditional_expr;
        ExprUpdate, enter_update_expr exit_update_expr;
        ExprSequence, enter_sequence_expr exit_sequence_expr;
        ExprThis, enter_this_expr exit_this_expr;
        ExprFunction, enter_function_expr exit_function_expr;
        ExprNew, enter_new_expr exit_new_expr;
        ExprArrowFunction, enter_arrow_function exit_arrow_function;
        ExprAwait, enter_await_expr exit_await_expr;
        ExprMetaProperty, enter_meta_property exit_meta_property;
        ExprClass, enter_class_expr exit_class_expr;
        StmtReturn, enter_return_stmt exit_return_stmt;
        StmtVariable, enter_variable_stmt exit_variable_stmt;
        StmtEmpty, enter_empty_statement exit_empty_statement;
        StmtTry, enter_try_stmt exit_try_stmt;
        StmtDebugger, enter_debugger_stmt exit_debugger_stmt;
        StmtThrow, enter_throw_stmt exit_throw_stmt;
        StmtLabeled, enter_labeled_stmt exit_labeled_stmt;
        StmtWith, enter_with_stmt exit_with_stmt;
        StmtContinue, enter_continue_stmt exit_continue_stmt;
        StmtBreak, enter_break_stmt exit_break_stmt;
        StmtSwitch, enter_switch_stmt exit_switch_stmt;
        StmtIf, enter_if_stmt exit_if_stmt;
        StmtFor, enter_for_stmt exit_for_stmt;
        StmtForOf, enter_for_of_stmt exit_for_of_stmt;
        StmtForIn, enter_for_in_stmt exit_for_in_stmt;
        StmtWhile, enter_while_stmt exit_while_stmt;
        StmtDoWhile, enter_do_while_stmt exit_do_while_stmt;
        BindingElement, enter_binding_element exit_binding_element;
        FormalParameters, enter_formal_parameters exit_formal_parameters;
        VariableDeclaration, enter_variable_declaration exit_variable_declaration;
        ArrayBinding, enter_array_binding exit_array_binding;
        ObjectBinding, enter_object_binding exit_object_binding;
        ArrayAssignmentPattern, enter_array_assignment_pattern exit_array_assignment_pattern;
        AssignmentElement, enter_assignment_element exit_assignment_element;
        ObjectAssignmentPattern, enter_object_assignment_pattern exit_object_assignment_pattern;
        SingleNameAssignmentProp, enter_single_name_assignment_prop exit_single_name_assignment_prop;
        NamedAssignmentProp, enter_named_assignment_prop exit_named_assignment_prop;
        SingleNameBinding, enter_single_name_binding exit_single_name_binding;
        NamedBinding, enter_named_binding exit_named_binding;
        NamedProperty, enter_named_property exit_named_property;
        MethodDefinition, enter_method_definition exit_method_definition;
        CatchClause, enter_catch_clause exit_catch_clause;
        SwitchCase, enter_switch_case exit_switch_case;
        ExportDecl, enter_export_decl exit_export_decl;
        ExportDefaultDecl, enter_export_default_decl exit_export_default_decl;
        ExportDefaultExpr, enter_export_default_expr exit_export_default_expr;
        ExprTaggedTemplate, enter_tagged_template_expr exit_tagged_template_expr;
        ExportNamed, enter_export_named exit_export_named;
        ExportNamespace, enter_export_namespace exit_export_namespace;
        NamedExport, enter_named_export exit_named_export;
        NamedImport, enter_named_import exit_named_import;
        Ident, enter_ident exit_ident;
        Body, enter_body exit_body;
        ForBinding, enter_for_binding exit_for_binding;
    }
}

// ---- what is in the tree, according to its own serialization

struct Walk {
    nodes: Vec<N>,
    open: Vec<usize>,
    span: bool,
}
type R = Result<(), dump::Never>;
fn counted(name: &str) -> bool {
    !matches!(name, "MethodKind" | "VariableKind" | "Span" | "Option")
}
impl Walk {
    fn begin(&mut self, name: &'static str) {
        if counted(name) {
            self.open.push(self.nodes.len());
            self.nodes.push(N { name, span: (NO, NO), last: NO });
        } else {
            self.open.push(NO);
        }
    }
    fn finish(&mut self) -> R {
        if let Some(k) = self.open.pop() {
            if k != NO {
                self.nodes[k].last = self.nodes.len();
            }
        }
        Ok(())
    }
    fn text(&mut self, s: &str) -> R {
        if self.span {
            let mut p = s.split(':');
            let a = p.next().and_then(|x| x.parse().ok()).unwrap_or(NO - 1);
            let b = p.next().and_then(|x| x.parse().ok()).unwrap_or(NO - 1);
            if let Some(k) = self.open.last() {
                self.nodes[*k].span = (a, b);
            }
        }
        Ok(())
    }
}
macro_rules! leaves {
    ($($f:ident $t:ty;)*) => { $(fn $f(self, _: $t) -> R { Ok(()) })* };
}
impl<'a> Serializer for &'a mut Walk {
    type Ok = ();
    type Error = dump::Never;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    leaves! { serialize_bool bool; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_u8 u8; serialize_u16 u16; serialize_u32 u32; serialize_u64 u64; serialize_f32 f32; serialize_f64 f64; serialize_char char; serialize_bytes &[u8]; serialize_unit_struct &'static str; }
    fn serialize_str(self, s: &str) -> R { self.text(s) }
    fn serialize_none(self) -> R { Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, t: &T) -> R { t.serialize(self) }
    fn serialize_unit(self) -> R { Ok(()) }
    fn serialize_unit_variant(self, n: &'static str, _: u32, _: &'static str) -> R { self.begin(n); self.finish() }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, t: &T) -> R { t.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, _: u32, _: &'static str, t: &T) -> R { self.begin(n); t.serialize(&mut *self)?; self.finish() }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self, dump::Never> { self.open.push(NO); Ok(self) }
    fn serialize_tuple(self, _: usize) -> Result<Self, dump::Never> { self.open.push(NO); Ok(self) }
    fn serialize_tuple_struct(self, n: &'static str, _: usize) -> Result<Self, dump::Never> { self.begin(n); Ok(self) }
    fn serialize_tuple_variant(self, n: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, dump::Never> { self.begin(n); Ok(self) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, dump::Never> { self.open.push(NO); Ok(self) }
    fn serialize_struct(self, n: &'static str, _: usize) -> Result<Self, dump::Never> { self.begin(n); Ok(self) }
    fn serialize_struct_variant(self, n: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, dump::Never> { self.begin(n); Ok(self) }
}
macro_rules! elems {
    ($($tr:ident $f:ident;)*) => { $(impl<'a> $tr for &'a mut Walk {
        type Ok = ();
        type Error = dump::Never;
        fn $f<T: ?Sized + Serialize>(&mut self, t: &T) -> R { t.serialize(&mut **self) }
        fn end(self) -> R { self.finish() }
    })* };
}
elems! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; SerializeTupleVariant serialize_field; }
impl<'a> SerializeMap for &'a mut Walk {
    type Ok = ();
    type Error = dump::Never;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, _: &T) -> R { Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, t: &T) -> R { t.serialize(&mut **self) }
    fn end(self) -> R { self.finish() }
}
fn field<T: ?Sized + Serialize>(w: &mut Walk, k: &'static str, t: &T) -> R {
    if k == "arguments_span" {
        return Ok(());
    }
    w.span = k == "span";
    let r = t.serialize(&mut *w);
    w.span = false;
    r
}
impl<'a> SerializeStruct for &'a mut Walk {
    type Ok = ();
    type Error = dump::Never;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, t: &T) -> R { field(self, k, t) }
    fn end(self) -> R { self.finish() }
}
impl<'a> SerializeStructVariant for &'a mut Walk {
    type Ok = ();
    type Error = dump::Never;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, t: &T) -> R { field(self, k, t) }
    fn end(self) -> R { self.finish() }
}

/// the nodes of a tree as text, independent of the order in which children are visited
fn canonical(n: &[N], k: usize) -> Vec<u8> {
    let mut kids = vec![];
    let mut j = k + 1;
    while j < n[k].last {
        kids.push(canonical(n, j));
        j = n[j].last;
    }
    kids.sort();
    let mut v = n[k].name.as_bytes().to_vec();
    v.extend_from_slice(&(n[k].span.0 as u32).to_le_bytes());
    v.extend_from_slice(&(n[k].span.1 as u32).to_le_bytes());
    v.push(b'(');
    for x in kids {
        v.extend_from_slice(&x);
    }
    v.push(b')');
    v
}
/// every position is entered at or after the one before
fn in_order(n: &[N]) -> bool {
    let mut at = 0;
    for x in n {
        if x.span.0 != NO {
            if x.span.0 < at {
                return false;
            }
            at = x.span.0;
        }
    }
    true
}
fn traverse(src: &str, m: u32) {
    let mut p = match parse(src, m & MODULE != 0) {
        Ok(p) => p,
        Err(_) => {
            cover(2);
            return;
        }
    };
    cover(1);
    let mut w = Walk { nodes: Vec::with_capacity(64), open: Vec::with_capacity(32), span: false };
    let _ = p.serialize(&mut w);
    let mut r = Rec::new(NO);
    p.traverse(&mut r);
    notef!("nodes: {:?}", w.nodes);
    notef!("visited: {:?}", r.nodes);
    out(r.nodes.len() as u64);
    check(r.nested && r.open.is_empty(), 50);
    check(w.nodes.len() == r.nodes.len(), 51);
    check(canonical(&w.nodes, 0) == canonical(&r.nodes, 0), 52);
    check(in_order(&r.nodes), 53);
    let mut t = fajt_ast::traverse::TraceVisitor::new();
    p.traverse(&mut t);
    check(t.visits == r.calls, 56);
    // leaving out what is inside one node leaves out exactly that
    let k = choice(40) as usize;
    if k >= r.nodes.len() {
        return;
    }
    let mut s = Rec::new(k);
    p.traverse(&mut s);
    notef!("visited without the inside of {}: {:?}", k, s.nodes);
    check(s.nested && s.open.is_empty(), 54);
    let gone = r.nodes[k].last - k - 1;
    let mut want = vec![];
    for (i, n) in r.nodes.iter().enumerate() {
        if i <= k || i > k + gone {
            let mut n = n.clone();
            if n.last > k + gone {
                n.last -= gone;
            }
            want.push(n);
        }
    }
    check(want == s.nodes, 55);
    cover(3);
}
/// the span an enum says it has is that of the node in it
fn spanned(src: &str, m: u32) {
    let mut p = match parse(src, m & MODULE != 0) {
        Ok(p) => p,
        Err(_) => {
            cover(2);
            return;
        }
    };
    cover(1);
    let mut r = Rec::new(NO);
    p.traverse(&mut r);
    notef!("nodes: {:?}", r.nodes);
    out(r.nodes.len() as u64);
    check(r.spanned, 57);
}
fn serde(src: &str, m: u32) {
    let p = match parse(src, m & MODULE != 0) {
        Ok(p) => p,
        Err(_) => {
            cover(2);
            return;
        }
    };
    cover(1);
    let t = match serde_json::to_string(&p) {
        Ok(t) => t,
        Err(_) => fail(60),
    };
    notef!("json: {}", t);
    out(t.len() as u64);
    match serde_json::from_str::<Program>(&t) {
        Ok(q) => {
            notef!("read back: {:?}", q);
            check(p == q, 62);
            check(dump::shape(&p) == dump::shape(&q), 63);
        }
        Err(e) => {
            notef!("error: {:?}", e);
            // serde_json itself reads no text nested more than 127 deep
            if e.to_string().starts_with("recursion limit exceeded") {
                cover(3);
                return;
            }
            fail(61)
        }
    }
}
/// leaves out the empty statements of blocks, bodies and programs, which minified code need not contain
struct NoEmpty;
fn filled(s: &Stmt) -> bool {
    !matches!(s, Stmt::Empty(_))
}
impl Visitor for NoEmpty {
    fn enter_stmt_list(&mut self, n: &mut StmtList<Stmt>) -> bool {
        n.body.retain(filled);
        true
    }
    fn enter_block_stmt(&mut self, n: &mut StmtBlock) -> bool {
        n.statements.retain(filled);
        true
    }
    fn enter_body(&mut self, n: &mut Body) -> bool {
        n.statements.retain(filled);
        true
    }
    fn enter_switch_case(&mut self, n: &mut SwitchCase) -> bool {
        n.consequent.retain(filled);
        true
    }
}
/// the code generated for a tree reads back as that tree
fn print(src: &str, m: u32) {
    let module = m & MODULE != 0;
    let mut p = match parse(src, module) {
        Ok(p) => p,
        Err(_) => {
            cover(2);
            return;
        }
    };
    cover(1);
    let minified = choice(2) == 1;
    let mut c = fajt_codegen::GeneratorContext::new();
    c.minified = minified;
    let before = dump::shape(&p);
    let code = fajt_codegen::generate_code(&mut p, c);
    notef!("{} code: {:?}", if minified { "minified" } else { "pretty" }, code);
    out(code.len() as u64);
    check(before == dump::shape(&p), 70);
    let mut q = match parse(&code, module) {
        Ok(q) => q,
        Err(e) => {
            notef!("error: {:?}", e);
            if inherits_marks(src, module) {
                return;
            }
            fail(71)
        }
    };
    if minified {
        p.traverse(&mut NoEmpty);
        q.traverse(&mut NoEmpty);
    }
    notef!("tree:  {:?}", p);
    notef!("again: {:?}", q);
    if dump::shape(&p) != dump::shape(&q) {
        if inherits_marks(src, module) {
            return;
        }
        fail(72)
    }
    if !minified {
        check(fajt_codegen::generate_code(&mut q, fajt_codegen::GeneratorContext::new()) == code, 73);
    }
}
/// whether a method has the marks of the function around it (a recorded finding), so that the tree says what the text does not
fn inherits_marks(src: &str, module: bool) -> bool {
    let wrong = crate::rparse::program(src, module, 0).2 & crate::rparse::Q_METHOD != 0;
    if wrong {
        known(12);
    }
    wrong
}
/// the expression a text is when it stands in parentheses
fn in_parentheses(src: &str, module: bool) -> Option<Expr> {
    let mut text = String::with_capacity(src.len() + 3);
    text.push('(');
    text.push_str(src);
    text.push_str("\n)");
    let mut l = match parse(&text, module) {
        Ok(Program::Script(l)) | Ok(Program::Module(l)) => l,
        Err(_) => return None,
    };
    match l.body.pop() {
        Some(Stmt::Expr(e)) if l.body.is_empty() => match *e.expr {
            Expr::Parenthesized(p) if p.span.end == text.len() => Some(*p.expression),
            _ => None,
        },
        _ => None,
    }
}
/// what is read as an expression is the one it is in parentheses, and what is one there is read
fn alone(src: &str, module: bool, e: Option<Expr>) {
    let whole = in_parentheses(src, module);
    let part = match e {
        Some(e) => {
            notef!("expression: {:?}", e);
            let end = e.span().end;
            if end > src.len() || !src.is_char_boundary(end) {
                return;
            }
            let part = in_parentheses(&src[..end], module);
            notef!("in parentheses: {:?}", part);
            match &part {
                Some(p) => check(dump::shape(p) == dump::shape(&e), 87),
                None => fail(86),
            }
            part
        }
        None => None,
    };
    if let Some(w) = whole {
        match part {
            Some(p) => check(dump::shape(&p) == dump::shape(&w), 89),
            None => fail(88),
        }
    }
}
/// reading only one statement or expression gives what the program starts with
fn entry(src: &str, m: u32) {
    let module = m & MODULE != 0;
    let ty = if module { SourceType::Module } else { SourceType::Script };
    let list = match parse(src, module) {
        Ok(Program::Script(l)) | Ok(Program::Module(l)) => l,
        Err(_) => {
            cover(2);
            // whatever the text, an answer is given
            let (s, e) = (fajt_parser::parse::<Stmt>(src, ty), fajt_parser::parse::<Expr>(src, ty));
            out(s.is_ok() as u64 * 2 + e.is_ok() as u64);
            // and what has been read is a program of its own
            if let Ok(s) = s {
                notef!("statement: {:?}", s);
                let end = s.span().end;
                if end <= src.len() && src.is_char_boundary(end) {
                    match parse(&src[..end], module) {
                        Ok(Program::Script(l)) | Ok(Program::Module(l)) => check(!l.directives.is_empty() || l.body.len() == 1 && l.body[0] == s, 85),
                        Err(_) => fail(84),
                    }
                }
            }
            alone(src, module, e.ok());
            return;
        }
    };
    cover(1);
    out(list.body.len() as u64);
    alone(src, module, fajt_parser::parse::<Expr>(src, ty).ok());
    if !list.directives.is_empty() || list.body.is_empty() {
        return;
    }
    let first = &list.body[0];
    notef!("first: {:?}", first);
    let s = fajt_parser::parse::<Stmt>(src, ty);
    notef!("statement: {:?}", s);
    match s {
        Ok(s) => check(&s == first, 81),
        Err(_) => fail(80),
    }
    if let Stmt::Expr(e) = first {
        let x = fajt_parser::parse::<Expr>(src, ty);
        notef!("expression: {:?}", x);
        match x {
            Ok(x) => check(&x == &*e.expr, 83),
            Err(_) => fail(82),
        }
    }
}
/// what is read as a span is two numbers, and a span is written as the text that reads back as it
fn span_text(src: &str) {
    let t = match serde_json::to_string(src) {
        Ok(t) => t,
        Err(_) => fail(60),
    };
    let b = src.as_bytes();
    let (mut n, mut any, mut parts, mut good) = ([0u64; 2], false, 0, true);
    for k in 0..=b.len() {
        if k == b.len() || b[k] == b':' {
            good &= any;
            any = false;
            parts += 1;
            good &= parts < 3;
        } else if parts > 1 {
            good = false;
        } else if b[k].is_ascii_digit() {
            match n[parts].checked_mul(10).and_then(|x| x.checked_add((b[k] - b'0') as u64)) {
                Some(x) => n[parts] = x,
                None => good = false,
            }
            any = true;
        } else if !(b[k] == b'+' && (k == 0 || b[k - 1] == b':')) {
            good = false;
        }
    }
    good &= parts == 2;
    let r = serde_json::from_str::<Span>(&t);
    notef!("span: {:?}", r);
    match r {
        Ok(s) => {
            check(good, 64);
            check(s.start as u64 == n[0] && s.end as u64 == n[1], 65);
            let t = serde_json::to_string(&s);
            let back = t.ok().and_then(|t| serde_json::from_str::<Span>(&t).ok());
            check(back == Some(s), 66);
            cover(1);
        }
        Err(_) => {
            check(!good, 67);
            cover(2);
        }
    }
}
pub fn run(j: &Job, src: &str) {
    match (j.mode >> 8) & 255 {
        3 => traverse(src, j.mode),
        4 => serde(src, j.mode),
        5 => span_text(src),
        6 => print(src, j.mode),
        7 => entry(src, j.mode),
        8 => spanned(src, j.mode),
        _ => fail(9),
    }
}
