//! Independent reference parser for the language fajt accepts (ES2020 without BigInt, class fields and Annex B
//! function-in-if), written from ECMA-262 clauses 13-16 as plain recursive descent with backtracking. It builds
//! fajt's own AST types so that results compare with `==`.
use crate::rlex::*;
use fajt_ast::*;

pub type R<X> = Result<X, ()>;

macro_rules! words {
    ($($v:ident $s:expr),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Debug)]
        pub enum W { No, Ident, $($v),* }
        fn classify(s: &str) -> W {
            $( if s.len() == $s.len() && s == $s { return W::$v; } )*
            W::Ident
        }
    };
}
words! {
    As "as", Async "async", Await "await", Break "break", Case "case", Catch "catch", Class "class", Const "const",
    Continue "continue", Debugger "debugger", Default "default", Delete "delete", Do "do", Else "else", Enum "enum",
    Export "export", Extends "extends", False "false", Finally "finally", For "for", From "from",
    Function "function", Get "get", If "if", Implements "implements", Import "import", In "in",
    Instanceof "instanceof", Interface "interface", Let "let", New "new", Null "null", Of "of", Package "package",
    Private "private", Protected "protected", Public "public", Return "return", Set "set", Static "static",
    Super "super", Switch "switch", Target "target", This "this", Throw "throw", True "true", Try "try",
    Typeof "typeof", Var "var", Void "void", While "while", With "with", Yield "yield",
}

#[derive(Clone, Copy, Default)]
pub struct Cx {
    pub yield_: bool,
    pub await_: bool,
    pub in_: bool,
    pub ret: bool,
    pub strict: bool,
    pub sprop: bool,
    pub scall: bool,
    pub module: bool,
    /// inside the parameters of a generator or async method or an async arrow: yield / await there are outside the claim
    pub params: bool,
    /// finding Q_METHOD: the parameters do not inherit yield
    pub quirk_params: bool,
    /// super inside a computed class or object key: outside the claim
    pub key: bool,
}

#[derive(Clone)]
struct Save<'a> {
    lx: Lx<'a>,
    cur: T,
    w: W,
    pend: usize,
    dc: bool,
}
pub struct Px<'a> {
    lx: Lx<'a>,
    cur: T,
    w: W,
    /// end of the last consumed token, as fajt reports it
    pend: usize,
    /// the input is outside the claimed language fragment
    pub dc: bool,
    /// follow fajt in the recorded findings named by these bits
    quirks: u32,
    /// recorded findings this input could meet
    pub met: u32,
    cx: Cx,
}

/// `**` parsed as left associative
pub const Q_POWER: u32 = 1;
/// methods, getters and setters inherit yield / await (and the generator / async marks) of the enclosing function
pub const Q_METHOD: u32 = 2;
/// a comma after an element of an array assignment pattern is also recorded as an elision
pub const Q_ELISION: u32 = 4;
/// the rest target of an object assignment pattern can itself be a pattern
pub const Q_OBJREST: u32 = 8;

fn sp(a: usize, b: usize) -> Span {
    Span { start: a, end: b }
}

/// Ok / Err(()) for reject; the flag is set when the input is outside the claim; the findings this input could meet
pub fn program(src: &str, module: bool, quirks: u32) -> (R<Program>, bool, u32) {
    let lx = Lx::new(src, !module);
    let cur = T { k: K::Eof, start: 0, end: 0, fend: 0, nl: false, cooked: None, lenient: false };
    let mut p = Px { lx, cur, w: W::No, pend: 0, dc: false, quirks, met: 0, cx: Cx { module, strict: module, ..Cx::default() } };
    let r = p.program();
    let dc = p.dc || p.lx.dontcare;
    (r, dc, p.met)
}

impl<'a> Px<'a> {
    // ---- tokens ----
    fn save(&self) -> Save<'a> {
        Save { lx: self.lx.clone(), cur: self.cur.clone(), w: self.w, pend: self.pend, dc: self.dc }
    }
    fn restore(&mut self, s: Save<'a>) {
        self.lx = s.lx;
        self.cur = s.cur;
        self.w = s.w;
        self.pend = s.pend;
        self.dc = s.dc;
    }
    fn set(&mut self, t: T) {
        self.w = match &t.k {
            K::Word(s, esc) => {
                let w = classify(s);
                if *esc && w != W::Ident {
                    self.dc = true;
                }
                w
            }
            _ => W::No,
        };
        if t.lenient {
            self.dc = true;
        }
        self.cur = t;
    }
    /// reads the first / next token
    fn read(&mut self) -> R<()> {
        let t = self.lx.next(Goal::Div)?;
        self.set(t);
        Ok(())
    }
    fn adv(&mut self) -> R<T> {
        if self.cur.k == K::Eof {
            return Err(());
        }
        self.pend = self.cur.fend;
        let t = self.lx.next(Goal::Div)?;
        let old = std::mem::replace(&mut self.cur, T { k: K::Eof, start: 0, end: 0, fend: 0, nl: false, cooked: None, lenient: false });
        self.set(t);
        Ok(old)
    }
    /// next token after the current one
    fn peek(&self) -> Option<(T, W)> {
        let mut l = self.lx.clone();
        match l.next(Goal::Div) {
            Ok(t) => {
                let w = match &t.k {
                    K::Word(s, _) => classify(s),
                    _ => W::No,
                };
                Some((t, w))
            }
            Err(()) => None,
        }
    }
    fn reread(&mut self, goal: Goal) -> R<()> {
        let nl = self.cur.nl;
        self.lx.pos = self.cur.start;
        let mut t = self.lx.next(goal)?;
        t.nl = nl;
        self.set(t);
        Ok(())
    }
    fn eof(&self) -> bool {
        matches!(self.cur.k, K::Eof)
    }
    fn p(&self, s: &str) -> bool {
        is_p(&self.cur, s)
    }
    fn kw(&self, w: W) -> bool {
        self.w == w
    }
    fn eat(&mut self, s: &str) -> R<bool> {
        if self.p(s) {
            self.adv()?;
            Ok(true)
        } else {
            Ok(false)
        }
    }
    fn want(&mut self, s: &str) -> R<()> {
        if self.eat(s)? { Ok(()) } else { Err(()) }
    }
    fn eatw(&mut self, w: W) -> R<bool> {
        if self.kw(w) {
            self.adv()?;
            Ok(true)
        } else {
            Ok(false)
        }
    }
    fn wantw(&mut self, w: W) -> R<()> {
        if self.eatw(w)? { Ok(()) } else { Err(()) }
    }
    fn pos(&self) -> usize {
        if self.eof() { self.pend } else { self.cur.start }
    }
    fn from(&self, start: usize) -> Span {
        sp(start, self.pend)
    }
    fn with<X>(&mut self, cx: Cx, f: impl FnOnce(&mut Self) -> X) -> X {
        let old = std::mem::replace(&mut self.cx, cx);
        let r = f(self);
        self.cx = old;
        r
    }
    fn with_in<X>(&mut self, f: impl FnOnce(&mut Self) -> X) -> X {
        let cx = Cx { in_: true, ..self.cx };
        self.with(cx, f)
    }
    fn no_in<X>(&mut self, f: impl FnOnce(&mut Self) -> X) -> X {
        let cx = Cx { in_: false, ..self.cx };
        self.with(cx, f)
    }

    // ---- identifiers ----
    /// whether the word can be an identifier here
    fn ident_word(&self, w: W) -> bool {
        match w {
            W::No => false,
            W::Ident | W::As | W::Async | W::From | W::Get | W::Of | W::Set | W::Target => true,
            W::Implements | W::Interface | W::Let | W::Package | W::Private | W::Protected | W::Public | W::Static => !self.cx.strict,
            W::Yield => !self.cx.strict && !self.cx.yield_,
            W::Await => !self.cx.await_,
            _ => false,
        }
    }
    fn is_ident(&self) -> bool {
        self.ident_word(self.w)
    }
    fn outside(&mut self) {
        if (self.w == W::Await && (self.cx.module || self.cx.params)) || (self.w == W::Yield && self.cx.params) {
            self.dc = true;
        }
    }
    fn ident(&mut self) -> R<Ident> {
        self.outside();
        if !self.is_ident() {
            return Err(());
        }
        self.name()
    }
    /// IdentifierName
    fn name(&mut self) -> R<Ident> {
        if self.w == W::No {
            return Err(());
        }
        let t = self.adv()?;
        match t.k {
            K::Word(s, _) => Ok(Ident { span: sp(t.start, t.fend), name: s }),
            _ => Err(()),
        }
    }

    // ---- program ----
    fn program(&mut self) -> R<Program> {
        self.read()?;
        let start = self.pos();
        let directives = self.directives()?;
        let strict = self.cx.strict || has_strict(&directives);
        let cx = Cx { strict, ..self.cx };
        let body = self.with(cx, |p| {
            let mut v = vec![];
            while !p.eof() {
                v.push(p.item(true)?);
            }
            Ok(v)
        })?;
        let l = StmtList { span: self.from(start), directives, body };
        Ok(if self.cx.module { Program::Module(l) } else { Program::Script(l) })
    }
    fn directives(&mut self) -> R<Vec<LitString>> {
        let mut v = vec![];
        loop {
            let (raw, is_use_strict) = match &self.cur.k {
                K::Str(s, _) => (self.cur.end - self.cur.start, s == "use strict"),
                _ => return Ok(v),
            };
            let s = self.save();
            match self.item(false)? {
                Stmt::Expr(StmtExpr { expr, .. }) => match *expr {
                    Expr::Literal(ExprLiteral { literal: Literal::String(l), .. }) => {
                        if is_use_strict && raw != 12 {
                            self.dc = true; // "use strict" with an escape: known finding 2
                        }
                        v.push(l);
                    }
                    _ => {
                        self.restore(s);
                        return Ok(v);
                    }
                },
                _ => return Err(()),
            }
        }
    }

    // ---- statements ----
    /// StatementListItem / ModuleItem
    fn item(&mut self, top: bool) -> R<Stmt> {
        match self.w {
            W::Function => return self.function_decl(false, false),
            W::Async => {
                if let Some((t, W::Function)) = self.peek() {
                    if !t.nl {
                        return self.function_decl(true, false);
                    }
                }
            }
            W::Class => return self.class_decl(false),
            W::Const => return self.variable(VariableKind::Const),
            W::Let => {
                if self.let_binds() {
                    return self.variable(VariableKind::Let);
                }
            }
            W::Import => {
                let call = match self.peek() {
                    Some((t, _)) => is_p(&t, "(") || is_p(&t, "."),
                    None => false,
                };
                if !call {
                    if !self.cx.module || !top {
                        return Err(());
                    }
                    return self.import();
                }
            }
            W::Export => {
                if !self.cx.module || !top {
                    return Err(());
                }
                return self.export();
            }
            _ => {}
        }
        self.stmt()
    }
    fn let_binds(&mut self) -> bool {
        match self.peek() {
            Some((t, w)) => {
                if w == W::Await && (self.cx.module || self.cx.params) {
                    self.dc = true;
                }
                is_p(&t, "[") || is_p(&t, "{") || self.ident_word(w)
            }
            None => false,
        }
    }
    fn semi(&mut self) -> R<()> {
        if self.eat(";")? || self.can_insert() { Ok(()) } else { Err(()) }
    }
    fn can_insert(&self) -> bool {
        self.eof() || self.p("}") || self.cur.nl
    }
    fn expr_in(&mut self) -> R<Expr> {
        self.with_in(|p| p.expr())
    }
    fn paren_expr(&mut self) -> R<Box<Expr>> {
        self.want("(")?;
        let e = self.expr_in()?;
        self.want(")")?;
        Ok(Box::new(e))
    }
    fn boxed_stmt(&mut self) -> R<Box<Stmt>> {
        Ok(Box::new(self.stmt()?))
    }
    fn stmt(&mut self) -> R<Stmt> {
        let start = self.pos();
        match self.w {
            W::Var => return self.variable(VariableKind::Var),
            W::If => {
                self.adv()?;
                let condition = self.paren_expr()?;
                let consequent = self.boxed_stmt()?;
                let alternate = if self.eatw(W::Else)? { Some(self.boxed_stmt()?) } else { None };
                return Ok(StmtIf { span: self.from(start), condition, consequent, alternate }.into());
            }
            W::Break | W::Continue => {
                let br = self.kw(W::Break);
                self.adv()?;
                let label = if self.p(";") || self.can_insert() { None } else { Some(self.ident()?) };
                self.semi()?;
                let span = self.from(start);
                return Ok(if br { StmtBreak { span, label }.into() } else { StmtContinue { span, label }.into() });
            }
            W::Return => {
                self.adv()?;
                if !self.cx.ret {
                    return Err(());
                }
                let argument = if self.p(";") || self.can_insert() { None } else { Some(Box::new(self.expr_in()?)) };
                self.semi()?;
                return Ok(StmtReturn { span: self.from(start), argument }.into());
            }
            W::With => {
                if self.cx.strict {
                    return Err(());
                }
                self.adv()?;
                let object = self.paren_expr()?;
                let body = self.boxed_stmt()?;
                return Ok(StmtWith { span: self.from(start), object, body }.into());
            }
            W::Throw => {
                self.adv()?;
                if self.cur.nl {
                    return Err(());
                }
                let argument = Box::new(self.expr_in()?);
                self.semi()?;
                return Ok(StmtThrow { span: self.from(start), argument }.into());
            }
            W::Try => return self.try_stmt(),
            W::Debugger => {
                self.adv()?;
                self.semi()?;
                return Ok(StmtDebugger { span: self.from(start) }.into());
            }
            W::Do => {
                self.adv()?;
                let body = self.boxed_stmt()?;
                self.wantw(W::While)?;
                let test = self.paren_expr()?;
                self.eat(";")?;
                return Ok(StmtDoWhile { span: self.from(start), body, test }.into());
            }
            W::While => {
                self.adv()?;
                let test = self.paren_expr()?;
                let body = self.boxed_stmt()?;
                return Ok(StmtWhile { span: self.from(start), test, body }.into());
            }
            W::For => return self.for_stmt(),
            W::Switch => return self.switch(),
            W::No => {
                if self.p(";") {
                    self.adv()?;
                    return Ok(StmtEmpty { span: self.from(start) }.into());
                }
                if self.p("{") {
                    return Ok(self.block()?.into());
                }
            }
            W::Function | W::Class => return Err(()),
            W::Let => {
                if let Some((t, _)) = self.peek() {
                    if is_p(&t, "[") {
                        return Err(());
                    }
                }
            }
            W::Async => {
                if let Some((t, W::Function)) = self.peek() {
                    if !t.nl {
                        return Err(());
                    }
                }
            }
            _ => {}
        }
        if self.is_ident() {
            if let Some((t, _)) = self.peek() {
                if is_p(&t, ":") {
                    let label = self.ident()?;
                    self.adv()?;
                    let body = self.boxed_stmt()?;
                    return Ok(StmtLabeled { span: self.from(start), label, body }.into());
                }
            }
        }
        let expr = Box::new(self.expr_in()?);
        self.semi()?;
        Ok(StmtExpr { span: self.from(start), expr }.into())
    }
    fn block(&mut self) -> R<StmtBlock> {
        let start = self.pos();
        self.want("{")?;
        let mut statements = vec![];
        while !self.p("}") {
            statements.push(self.item(false)?);
        }
        self.adv()?;
        Ok(StmtBlock { span: self.from(start), statements })
    }
    fn try_stmt(&mut self) -> R<Stmt> {
        let start = self.pos();
        self.adv()?;
        let block = self.block()?;
        let cstart = self.pos();
        let handler = if self.eatw(W::Catch)? {
            let parameter = if self.eat("(")? {
                let b = self.binding()?;
                self.want(")")?;
                Some(b)
            } else {
                None
            };
            let body = self.block()?;
            Some(Box::new(CatchClause { span: self.from(cstart), parameter, body }))
        } else {
            None
        };
        let finalizer = if self.eatw(W::Finally)? { Some(self.block()?) } else { None };
        if handler.is_none() && finalizer.is_none() {
            return Err(());
        }
        Ok(StmtTry { span: self.from(start), block, handler, finalizer }.into())
    }
    fn switch(&mut self) -> R<Stmt> {
        let start = self.pos();
        self.adv()?;
        let discriminant = self.paren_expr()?;
        self.want("{")?;
        let mut cases = vec![];
        let mut has_default = false;
        while !self.p("}") {
            let cstart = self.pos();
            let test = if self.eatw(W::Case)? {
                Some(self.expr_in()?)
            } else {
                self.wantw(W::Default)?;
                if has_default {
                    return Err(());
                }
                has_default = true;
                None
            };
            self.want(":")?;
            let mut consequent = vec![];
            while !(self.p("}") || self.kw(W::Case) || self.kw(W::Default)) {
                consequent.push(self.item(false)?);
            }
            cases.push(SwitchCase { span: self.from(cstart), test, consequent });
        }
        self.adv()?;
        Ok(StmtSwitch { span: self.from(start), discriminant, cases }.into())
    }
    fn variable(&mut self, kind: VariableKind) -> R<Stmt> {
        let start = self.pos();
        self.adv()?;
        let declarations = self.with_in(|p| p.declarators())?;
        self.semi()?;
        Ok(StmtVariable { span: self.from(start), kind, declarations }.into())
    }
    fn declarators(&mut self) -> R<Vec<VariableDeclaration>> {
        let mut v = vec![];
        loop {
            let start = self.pos();
            let pattern = self.binding()?;
            let initializer = if self.eat("=")? { Some(self.assign()?) } else { None };
            if initializer.is_none() && !matches!(pattern, BindingPattern::Ident(_)) {
                return Err(());
            }
            v.push(VariableDeclaration { span: self.from(start), pattern, initializer });
            if !self.eat(",")? {
                return Ok(v);
            }
        }
    }
    fn for_stmt(&mut self) -> R<Stmt> {
        let start = self.pos();
        self.adv()?;
        self.outside();
        let asynchronous = self.cx.await_ && self.eatw(W::Await)?;
        self.want("(")?;
        let mut init = None;
        if !self.p(";") {
            let istart = self.pos();
            let lexical = self.kw(W::Let) && self.let_binds();
            let kind = match self.w {
                W::Var => Some(VariableKind::Var),
                W::Const => Some(VariableKind::Const),
                W::Let if lexical => Some(VariableKind::Let),
                _ => None,
            };
            if let Some(kind) = kind {
                self.adv()?;
                let s = self.save();
                let binding = self.binding()?;
                if self.kw(W::Of) || self.kw(W::In) {
                    let span = self.from(istart);
                    return self.for_in_of(start, ForDeclaration::Declaration(ForBinding { span, kind, binding }), asynchronous);
                }
                self.restore(s);
                let declarations = self.no_in(|p| p.declarators())?;
                init = Some(ForInit::Declaration(StmtVariable { span: self.from(istart), kind, declarations }));
            } else {
                let is_let = self.kw(W::Let);
                let is_async = self.kw(W::Async);
                let s = self.save();
                if self.p("[") || self.p("{") {
                    if let Ok(a) = self.pattern() {
                        if self.kw(W::Of) || self.kw(W::In) {
                            return self.for_in_of(start, ForDeclaration::AssignmentPattern(a), asynchronous);
                        }
                    }
                    self.restore(s.clone());
                }
                if let Ok(e) = self.no_in(|p| p.lhs()) {
                    if self.kw(W::Of) || self.kw(W::In) {
                        if is_async && self.kw(W::Of) {
                            self.dc = true;
                        }
                        if is_let && self.kw(W::Of) {
                            return Err(());
                        }
                        if !self.simple(&e) {
                            return Err(());
                        }
                        return self.for_in_of(start, ForDeclaration::Expr(Box::new(e)), asynchronous);
                    }
                }
                self.restore(s);
                init = Some(ForInit::Expr(Box::new(self.no_in(|p| p.expr())?)));
            }
        }
        self.want(";")?;
        if asynchronous {
            return Err(());
        }
        let test = if self.p(";") { None } else { Some(Box::new(self.expr_in()?)) };
        self.want(";")?;
        let update = if self.p(")") { None } else { Some(Box::new(self.expr_in()?)) };
        self.want(")")?;
        let body = self.boxed_stmt()?;
        Ok(StmtFor { span: self.from(start), init, test, update, body }.into())
    }
    fn for_in_of(&mut self, start: usize, left: ForDeclaration, asynchronous: bool) -> R<Stmt> {
        let of = self.kw(W::Of);
        self.adv()?;
        if !of && asynchronous {
            return Err(());
        }
        let right = Box::new(if of { self.with_in(|p| p.assign())? } else { self.expr_in()? });
        self.want(")")?;
        let body = self.boxed_stmt()?;
        let span = self.from(start);
        Ok(if of { StmtForOf { span, left, right, body, asynchronous }.into() } else { StmtForIn { span, left, right, body }.into() })
    }

    // ---- functions and classes ----
    fn function_decl(&mut self, asynchronous: bool, default: bool) -> R<Stmt> {
        let start = self.pos();
        if asynchronous {
            self.adv()?;
        }
        self.adv()?;
        let generator = self.eat("*")?;
        let s = self.save();
        let identifier = if default && self.p("(") { Ident { span: sp(self.cur.start, self.cur.start), name: String::new() } } else { self.ident()? };
        let (parameters, body) = self.with(self.function_cx(generator, asynchronous), |p| p.function_rest())?;
        self.late_strict(s, &body, |p| if default && p.p("(") { Ok(()) } else { p.ident().map(|_| ()) }, generator, asynchronous);
        Ok(DeclFunction { span: self.from(start), asynchronous, generator, identifier, parameters, body }.into())
    }
    fn function_expr(&mut self, asynchronous: bool) -> R<Expr> {
        let start = self.pos();
        if asynchronous {
            self.adv()?;
        }
        self.adv()?;
        let generator = self.eat("*")?;
        let cx = self.function_cx(generator, asynchronous);
        let s = self.save();
        let (identifier, (parameters, body)) = self.with(cx, |p| {
            let id = if p.p("(") { None } else { Some(p.ident()?) };
            Ok((id, p.function_rest()?))
        })?;
        self.late_strict(s, &body, |p| if p.p("(") { Ok(()) } else { p.with(cx_strict(cx), |p| p.ident().map(|_| ())) }, generator, asynchronous);
        Ok(ExprFunction { span: self.from(start), asynchronous, generator, identifier, parameters, body }.into())
    }
    fn function_cx(&self, yield_: bool, await_: bool) -> Cx {
        Cx { yield_, await_, in_: true, ret: true, strict: self.cx.strict, module: self.cx.module, ..Cx::default() }
    }
    fn function_rest(&mut self) -> R<(FormalParameters, Body)> {
        let parameters = self.params_in_function()?;
        let body = self.body()?;
        if !simple_params(&parameters) && has_strict(&body.directives) {
            return Err(());
        }
        Ok((parameters, body))
    }
    fn params_in_function(&mut self) -> R<FormalParameters> {
        let mut cx = Cx { params: self.cx.sprop && (self.cx.yield_ || self.cx.await_), ..self.cx };
        if self.cx.quirk_params {
            cx = Cx { yield_: false, params: false, ..cx };
        }
        self.with(cx, |p| p.params())
    }
    /// a body that becomes strict by its own directive makes the name and parameters strict retroactively: outside
    /// the claim when that would change anything
    fn late_strict(&mut self, s: Save<'a>, body: &Body, name: impl FnOnce(&mut Self) -> R<()>, yield_: bool, await_: bool) {
        if self.cx.strict || !has_strict(&body.directives) {
            return;
        }
        let now = self.save();
        self.restore(s);
        let cx = cx_strict(self.cx);
        let ok = self.with(cx, |p| {
            name(p)?;
            let cx = p.function_cx(yield_, await_);
            p.with(cx, |p| p.params_in_function())
        });
        self.restore(now);
        if ok.is_err() {
            self.dc = true;
        }
    }
    /// ( FormalParameters )
    fn params(&mut self) -> R<FormalParameters> {
        let start = self.pos();
        self.want("(")?;
        let mut bindings = vec![];
        let mut rest = None;
        while !self.p(")") {
            if self.eat("...")? {
                rest = Some(Box::new(self.binding()?));
                if !self.p(")") {
                    return Err(());
                }
                break;
            }
            bindings.push(self.element()?);
            if !self.p(")") {
                self.want(",")?;
            }
        }
        self.adv()?;
        Ok(FormalParameters { span: self.from(start), bindings, rest })
    }
    /// { FunctionBody }
    fn body(&mut self) -> R<Body> {
        let start = self.pos();
        self.want("{")?;
        let cx = Cx { in_: true, ret: true, params: false, quirk_params: false, ..self.cx };
        let (directives, statements) = self.with(cx, |p| {
            let directives = p.directives()?;
            let cx = Cx { strict: p.cx.strict || has_strict(&directives), ..p.cx };
            let statements = p.with(cx, |p| {
                let mut v = vec![];
                while !p.p("}") {
                    v.push(p.item(false)?);
                }
                Ok(v)
            })?;
            Ok((directives, statements))
        })?;
        self.adv()?;
        Ok(Body { span: self.from(start), directives, statements })
    }
    fn class_decl(&mut self, default: bool) -> R<Stmt> {
        let start = self.pos();
        self.adv()?;
        let cx = cx_strict(self.cx);
        let (identifier, super_class, body) = self.with(cx, |p| {
            let id = if default && (p.p("{") || p.kw(W::Extends)) { Ident { span: sp(p.cur.start, p.cur.start), name: String::new() } } else { p.ident()? };
            let (s, b) = p.class_tail()?;
            Ok((id, s, b))
        })?;
        Ok(DeclClass { span: self.from(start), identifier, super_class, body }.into())
    }
    fn class_expr(&mut self) -> R<Expr> {
        let start = self.pos();
        self.adv()?;
        let cx = cx_strict(self.cx);
        let (identifier, super_class, body) = self.with(cx, |p| {
            let id = if p.p("{") || p.kw(W::Extends) { None } else { Some(p.ident()?) };
            let (s, b) = p.class_tail()?;
            Ok((id, s, b))
        })?;
        Ok(ExprClass { span: self.from(start), identifier, super_class, body }.into())
    }
    fn class_tail(&mut self) -> R<(Option<Box<Expr>>, Vec<ClassElement>)> {
        let super_class = if self.eatw(W::Extends)? { Some(Box::new(self.lhs()?)) } else { None };
        self.want("{")?;
        let mut body = vec![];
        while !self.p("}") {
            if self.eat(";")? {
                continue;
            }
            let mut is_static = false;
            if self.kw(W::Static) {
                match self.peek() {
                    Some((t, _)) if is_p(&t, "(") => {}
                    _ => {
                        self.adv()?;
                        is_static = true;
                    }
                }
            }
            let ctor = !is_static
                && match &self.cur.k {
                    K::Word(s, _) => s == "constructor",
                    K::Str(s, _) => s == "constructor",
                    _ => false,
                };
            let m = self.method(is_static, ctor && super_class.is_some())?;
            body.push(ClassElement::Method(m));
        }
        self.adv()?;
        Ok((super_class, body))
    }
    /// MethodDefinition; `scall`: super calls are allowed in it
    fn method(&mut self, is_static: bool, scall: bool) -> R<MethodDefinition> {
        let start = self.pos();
        let mut kind = MethodKind::Method;
        let mut generator = false;
        let mut asynchronous = false;
        let prefix = match self.w {
            W::Get | W::Set | W::Async => match self.peek() {
                Some((t, _)) => !is_p(&t, "("),
                None => true,
            },
            _ => false,
        };
        if prefix {
            match self.w {
                W::Get => kind = MethodKind::Get,
                W::Set => kind = MethodKind::Set,
                _ => asynchronous = true,
            }
            self.adv()?;
            if asynchronous && self.cur.nl {
                return Err(());
            }
        }
        if (asynchronous || !prefix) && self.eat("*")? {
            generator = true;
        }
        let name = self.property_name()?;
        self.method_rest(start, name, kind, generator, asynchronous, is_static, scall)
    }
    fn method_rest(&mut self, start: usize, name: PropertyName, kind: MethodKind, generator: bool, asynchronous: bool, is_static: bool, scall: bool) -> R<MethodDefinition> {
        let (mut generator, mut asynchronous) = (generator, asynchronous);
        let mut quirk_params = false;
        if !generator && !asynchronous && (self.cx.yield_ || self.cx.await_) {
            self.met |= Q_METHOD;
            if self.quirks & Q_METHOD != 0 {
                quirk_params = true;
                generator = self.cx.yield_;
                asynchronous = self.cx.await_;
            }
        }
        let cx = Cx { sprop: true, scall, quirk_params, ..self.function_cx(generator, asynchronous) };
        let s = self.save();
        let (parameters, body) = self.with(cx, |p| p.function_rest())?;
        self.late_strict(s, &body, |_| Ok(()), generator, asynchronous);
        match kind {
            MethodKind::Get => {
                if !parameters.bindings.is_empty() || parameters.rest.is_some() {
                    return Err(());
                }
            }
            MethodKind::Set => {
                if parameters.bindings.len() != 1 || parameters.rest.is_some() {
                    return Err(());
                }
            }
            MethodKind::Method => {}
        }
        let mut names = vec![];
        for b in &parameters.bindings {
            bound(&b.pattern, true, &mut names);
        }
        if let Some(r) = &parameters.rest {
            bound(r, true, &mut names);
        }
        for i in 0..names.len() {
            for j in 0..i {
                if names[i].0 == names[j].0 {
                    if names[i].1 && names[j].1 {
                        return Err(());
                    }
                    self.dc = true;
                }
            }
        }
        Ok(MethodDefinition { span: self.from(start), name, kind, parameters, body, generator, asynchronous, is_static })
    }
    fn property_name(&mut self) -> R<PropertyName> {
        match &self.cur.k {
            K::Str(..) => {
                let t = self.adv()?;
                match t.k {
                    K::Str(value, delimiter) => Ok(PropertyName::String(LitString { value, delimiter })),
                    _ => Err(()),
                }
            }
            K::Num(_) => {
                let t = self.adv()?;
                match t.k {
                    K::Num(raw) => Ok(PropertyName::Number(LitNumber { raw })),
                    _ => Err(()),
                }
            }
            K::Word(..) => Ok(PropertyName::Ident(self.name()?)),
            _ => {
                self.want("[")?;
                let cx = Cx { in_: true, key: true, ..self.cx };
                let e = self.with(cx, |p| p.assign())?;
                self.want("]")?;
                Ok(PropertyName::Computed(Box::new(e)))
            }
        }
    }

    // ---- binding patterns ----
    fn binding(&mut self) -> R<BindingPattern> {
        let start = self.pos();
        if self.eat("[")? {
            let mut elements = vec![];
            let mut rest = None;
            while !self.p("]") {
                if self.eat(",")? {
                    elements.push(None);
                } else if self.eat("...")? {
                    rest = Some(Box::new(self.binding()?));
                    if !self.p("]") {
                        return Err(());
                    }
                } else {
                    elements.push(Some(self.element()?));
                    if !self.p("]") {
                        self.want(",")?;
                    }
                }
            }
            self.adv()?;
            return Ok(BindingPattern::Array(ArrayBinding { span: self.from(start), elements, rest }));
        }
        if self.eat("{")? {
            let mut props = vec![];
            let mut rest = None;
            while !self.p("}") {
                let pstart = self.pos();
                if self.eat("...")? {
                    rest = Some(Box::new(self.binding()?));
                    if !self.p("}") {
                        return Err(());
                    }
                    break;
                }
                if self.named_next() {
                    let property = self.property_name()?;
                    self.want(":")?;
                    let binding = self.element()?;
                    props.push(ObjectBindingProp::Named(NamedBinding { span: self.from(pstart), property, binding }));
                } else {
                    let ident = self.bound()?;
                    let initializer = self.init()?;
                    props.push(ObjectBindingProp::Single(SingleNameBinding { span: self.from(pstart), ident, initializer }));
                }
                if !self.p("}") {
                    self.want(",")?;
                }
            }
            self.adv()?;
            return Ok(BindingPattern::Object(ObjectBinding { span: self.from(start), props, rest }));
        }
        Ok(BindingPattern::Ident(self.bound()?))
    }
    /// BindingIdentifier; whether `eval` and `arguments` are rejected in strict mode is not decided
    fn bound(&mut self) -> R<Ident> {
        let i = self.ident()?;
        if self.cx.strict && (i.name == "eval" || i.name == "arguments") {
            self.dc = true;
        }
        Ok(i)
    }
    fn named_next(&self) -> bool {
        if self.p("[") {
            return true;
        }
        match self.peek() {
            Some((t, _)) => is_p(&t, ":"),
            None => false,
        }
    }
    fn init(&mut self) -> R<Option<Box<Expr>>> {
        Ok(if self.eat("=")? { Some(Box::new(self.with_in(|p| p.assign())?)) } else { None })
    }
    fn element(&mut self) -> R<BindingElement> {
        let start = self.pos();
        let pattern = self.binding()?;
        let initializer = self.init()?;
        Ok(BindingElement { span: self.from(start), pattern, initializer })
    }

    // ---- assignment patterns ----
    fn pattern(&mut self) -> R<AssignmentPattern> {
        let start = self.pos();
        if self.eat("[")? {
            let mut elements = vec![];
            let mut rest = None;
            while !self.p("]") {
                if self.eat(",")? {
                    elements.push(None);
                } else if self.eat("...")? {
                    rest = Some(Box::new(self.target(true)?));
                    if !self.p("]") {
                        return Err(());
                    }
                } else {
                    let estart = self.pos();
                    let target = Box::new(self.target(true)?);
                    let initializer = self.init()?;
                    elements.push(Some(AssignmentElement { span: self.from(estart), target, initializer }));
                    if self.p(",") {
                        self.met |= Q_ELISION;
                        if self.quirks & Q_ELISION == 0 {
                            self.adv()?;
                        }
                    } else if !self.p("]") {
                        return Err(());
                    }
                }
            }
            self.adv()?;
            return Ok(AssignmentPattern::Array(ArrayAssignmentPattern { span: self.from(start), elements, rest }));
        }
        self.want("{")?;
        let mut props = vec![];
        let mut rest = None;
        while !self.p("}") {
            let pstart = self.pos();
            if self.eat("...")? {
                rest = Some(Box::new(self.target(false)?));
                if !self.p("}") {
                    return Err(());
                }
                break;
            }
            if self.named_next() {
                let name = self.property_name()?;
                self.want(":")?;
                let value = Box::new(self.target(true)?);
                let initializer = self.init()?;
                props.push(AssignmentProp::Named(NamedAssignmentProp { span: self.from(pstart), name, value, initializer }));
            } else {
                let ident = self.ident()?;
                let initializer = self.init()?;
                props.push(AssignmentProp::Single(SingleNameAssignmentProp { span: self.from(pstart), ident, initializer }));
            }
            if !self.p("}") {
                self.want(",")?;
            }
        }
        self.adv()?;
        Ok(AssignmentPattern::Object(ObjectAssignmentPattern { span: self.from(start), props, rest }))
    }
    fn target(&mut self, nested: bool) -> R<PatternOrExpr> {
        if self.p("[") || self.p("{") {
            let s = self.save();
            if let Ok(a) = self.pattern() {
                if !nested && self.p("}") {
                    self.met |= Q_OBJREST;
                }
                if !nested && self.quirks & Q_OBJREST == 0 {
                } else if self.p("=") || self.p(",") || self.p("]") || self.p("}") {
                    return Ok(PatternOrExpr::AssignmentPattern(a));
                }
            }
            self.restore(s);
        }
        let e = self.with_in(|p| p.lhs())?;
        if !self.simple(&e) {
            return Err(());
        }
        Ok(PatternOrExpr::Expr(e))
    }

    // ---- expressions ----
    fn simple(&self, e: &Expr) -> bool {
        match e {
            Expr::IdentRef(i) => !(self.cx.strict && (i.name == "eval" || i.name == "arguments")),
            Expr::Member(_) => true,
            Expr::Parenthesized(p) => self.simple(&p.expression),
            _ => false,
        }
    }
    fn expr(&mut self) -> R<Expr> {
        let start = self.pos();
        let first = self.assign()?;
        if !self.p(",") {
            return Ok(first);
        }
        let mut expr = vec![first];
        while self.eat(",")? {
            expr.push(self.assign()?);
        }
        Ok(ExprSequence { span: self.from(start), expr }.into())
    }
    fn assign(&mut self) -> R<Expr> {
        let start = self.pos();
        if self.w == W::Yield && self.cx.yield_ {
            return self.yield_expr();
        }
        if self.w == W::Async {
            if let Some((t, w)) = self.peek() {
                if !t.nl && (is_p(&t, "(") || self.ident_word(w) || w == W::Await) {
                    let s = self.save();
                    self.adv()?;
                    if let Some(e) = self.try_arrow(start, true)? {
                        return Ok(e);
                    }
                    self.restore(s);
                }
            }
        }
        if self.is_ident() {
            if let Some((t, _)) = self.peek() {
                if is_p(&t, "=>") {
                    return match self.try_arrow(start, false)? {
                        Some(e) => Ok(e),
                        None => Err(()),
                    };
                }
            }
        } else if self.p("(") {
            let s = self.save();
            if let Some(e) = self.try_arrow(start, false)? {
                return Ok(e);
            }
            self.restore(s);
        } else if self.p("[") || self.p("{") {
            let s = self.save();
            if let Ok(a) = self.pattern() {
                if self.eat("=")? {
                    let right = Box::new(self.assign()?);
                    return Ok(ExprAssignment { span: self.from(start), operator: AssignmentOperator::Assign, left: Box::new(PatternOrExpr::AssignmentPattern(a)), right }.into());
                }
            }
            self.restore(s);
        }
        let left = self.conditional()?;
        let operator = match &self.cur.k {
            K::Punct(p) => match *p {
                "=" => AssignmentOperator::Assign,
                "*=" => AssignmentOperator::Multiply,
                "**=" => AssignmentOperator::Power,
                "/=" => AssignmentOperator::Divide,
                "%=" => AssignmentOperator::Modulus,
                "+=" => AssignmentOperator::Add,
                "-=" => AssignmentOperator::Sub,
                "<<=" => AssignmentOperator::LeftShift,
                ">>=" => AssignmentOperator::RightShift,
                ">>>=" => AssignmentOperator::UnsignedRightShift,
                "&=" => AssignmentOperator::BitwiseAnd,
                "^=" => AssignmentOperator::BitwiseXOr,
                "|=" => AssignmentOperator::BitwiseOr,
                _ => return Ok(left),
            },
            _ => return Ok(left),
        };
        if !self.simple(&left) {
            return Err(());
        }
        self.adv()?;
        let right = Box::new(self.assign()?);
        Ok(ExprAssignment { span: self.from(start), operator, left: Box::new(PatternOrExpr::Expr(left)), right }.into())
    }
    /// Ok(None): not an arrow function (position undefined, caller restores)
    fn try_arrow(&mut self, start: usize, asynchronous: bool) -> R<Option<Expr>> {
        let s = self.save();
        let pcx = Cx { in_: true, await_: self.cx.await_ || asynchronous, params: self.cx.params || asynchronous, ..self.cx };
        let mut binding_parameter = false;
        let r = self.with(pcx, |p| {
            if p.p("(") {
                return p.params();
            }
            let id = p.ident()?;
            let span = id.span.clone();
            binding_parameter = true;
            Ok(FormalParameters { span: span.clone(), bindings: vec![BindingElement { span, pattern: BindingPattern::Ident(id), initializer: None }], rest: None })
        });
        let Ok(parameters) = r else { return Ok(None) };
        if !self.p("=>") {
            return Ok(None);
        }
        if self.cur.nl {
            return Err(());
        }
        self.adv()?;
        let cx = Cx { yield_: false, await_: asynchronous, params: false, ..self.cx };
        let body = self.with(cx, |p| {
            if p.p("{") {
                return Ok(ArrowFunctionBody::Body(p.body()?));
            }
            Ok(ArrowFunctionBody::Expr(Box::new(p.assign()?)))
        })?;
        if let ArrowFunctionBody::Body(b) = &body {
            if has_strict(&b.directives) {
                if !simple_params(&parameters) {
                    return Err(());
                }
                if !self.cx.strict {
                    let now = self.save();
                    self.restore(s);
                    let ok = self.with(cx_strict(pcx), |p| if binding_parameter { p.ident().map(|_| ()) } else { p.params().map(|_| ()) });
                    self.restore(now);
                    if ok.is_err() {
                        self.dc = true;
                    }
                }
            }
        }
        Ok(Some(ExprArrowFunction { span: self.from(start), asynchronous, binding_parameter, parameters, body }.into()))
    }
    fn yield_expr(&mut self) -> R<Expr> {
        let start = self.pos();
        self.outside();
        self.adv()?;
        let none = self.cur.nl
            || match &self.cur.k {
                K::Eof => true,
                K::Punct(p) => matches!(*p, ")" | "]" | "}" | "," | ";" | ":"),
                K::Word(..) => self.w == W::In,
                _ => false,
            };
        if none {
            return Ok(ExprYield { span: self.from(start), argument: None, delegate: false }.into());
        }
        let delegate = self.eat("*")?;
        let argument = Some(Box::new(self.assign()?));
        Ok(ExprYield { span: self.from(start), argument, delegate }.into())
    }
    fn conditional(&mut self) -> R<Expr> {
        let start = self.pos();
        let condition = self.short_circuit()?;
        if !self.eat("?")? {
            return Ok(condition);
        }
        let consequent = Box::new(self.with_in(|p| p.assign())?);
        self.want(":")?;
        let alternate = Box::new(self.assign()?);
        Ok(ExprConditional { span: self.from(start), condition: Box::new(condition), consequent, alternate }.into())
    }
    fn short_circuit(&mut self) -> R<Expr> {
        let start = self.pos();
        let e = self.binary(1)?;
        if !self.p("??") {
            return Ok(e);
        }
        // the operands of ?? are bitwise-or expressions
        let mut left = match e {
            Expr::Logical(_) => return Err(()),
            e => e,
        };
        while self.eat("??")? {
            let right = self.binary(3)?;
            left = ExprLogical { span: self.from(start), operator: LogicalOperator::Coalesce, left: Box::new(left), right: Box::new(right) }.into();
        }
        if self.p("||") || self.p("&&") {
            return Err(());
        }
        Ok(left)
    }
    /// precedence of the binary operator at the current token, 0 if none
    fn prec(&self) -> u8 {
        match &self.cur.k {
            K::Punct(p) => match *p {
                "||" => 1,
                "&&" => 2,
                "|" => 3,
                "^" => 4,
                "&" => 5,
                "==" | "!=" | "===" | "!==" => 6,
                "<" | ">" | "<=" | ">=" => 7,
                "<<" | ">>" | ">>>" => 8,
                "+" | "-" => 9,
                "*" | "/" | "%" => 10,
                _ => 0,
            },
            K::Word(..) => match self.w {
                W::Instanceof => 7,
                W::In if self.cx.in_ => 7,
                _ => 0,
            },
            _ => 0,
        }
    }
    fn binary(&mut self, level: u8) -> R<Expr> {
        if level == 11 {
            return self.power();
        }
        let start = self.pos();
        let mut left = self.binary(level + 1)?;
        while self.prec() == level {
            let t = self.adv()?;
            let right = Box::new(self.binary(level + 1)?);
            let span = self.from(start);
            left = match t.k {
                K::Punct("||") => ExprLogical { span, operator: LogicalOperator::Or, left: Box::new(left), right }.into(),
                K::Punct("&&") => ExprLogical { span, operator: LogicalOperator::And, left: Box::new(left), right }.into(),
                K::Punct(p) => ExprBinary { span, operator: binop(p), left: Box::new(left), right }.into(),
                K::Word(w, _) => ExprBinary { span, operator: if w == "in" { BinaryOperator::In } else { BinaryOperator::InstanceOf }, left: Box::new(left), right }.into(),
                _ => return Err(()),
            };
        }
        Ok(left)
    }
    fn power(&mut self) -> R<Expr> {
        let start = self.pos();
        let left = self.unary()?;
        if !self.p("**") {
            return Ok(left);
        }
        if matches!(left, Expr::Unary(_) | Expr::Await(_)) {
            return Err(());
        }
        if self.quirks & Q_POWER != 0 {
            let mut left = left;
            while self.eat("**")? {
                let right = Box::new(self.unary()?);
                if self.p("**") && matches!(&*right, Expr::Unary(_) | Expr::Await(_)) {
                    return Err(());
                }
                left = ExprBinary { span: self.from(start), operator: BinaryOperator::Exponent, left: Box::new(left), right }.into();
            }
            return Ok(left);
        }
        self.adv()?;
        let right = Box::new(self.power()?);
        if matches!(&*right, Expr::Binary(b) if b.operator == BinaryOperator::Exponent) {
            self.met |= Q_POWER;
        }
        Ok(ExprBinary { span: self.from(start), operator: BinaryOperator::Exponent, left: Box::new(left), right }.into())
    }
    fn unary(&mut self) -> R<Expr> {
        let start = self.pos();
        let operator = match &self.cur.k {
            K::Punct(p) => match *p {
                "+" => Some(UnaryOperator::Plus),
                "-" => Some(UnaryOperator::Minus),
                "~" => Some(UnaryOperator::BitwiseNot),
                "!" => Some(UnaryOperator::Not),
                _ => None,
            },
            _ => match self.w {
                W::Delete => Some(UnaryOperator::Delete),
                W::Void => Some(UnaryOperator::Void),
                W::Typeof => Some(UnaryOperator::Typeof),
                _ => None,
            },
        };
        if let Some(operator) = operator {
            self.adv()?;
            let argument = Box::new(self.unary()?);
            if operator == UnaryOperator::Delete && self.cx.strict && is_ident_expr(&argument) {
                return Err(());
            }
            return Ok(ExprUnary { span: self.from(start), operator, argument }.into());
        }
        if self.w == W::Await && self.cx.await_ {
            self.outside();
            self.adv()?;
            let argument = Box::new(self.unary()?);
            return Ok(ExprAwait { span: self.from(start), argument }.into());
        }
        if self.p("++") || self.p("--") {
            let operator = self.update_op()?;
            let argument = Box::new(self.unary()?);
            if !self.simple(&argument) {
                return Err(());
            }
            return Ok(ExprUpdate { span: self.from(start), operator, prefix: true, argument }.into());
        }
        let e = self.lhs()?;
        if !self.cur.nl && (self.p("++") || self.p("--")) {
            if !self.simple(&e) {
                return Err(());
            }
            let operator = self.update_op()?;
            return Ok(ExprUpdate { span: self.from(start), operator, prefix: false, argument: Box::new(e) }.into());
        }
        Ok(e)
    }
    fn update_op(&mut self) -> R<UpdateOperator> {
        let inc = self.p("++");
        self.adv()?;
        Ok(if inc { UpdateOperator::Increase } else { UpdateOperator::Decrease })
    }
    /// LeftHandSideExpression
    fn lhs(&mut self) -> R<Expr> {
        let start = self.pos();
        let mut e = self.member()?;
        loop {
            if self.p("(") {
                e = self.call(start, Callee::Expr(Box::new(e)))?;
            } else if let Some(x) = self.suffix(start, &mut e)? {
                e = x;
            } else {
                break;
            }
        }
        while self.p("?.") {
            if matches!(&e, Expr::New(n) if n.arguments_span.is_none()) {
                return Err(());
            }
            self.adv()?;
            e = if self.p("(") {
                self.optional_call(start, e, true)?
            } else if self.p("[") {
                let property = self.computed()?;
                ExprOptionalMember { span: self.from(start), object: Box::new(e), property, optional: true }.into()
            } else {
                let property = MemberProperty::Ident(self.name()?);
                ExprOptionalMember { span: self.from(start), object: Box::new(e), property, optional: true }.into()
            };
            loop {
                if self.p("(") {
                    e = self.optional_call(start, e, false)?;
                } else if self.p("[") {
                    let property = self.computed()?;
                    e = ExprOptionalMember { span: self.from(start), object: Box::new(e), property, optional: false }.into();
                } else if self.p(".") {
                    self.adv()?;
                    let property = MemberProperty::Ident(self.name()?);
                    e = ExprOptionalMember { span: self.from(start), object: Box::new(e), property, optional: false }.into();
                } else if matches!(self.cur.k, K::NoSub(_) | K::Head(_)) {
                    return Err(());
                } else {
                    break;
                }
            }
        }
        Ok(e)
    }
    fn optional_call(&mut self, start: usize, callee: Expr, optional: bool) -> R<Expr> {
        let (arguments_span, arguments) = self.arguments()?;
        Ok(ExprOptionalCall { span: self.from(start), callee: Box::new(callee), arguments_span, arguments, optional }.into())
    }
    fn call(&mut self, start: usize, callee: Callee) -> R<Expr> {
        let (arguments_span, arguments) = self.arguments()?;
        Ok(ExprCall { span: self.from(start), callee, arguments_span, arguments }.into())
    }
    /// one `.name`, `[expr]` or template suffix
    fn suffix(&mut self, start: usize, e: &mut Expr) -> R<Option<Expr>> {
        let dot = self.p(".");
        let br = self.p("[");
        let tpl = matches!(self.cur.k, K::NoSub(_) | K::Head(_));
        if !dot && !br && !tpl {
            return Ok(None);
        }
        let object = std::mem::replace(e, ExprThis { span: sp(0, 0) }.into());
        if tpl {
            let template = self.template()?;
            return Ok(Some(ExprTaggedTemplate { span: self.from(start), callee: Box::new(object), template }.into()));
        }
        let property = if dot {
            self.adv()?;
            MemberProperty::Ident(self.name()?)
        } else {
            self.computed()?
        };
        Ok(Some(ExprMember { span: self.from(start), object: MemberObject::Expr(Box::new(object)), property }.into()))
    }
    fn computed(&mut self) -> R<MemberProperty> {
        self.want("[")?;
        let e = self.expr_in()?;
        self.want("]")?;
        Ok(MemberProperty::Expr(Box::new(e)))
    }
    fn arguments(&mut self) -> R<(Span, Vec<Argument>)> {
        let start = self.pos();
        self.want("(")?;
        let mut v = vec![];
        while !self.p(")") {
            v.push(if self.eat("...")? { Argument::Spread(self.with_in(|p| p.assign())?) } else { Argument::Expr(self.with_in(|p| p.assign())?) });
            if !self.p(")") {
                self.want(",")?;
            }
        }
        self.adv()?;
        Ok((self.from(start), v))
    }
    /// MemberExpression, `new X` without arguments, super call and import call
    fn member(&mut self) -> R<Expr> {
        let start = self.pos();
        match self.w {
            W::Super => {
                if self.cx.key {
                    self.dc = true;
                }
                let t = self.adv()?;
                if self.p("(") {
                    if !self.cx.scall {
                        return Err(());
                    }
                    return self.call(start, Callee::Super);
                }
                return self.super_property(start, t);
            }
            W::Import => {
                if let Some((t, _)) = self.peek() {
                    if is_p(&t, "(") {
                        self.adv()?;
                        let astart = self.pos();
                        self.adv()?;
                        let e = self.with_in(|p| p.assign())?;
                        self.want(")")?;
                        return Ok(ExprCall { span: self.from(start), callee: Callee::Import, arguments_span: self.from(astart), arguments: vec![Argument::Expr(e)] }.into());
                    }
                }
            }
            _ => {}
        }
        self.member_only()
    }
    fn super_property(&mut self, start: usize, t: T) -> R<Expr> {
        if !self.cx.sprop {
            return Err(());
        }
        let property = if self.eat(".")? { MemberProperty::Ident(self.name()?) } else { self.computed()? };
        let mut e: Expr = ExprMember { span: self.from(start), object: MemberObject::Super(Super { span: sp(t.start, t.fend) }), property }.into();
        while let Some(x) = self.suffix(start, &mut e)? {
            e = x;
        }
        Ok(e)
    }
    fn member_only(&mut self) -> R<Expr> {
        let start = self.pos();
        let mut e = match self.w {
            W::Super => {
                if self.cx.key {
                    self.dc = true;
                }
                let t = self.adv()?;
                return self.super_property(start, t);
            }
            W::New => {
                let t = self.adv()?;
                if self.eat(".")? {
                    self.meta(start, t, "new", "target")?
                } else {
                    let callee = Box::new(self.member_only()?);
                    let (arguments_span, arguments) = if self.p("(") {
                        let (s, a) = self.arguments()?;
                        (Some(s), a)
                    } else {
                        (None, vec![])
                    };
                    ExprNew { span: self.from(start), callee, arguments_span, arguments }.into()
                }
            }
            W::Import => {
                let t = self.adv()?;
                self.want(".")?;
                self.meta(start, t, "import", "meta")?
            }
            _ => self.primary()?,
        };
        while let Some(x) = self.suffix(start, &mut e)? {
            e = x;
        }
        Ok(e)
    }
    fn meta(&mut self, start: usize, t: T, meta: &str, prop: &str) -> R<Expr> {
        let property = self.name()?;
        if property.name != prop {
            return Err(());
        }
        Ok(ExprMetaProperty { span: self.from(start), meta: Ident { span: sp(t.start, t.fend), name: meta.to_owned() }, property }.into())
    }
    fn literal(&mut self, f: impl FnOnce(K) -> Option<Literal>) -> R<Expr> {
        let t = self.adv()?;
        match f(t.k) {
            Some(literal) => Ok(ExprLiteral { span: sp(t.start, t.fend), literal }.into()),
            None => Err(()),
        }
    }
    fn primary(&mut self) -> R<Expr> {
        let start = self.pos();
        match &self.cur.k {
            K::Word(..) => match self.w {
                W::This => {
                    let t = self.adv()?;
                    Ok(ExprThis { span: sp(t.start, t.fend) }.into())
                }
                W::Null => self.literal(|_| Some(Literal::Null)),
                W::True => self.literal(|_| Some(Literal::Boolean(true))),
                W::False => self.literal(|_| Some(Literal::Boolean(false))),
                W::Function => self.function_expr(false),
                W::Class => self.class_expr(),
                W::Async => {
                    if let Some((t, W::Function)) = self.peek() {
                        if !t.nl {
                            return self.function_expr(true);
                        }
                    }
                    Ok(self.ident()?.into())
                }
                _ => Ok(self.ident()?.into()),
            },
            K::Num(_) => self.literal(|k| match k {
                K::Num(raw) => Some(Literal::Number(LitNumber { raw })),
                _ => None,
            }),
            K::Str(..) => self.literal(|k| match k {
                K::Str(value, delimiter) => Some(Literal::String(LitString { value, delimiter })),
                _ => None,
            }),
            K::NoSub(_) | K::Head(_) => {
                let template = self.template()?;
                Ok(ExprLiteral { span: self.from(start), literal: Literal::Template(template) }.into())
            }
            K::Punct("/") | K::Punct("/=") => {
                self.reread(Goal::Regex)?;
                self.literal(|k| match k {
                    K::Regex(s) => Some(Literal::Regexp(s)),
                    _ => None,
                })
            }
            K::Punct("(") => {
                self.adv()?;
                let expression = Box::new(self.expr_in()?);
                self.want(")")?;
                Ok(ExprParenthesized { span: self.from(start), expression }.into())
            }
            K::Punct("[") => {
                self.adv()?;
                let mut elements = vec![];
                while !self.p("]") {
                    if self.eat(",")? {
                        elements.push(ArrayElement::Elision);
                        continue;
                    }
                    elements.push(if self.eat("...")? { ArrayElement::Spread(self.with_in(|p| p.assign())?) } else { ArrayElement::Expr(self.with_in(|p| p.assign())?) });
                    if !self.p("]") {
                        self.want(",")?;
                    }
                }
                self.adv()?;
                Ok(ExprLiteral { span: self.from(start), literal: Literal::Array(LitArray { elements }) }.into())
            }
            K::Punct("{") => {
                self.adv()?;
                let mut props = vec![];
                while !self.p("}") {
                    let p = self.with_in(|p| p.property())?;
                    props.push(p);
                    if !self.p("}") {
                        self.want(",")?;
                    }
                }
                self.adv()?;
                Ok(ExprLiteral { span: self.from(start), literal: Literal::Object(LitObject { props }) }.into())
            }
            _ => Err(()),
        }
    }
    fn property(&mut self) -> R<PropertyDefinition> {
        let start = self.pos();
        if self.eat("...")? {
            return Ok(PropertyDefinition::Spread(self.assign()?));
        }
        if self.p("[") {
            let name = self.property_name()?;
            if self.p(":") {
                return self.named(start, name);
            }
            return Ok(PropertyDefinition::Method(self.method_rest(start, name, MethodKind::Method, false, false, false, false)?));
        }
        if self.p("*") {
            return Ok(PropertyDefinition::Method(self.method(false, false)?));
        }
        let next = self.peek();
        let nextp = |s: &str| matches!(&next, Some((t, _)) if is_p(t, s));
        if nextp(":") {
            let name = self.property_name()?;
            return self.named(start, name);
        }
        let shorthand = nextp(",") || nextp("}") || nextp("=");
        if nextp("(") || (!shorthand && matches!(self.w, W::Get | W::Set | W::Async)) {
            return Ok(PropertyDefinition::Method(self.method(false, false)?));
        }
        Ok(PropertyDefinition::IdentRef(self.ident()?))
    }
    fn named(&mut self, start: usize, name: PropertyName) -> R<PropertyDefinition> {
        self.want(":")?;
        let value = self.assign()?;
        Ok(PropertyDefinition::Named(NamedProperty { span: self.from(start), name, value }))
    }
    fn template(&mut self) -> R<LitTemplate> {
        let t = self.adv_template()?;
        let mut parts = vec![];
        match t.k {
            K::NoSub(s) => {
                parts.push(TemplatePart::String(s));
                return Ok(LitTemplate { parts });
            }
            K::Head(s) => {
                if !s.is_empty() {
                    parts.push(TemplatePart::String(s));
                }
            }
            _ => return Err(()),
        }
        loop {
            parts.push(TemplatePart::Expr(Box::new(self.expr_in()?)));
            if !self.p("}") {
                return Err(());
            }
            self.reread(Goal::TemplateTail)?;
            let t = self.adv_template()?;
            match t.k {
                K::Middle(s) => {
                    if !s.is_empty() {
                        parts.push(TemplatePart::String(s));
                    }
                }
                K::Tail(s) => {
                    if !s.is_empty() {
                        parts.push(TemplatePart::String(s));
                    }
                    return Ok(LitTemplate { parts });
                }
                _ => return Err(()),
            }
        }
    }
    fn adv_template(&mut self) -> R<T> {
        self.adv()
    }

    // ---- modules ----
    fn import(&mut self) -> R<Stmt> {
        let start = self.pos();
        self.adv()?;
        let mut default_binding = None;
        let mut namespace_binding = None;
        let mut named_imports = None;
        if !matches!(self.cur.k, K::Str(..)) {
            let mut more = true;
            if self.w != W::No {
                default_binding = Some(self.ident()?);
                more = self.eat(",")?;
            }
            if more {
                if self.eat("*")? {
                    self.wantw(W::As)?;
                    namespace_binding = Some(self.ident()?);
                } else {
                    self.want("{")?;
                    let mut v = vec![];
                    while !self.p("}") {
                        let istart = self.pos();
                        let reserved = !self.is_ident();
                        self.outside();
                        let name = self.name()?;
                        let alias = if self.eatw(W::As)? { Some(self.ident()?) } else { None };
                        if reserved && alias.is_none() {
                            return Err(());
                        }
                        v.push(NamedImport { span: self.from(istart), name, alias });
                        if !self.p("}") {
                            self.want(",")?;
                        }
                    }
                    self.adv()?;
                    named_imports = Some(v);
                }
            }
            self.wantw(W::From)?;
        }
        let from = self.specifier()?;
        self.semi()?;
        Ok(DeclImport { span: self.from(start), default_binding, namespace_binding, named_imports, from }.into())
    }
    fn specifier(&mut self) -> R<LitString> {
        if !matches!(self.cur.k, K::Str(..)) {
            return Err(());
        }
        match self.adv()?.k {
            K::Str(value, delimiter) => Ok(LitString { value, delimiter }),
            _ => Err(()),
        }
    }
    fn export(&mut self) -> R<Stmt> {
        let start = self.pos();
        self.adv()?;
        if self.eat("*")? {
            let alias = if self.eatw(W::As)? { Some(self.name()?) } else { None };
            self.wantw(W::From)?;
            let from = self.specifier()?;
            self.semi()?;
            return Ok(DeclExport::Namespace(ExportNamespace { span: self.from(start), alias, from }).into());
        }
        if self.eat("{")? {
            let mut named_exports = vec![];
            while !self.p("}") {
                let estart = self.pos();
                let first = self.name()?;
                let (name, alias_of) = if self.eatw(W::As)? { (self.name()?, Some(first)) } else { (first, None) };
                named_exports.push(NamedExport { span: self.from(estart), name, alias_of });
                if !self.p("}") {
                    self.want(",")?;
                }
            }
            self.adv()?;
            let from = if self.eatw(W::From)? { Some(self.specifier()?) } else { None };
            self.semi()?;
            return Ok(DeclExport::Named(ExportNamed { span: self.from(start), named_exports, from }).into());
        }
        if self.eatw(W::Default)? {
            let async_fn = self.kw(W::Async) && matches!(self.peek(), Some((t, W::Function)) if !t.nl);
            let decl = match self.w {
                W::Function => Some(self.function_decl(false, true)?),
                W::Class => Some(self.class_decl(true)?),
                _ if async_fn => Some(self.function_decl(true, true)?),
                _ => None,
            };
            if let Some(decl) = decl {
                return Ok(DeclExport::DefaultDecl(ExportDefaultDecl { span: self.from(start), decl: Box::new(decl) }).into());
            }
            let expr = Box::new(self.with_in(|p| p.assign())?);
            self.semi()?;
            return Ok(DeclExport::DefaultExpr(ExportDefaultExpr { span: self.from(start), expr }).into());
        }
        let ok = match self.w {
            W::Var | W::Const | W::Function | W::Class => true,
            W::Let => self.let_binds(),
            W::Async => matches!(self.peek(), Some((t, W::Function)) if !t.nl),
            _ => false,
        };
        if !ok {
            return Err(());
        }
        let decl = Box::new(self.item(false)?);
        Ok(DeclExport::Decl(ExportDecl { span: self.from(start), decl }).into())
    }
}

pub fn is_p(t: &T, s: &str) -> bool {
    match &t.k {
        K::Punct(p) => *p == s,
        _ => false,
    }
}
fn cx_strict(cx: Cx) -> Cx {
    Cx { strict: true, ..cx }
}
fn has_strict(d: &[LitString]) -> bool {
    d.iter().any(|s| s.value == "use strict")
}
fn simple_params(p: &FormalParameters) -> bool {
    p.rest.is_none() && p.bindings.iter().all(|b| b.initializer.is_none() && matches!(b.pattern, BindingPattern::Ident(_)))
}
fn is_ident_expr(e: &Expr) -> bool {
    match e {
        Expr::IdentRef(_) => true,
        Expr::Parenthesized(p) => is_ident_expr(&p.expression),
        _ => false,
    }
}
/// bound names; true for a name that is not inside a pattern
fn bound(p: &BindingPattern, simple: bool, out: &mut Vec<(String, bool)>) {
    match p {
        BindingPattern::Ident(i) => out.push((i.name.clone(), simple)),
        BindingPattern::Array(a) => {
            for e in a.elements.iter().flatten() {
                bound(&e.pattern, false, out);
            }
            if let Some(r) = &a.rest {
                bound(r, false, out);
            }
        }
        BindingPattern::Object(o) => {
            for q in &o.props {
                match q {
                    ObjectBindingProp::Single(s) => out.push((s.ident.name.clone(), false)),
                    ObjectBindingProp::Named(n) => bound(&n.binding.pattern, false, out),
                }
            }
            if let Some(r) = &o.rest {
                bound(r, false, out);
            }
        }
    }
}
fn binop(p: &str) -> BinaryOperator {
    match p {
        "+" => BinaryOperator::Plus,
        "-" => BinaryOperator::Minus,
        "*" => BinaryOperator::Multiplication,
        "/" => BinaryOperator::Division,
        "%" => BinaryOperator::Modulus,
        "<<" => BinaryOperator::ShiftLeft,
        ">>" => BinaryOperator::ShiftRight,
        ">>>" => BinaryOperator::ShiftRightUnsigned,
        "<" => BinaryOperator::LessThan,
        ">" => BinaryOperator::MoreThan,
        "<=" => BinaryOperator::LessThanEquals,
        ">=" => BinaryOperator::MoreThanEquals,
        "==" => BinaryOperator::Equal,
        "!=" => BinaryOperator::NotEqual,
        "===" => BinaryOperator::StrictEqual,
        "!==" => BinaryOperator::StrictNotEqual,
        "&" => BinaryOperator::BitwiseAnd,
        "^" => BinaryOperator::BitwiseXOR,
        _ => BinaryOperator::BitwiseOR,
    }
}
