//! Spelling tables, written independently of fajt's `FromString` derive.
use fajt_lexer::token::{Keyword, Punctuator};

pub fn punct(p: &Punctuator) -> &'static str {
    use Punctuator::*;
    match p {
        ParenOpen => "(",
        ParenClose => ")",
        BraceOpen => "[",
        BraceClose => "]",
        BracketOpen => "{",
        BracketClose => "}",
        Dot => ".",
        TripleDot => "...",
        SemiColon => ";",
        Comma => ",",
        LessThan => "<",
        DoubleLessThan => "<<",
        GreaterThan => ">",
        DoubleGreaterThan => ">>",
        TripleGreaterThan => ">>>",
        Equal => "=",
        DoubleEqual => "==",
        LessEqual => "<=",
        DoubleLessEqual => "<<=",
        GreaterEqual => ">=",
        DoubleGreaterEqual => ">>=",
        TripleGreaterEqual => ">>>=",
        EqualGreater => "=>",
        NotEqual => "!=",
        PlusEqual => "+=",
        MinusEqual => "-=",
        StarEqual => "*=",
        DoubleStarEqual => "**=",
        SlashEqual => "/=",
        PercentEqual => "%=",
        PipeEqual => "|=",
        CaretEqual => "^=",
        AmpersandEqual => "&=",
        TripleEqual => "===",
        ExclamationDoubleEqual => "!==",
        Plus => "+",
        DoublePlus => "++",
        Minus => "-",
        DoubleMinus => "--",
        Star => "*",
        DoubleStar => "**",
        Slash => "/",
        Percent => "%",
        Ampersand => "&",
        DoubleAmpersand => "&&",
        Pipe => "|",
        DoublePipe => "||",
        Caret => "^",
        Exclamation => "!",
        Tilde => "~",
        QuestionMark => "?",
        DoubleQuestionMark => "??",
        QuestionMarkDot => "?.",
        Colon => ":",
        #[allow(unreachable_patterns)]
        _ => "",
    }
}

pub fn keyword(k: &Keyword) -> &'static str {
    use Keyword::*;
    match k {
        Await => "await",
        As => "as",
        Async => "async",
        Break => "break",
        Case => "case",
        Catch => "catch",
        Class => "class",
        Const => "const",
        Continue => "continue",
        Debugger => "debugger",
        Default => "default",
        Delete => "delete",
        Do => "do",
        Else => "else",
        Enum => "enum",
        Export => "export",
        Extends => "extends",
        False => "false",
        Finally => "finally",
        For => "for",
        From => "from",
        Function => "function",
        Get => "get",
        If => "if",
        Implements => "implements",
        Import => "import",
        In => "in",
        Instanceof => "instanceof",
        Interface => "interface",
        Let => "let",
        New => "new",
        Null => "null",
        Of => "of",
        Package => "package",
        Private => "private",
        Protected => "protected",
        Public => "public",
        Return => "return",
        Set => "set",
        Static => "static",
        Super => "super",
        Switch => "switch",
        Target => "target",
        This => "this",
        Throw => "throw",
        True => "true",
        Try => "try",
        Typeof => "typeof",
        Var => "var",
        Void => "void",
        While => "while",
        With => "with",
        Yield => "yield",
        #[allow(unreachable_patterns)]
        _ => "",
    }
}
pub const KEYWORDS: [&str; 53] = [
    "await", "as", "async", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false", "finally", "for", "from",
    "function", "get", "if", "implements", "import", "in", "instanceof", "interface", "let", "new", "null", "of", "package", "private", "protected", "public", "return", "set", "static", "super",
    "switch", "target", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "yield",
];
pub fn is_keyword(s: &str) -> bool {
    KEYWORDS.iter().any(|k| *k == s)
}
