//! C34: the parsers and lexers the ANTLR tool generated for the repository's grammars (tests/gen).
//!
//! The grammars are transcribed here by hand (`csv`, `labels`, ...). Every text is read by the
//! generated code, by the interpreter used for all other properties on the transcribed grammar
//! (they must agree on everything: this binds the interpreter to generated code), and by the
//! reference recognizers. On top of that come the parts of generated code that only exist there:
//! labelled alternatives, accessors, return values, typed listeners and visitors.
use crate::grammar::*;
use crate::interp::*;
use crate::lexi::*;
use crate::p_lex::at_offsets;
use crate::refp::*;
use crate::reflex::RLex;
use crate::run::*;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::error_strategy::BailErrorStrategy;
use antlr_rust::errors::ANTLRError;
use antlr_rust::lexer::Lexer;
use antlr_rust::parser::Parser;
use antlr_rust::parser_rule_context::ParserRuleContext;
use antlr_rust::recognizer::Recognizer;
use antlr_rust::rule_context::RuleContext;
use antlr_rust::token::Token;
use antlr_rust::token_factory::{ArenaCommonFactory, TokenFactory};
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use antlr_rust::tree::*;
use antlr_rust::{InputStream, TidExt, TokenSource};
use std::cell::RefCell;
use std::ops::Deref;
use std::rc::Rc;
use std::sync::Arc;

#[allow(warnings)]
mod ggen {
    #[path = "/repo/tests/gen/csvlexer.rs"]
    pub mod csvlexer;
    #[path = "/repo/tests/gen/csvlistener.rs"]
    pub mod csvlistener;
    #[path = "/repo/tests/gen/csvparser.rs"]
    pub mod csvparser;
    #[path = "/repo/tests/gen/csvvisitor.rs"]
    pub mod csvvisitor;
    #[path = "/repo/tests/gen/labelslexer.rs"]
    pub mod labelslexer;
    #[path = "/repo/tests/gen/labelslistener.rs"]
    pub mod labelslistener;
    #[path = "/repo/tests/gen/labelsparser.rs"]
    pub mod labelsparser;
    #[path = "/repo/tests/gen/referencetoatnlexer.rs"]
    pub mod referencetoatnlexer;
    #[path = "/repo/tests/gen/referencetoatnlistener.rs"]
    pub mod referencetoatnlistener;
    #[path = "/repo/tests/gen/referencetoatnparser.rs"]
    pub mod referencetoatnparser;
    #[path = "/repo/tests/gen/simplelrlexer.rs"]
    pub mod simplelrlexer;
    #[path = "/repo/tests/gen/simplelrlistener.rs"]
    pub mod simplelrlistener;
    #[path = "/repo/tests/gen/simplelrparser.rs"]
    pub mod simplelrparser;
    #[path = "/repo/tests/gen/visitorbasiclexer.rs"]
    pub mod visitorbasiclexer;
    #[path = "/repo/tests/gen/visitorbasiclistener.rs"]
    pub mod visitorbasiclistener;
    #[path = "/repo/tests/gen/visitorbasicparser.rs"]
    pub mod visitorbasicparser;
    #[path = "/repo/tests/gen/visitorbasicvisitor.rs"]
    pub mod visitorbasicvisitor;
    #[path = "/repo/tests/gen/visitorcalclexer.rs"]
    pub mod visitorcalclexer;
    #[path = "/repo/tests/gen/visitorcalclistener.rs"]
    pub mod visitorcalclistener;
    #[path = "/repo/tests/gen/visitorcalcparser.rs"]
    pub mod visitorcalcparser;
    #[path = "/repo/tests/gen/visitorcalcvisitor.rs"]
    pub mod visitorcalcvisitor;
    #[path = "/repo/tests/gen/xmllexer.rs"]
    pub mod xmllexer;
}
use ggen::*;

// ------------------------------------------------------------------ the grammars ------

fn t(n: i32) -> El {
    El::Tok(n)
}
fn s(x: &str) -> Vec<El> {
    x.chars().map(|c| El::Tok(c as i32)).collect()
}
fn set(x: &str) -> Vec<(i32, i32)> {
    x.chars().map(|c| (c as i32, c as i32)).collect()
}
fn one(x: &[(char, char)]) -> El {
    El::Set(x.iter().map(|c| (c.0 as i32, c.1 as i32)).collect())
}
fn not(x: &str) -> El {
    El::NotSet(set(x))
}
fn plus(e: El) -> El {
    El::Plus(vec![vec![e]], true)
}
fn star(e: El) -> El {
    El::Star(vec![vec![e]], true)
}
fn lexer(rules: Vec<(&str, Vec<Vec<El>>)>, actions: Vec<(i32, i32, i32)>) -> Grammar {
    let rules: Vec<Rule> = rules.into_iter().enumerate().map(|(i, (n, a))| lrule(n, i as i32 + 1, a)).collect();
    Grammar { lexer: true, max_token: rules.len() as i32, rules, modes: 1, actions }
}
const CHANNEL: i32 = 0;
const CUSTOM: i32 = 1;
const MORE: i32 = 3;
const POP: i32 = 4;
const PUSH: i32 = 5;
const SKIP: i32 = 6;

fn csv_lexer() -> Grammar {
    let quoted = El::Star(vec![s("\"\""), vec![not("\"")]], true);
    lexer(
        vec![
            ("T0", vec![s(",")]),
            ("T1", vec![s("\r")]),
            ("T2", vec![s("\n")]),
            ("WS", vec![vec![plus(t(32)), El::Action(0)]]),
            ("TEXT", vec![vec![plus(not(" ,\n\r\""))]]),
            ("STRING", vec![vec![t(34), quoted, t(34)]]),
        ],
        vec![(CHANNEL, 1, 0)],
    )
}
fn csv_parser() -> Grammar {
    parser_grammar(
        vec![
            prule("csvFile", vec![vec![El::Rule(1, 0), plus(El::Rule(2, 0))]]),
            prule("hdr", vec![vec![El::Rule(2, 0)]]),
            prule("row", vec![vec![El::Rule(3, 0), El::Star(vec![vec![t(1), El::Rule(3, 0)]], true), El::Opt(vec![vec![t(2)]], true), t(3)]]),
            prule("field", vec![vec![t(5)], vec![t(6)], vec![]]),
        ],
        6,
    )
}
fn ws(act: i32) -> Vec<Vec<El>> {
    vec![vec![El::Block(vec![s(" "), s("\n")]), El::Action(act)]]
}
fn labels_lexer() -> Grammar {
    lexer(
        vec![
            ("T0", vec![s("*")]),
            ("T1", vec![s("+")]),
            ("T2", vec![s("(")]),
            ("T3", vec![s(")")]),
            ("T4", vec![s("++")]),
            ("T5", vec![s("--")]),
            ("ID", vec![vec![plus(El::Range(97, 122))]]),
            ("INT", vec![vec![plus(El::Range(48, 57))]]),
            ("WS", ws(0)),
        ],
        vec![(SKIP, 0, 0)],
    )
}
fn labels_parser() -> Grammar {
    let mut e = prule("e", vec![vec![t(8)], vec![t(3), El::Rule(1, 0), t(4)], vec![t(7)]]);
    e.ops = Some(vec![
        vec![El::Prec(7), t(1), El::Rule(1, 8)],
        vec![El::Prec(6), t(2), El::Rule(1, 7)],
        vec![El::Prec(3), t(5)],
        vec![El::Prec(2), t(6)],
    ]);
    parser_grammar(vec![prule("s", vec![vec![El::Rule(1, 0)]]), e], 9)
}
fn calc_lexer() -> Grammar {
    lexer(
        vec![
            ("INT", vec![vec![plus(El::Range(48, 57))]]),
            ("MUL", vec![s("*")]),
            ("DIV", vec![s("/")]),
            ("ADD", vec![s("+")]),
            ("SUB", vec![s("-")]),
            ("WS", vec![vec![plus(El::Set(set(" \t"))), El::Action(0)]]),
        ],
        vec![(CHANNEL, 1, 0)],
    )
}
fn calc_parser() -> Grammar {
    let mut e = prule("expr", vec![vec![t(1)]]);
    e.ops = Some(vec![
        vec![El::Prec(2), El::Set(vec![(2, 2), (3, 3)]), El::Rule(1, 3)],
        vec![El::Prec(1), El::Set(vec![(4, 4), (5, 5)]), El::Rule(1, 2)],
    ]);
    parser_grammar(vec![prule("s", vec![vec![El::Rule(1, 0), t(EOF)]]), e], 6)
}
fn simple_lexer() -> Grammar {
    lexer(vec![("ID", vec![vec![plus(El::Range(97, 122))]]), ("WS", ws(0))], vec![(SKIP, 0, 0)])
}
fn simple_parser() -> Grammar {
    let mut a = prule("a", vec![vec![t(1)]]);
    a.ops = Some(vec![vec![El::Prec(2), t(1)]]);
    parser_grammar(vec![prule("s", vec![vec![El::Rule(1, 0)]]), a], 2)
}
fn refatn_lexer() -> Grammar {
    lexer(vec![("ID", vec![vec![plus(El::Range(97, 122))]]), ("ATN", vec![vec![plus(El::Range(48, 57))]]), ("WS", ws(0))], vec![(SKIP, 0, 0)])
}
fn refatn_parser() -> Grammar {
    parser_grammar(vec![prule("a", vec![vec![star(El::Set(vec![(1, 2)])), El::Opt(vec![vec![t(2)]], true)]])], 3)
}
fn basic_lexer() -> Grammar {
    lexer(vec![("A", vec![s("A")])], vec![])
}
fn basic_parser() -> Grammar {
    parser_grammar(vec![prule("s", vec![vec![t(1), t(EOF)]])], 1)
}
fn xml_lexer() -> Grammar {
    let any = || El::Star(vec![vec![El::Wild]], false);
    let cat = |v: Vec<Vec<El>>| -> Vec<El> { v.into_iter().flatten().collect() };
    let start = || {
        let mut v = vec![vec![one(&[(':', ':'), ('a', 'z'), ('A', 'Z')])]];
        for (a, b) in [(0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD)] {
            v.push(vec![El::Range(a, b)]);
        }
        v
    };
    let (name, hex, digit, name_char, name_start, ws_rule) = (16, 18, 19, 20, 21, 17);
    let r = |i: usize| El::Rule(i, 0);
    let body: Vec<(&str, usize, i32, Vec<Vec<El>>)> = vec![
        ("COMMENT", 0, 1, vec![cat(vec![s("<!--"), vec![any()], s("-->"), vec![El::Pred(0, false)]])]),
        ("CDATA", 0, 2, vec![cat(vec![s("<![CDATA["), vec![any()], s("]]>")])]),
        ("DTD", 0, 3, vec![cat(vec![s("<!"), vec![any()], s(">"), vec![El::Action(0)]])]),
        ("EntityRef", 0, 4, vec![vec![t('&' as i32), r(name), t(';' as i32)]]),
        ("CharRef", 0, 5, vec![cat(vec![s("&#"), vec![plus(r(digit))], s(";")]), cat(vec![s("&#x"), vec![plus(r(hex))], s(";")])]),
        ("SEA_WS", 0, 6, vec![vec![El::Block(vec![s(" "), s("\t"), vec![El::Opt(vec![s("\r")], true), t(10)]])]]),
        ("OPEN", 0, 7, vec![vec![t('<' as i32), El::Action(1)]]),
        ("XMLDeclOpen", 0, 8, vec![cat(vec![s("<?xml"), vec![r(ws_rule), El::Action(2)]])]),
        ("SPECIAL_OPEN", 0, 0, vec![cat(vec![s("<?"), vec![r(name), El::Action(3), El::Action(4)]])]),
        ("TEXT", 0, 9, vec![vec![plus(not("<&"))]]),
        ("CLOSE", 1, 10, vec![vec![t('>' as i32), El::Action(5)]]),
        ("SPECIAL_CLOSE", 1, 11, vec![cat(vec![s("?>"), vec![El::Action(6)]])]),
        ("SLASH_CLOSE", 1, 12, vec![cat(vec![s("/>"), vec![El::Action(6)]])]),
        ("SLASH", 1, 13, vec![s("/")]),
        ("EQUALS", 1, 14, vec![s("=")]),
        ("STRING", 1, 15, vec![vec![t(34), star(not("<\"")), t(34)], vec![t(39), star(not("<'")), t(39)]]),
    ];
    let mut rules: Vec<Rule> = vec![];
    for (n, m, tt, alts) in body {
        let mut x = lrule(n, tt, alts);
        x.mode = m;
        rules.push(x);
    }
    let add = |rules: &mut Vec<Rule>, n: &str, m: usize, tt: i32, frag: bool, alts: Vec<Vec<El>>| {
        let mut x = lrule(n, tt, alts);
        x.mode = m;
        x.fragment = frag;
        rules.push(x);
    };
    add(&mut rules, "Name", 1, 16, false, vec![vec![r(name_start), star(r(name_char))]]);
    add(&mut rules, "S", 1, 17, false, vec![vec![El::Set(set(" \t\r\n")), El::Action(0)]]);
    add(&mut rules, "HEXDIGIT", 1, 0, true, vec![vec![one(&[('a', 'f'), ('A', 'F'), ('0', '9')])]]);
    add(&mut rules, "DIGIT", 1, 0, true, vec![vec![El::Range(48, 57)]]);
    add(
        &mut rules,
        "NameChar",
        1,
        0,
        true,
        vec![vec![r(name_start)], s("-"), s("."), vec![r(digit)], vec![t(0xB7)], vec![El::Range(0x300, 0x36F)], vec![El::Range(0x203F, 0x2040)]],
    );
    add(&mut rules, "NameStartChar", 1, 0, true, start());
    add(&mut rules, "PI", 2, 18, false, vec![cat(vec![s("?>"), vec![El::Action(6)]])]);
    add(&mut rules, "IGNORE", 2, 0, false, vec![vec![El::Wild, El::Action(3)]]);
    Grammar {
        lexer: true,
        max_token: 18,
        rules,
        modes: 3,
        actions: vec![(SKIP, 0, 0), (PUSH, 1, 0), (PUSH, 1, 0), (MORE, 0, 0), (PUSH, 2, 0), (CUSTOM, 10, 0), (POP, 0, 0)],
    }
}

// ------------------------------------------------------------------ observing ---------

type Errs = Rc<RefCell<Vec<(Option<(isize, isize)>, isize, isize)>>>;
struct GRec(Errs);
impl<'a, R: Recognizer<'a>> ErrorListener<'a, R> for GRec {
    fn syntax_error(&self, _r: &R, tok: Option<&<R::TF as TokenFactory<'a>>::Inner>, line: isize, col: isize, _msg: &str, _e: Option<&ANTLRError>) {
        self.0.borrow_mut().push((tok.map(|t| (t.get_token_index(), t.get_token_type())), line, col));
    }
}
struct LexRec(Rc<RefCell<Vec<LErr>>>);
impl<'a, R: Recognizer<'a>> ErrorListener<'a, R> for LexRec {
    fn syntax_error(&self, _r: &R, _tok: Option<&<R::TF as TokenFactory<'a>>::Inner>, line: isize, col: isize, msg: &str, e: Option<&ANTLRError>) {
        let start = match e {
            Some(ANTLRError::LexerNoAltError { start_index }) => *start_index,
            _ => -99,
        };
        self.0.borrow_mut().push(LErr { line, col, msg: msg.to_string(), start });
    }
}

/// what reading a text shows
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
struct Seen {
    tree: Option<T>,
    errs: Vec<(Option<(isize, isize)>, isize, isize)>,
    lex: Vec<LErr>,
}

fn plain(t: &T) -> T {
    match t {
        T::Rule { rule, start, stop, kids } => T::Rule { rule: *rule, start: *start, stop: *stop, kids: kids.iter().map(plain).collect() },
        T::Err(i, ty, s) if s.starts_with("<missing") => T::Err(*i, *ty, "<missing>".into()),
        x => x.clone(),
    }
}

macro_rules! observed {
    ($tree:ident, $show:ident, $ctx:path, $ty:ty, $names:expr) => {
        fn $tree<'i>(n: &(dyn $ctx + 'i)) -> T {
            if let Some(t) = n.downcast_ref::<TerminalNode<'i, $ty>>() {
                return T::Tok(t.symbol.get_token_index(), t.symbol.get_token_type());
            }
            if let Some(t) = n.downcast_ref::<ErrorNode<'i, $ty>>() {
                return T::Err(t.symbol.get_token_index(), t.symbol.get_token_type(), t.symbol.get_text().to_string());
            }
            T::Rule {
                rule: n.get_rule_index(),
                start: n.start().get_token_index(),
                stop: n.stop().get_token_index(),
                kids: n.get_children().map(|c| $tree(&*c)).collect(),
            }
        }
        /// the LISP form, from the tokens and names alone
        fn $show<'i>(n: &(dyn $ctx + 'i), out: &mut String) {
            if let Some(t) = n.downcast_ref::<TerminalNode<'i, $ty>>() {
                *out += &esc_ws(&t.symbol.get_text().to_string());
            } else if let Some(t) = n.downcast_ref::<ErrorNode<'i, $ty>>() {
                *out += &esc_ws(&t.symbol.get_text().to_string());
            } else {
                let name = $names[n.get_rule_index()];
                let kids: Vec<_> = n.get_children().collect();
                if kids.is_empty() {
                    *out += name;
                    return;
                }
                *out += "(";
                *out += name;
                for k in kids {
                    *out += " ";
                    $show(&*k, out);
                }
                *out += ")";
            }
        }
    };
}
fn esc_ws(s: &str) -> String {
    s.replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r")
}
observed!(tree_csv, show_csv, csvparser::CSVParserContext<'i>, csvparser::CSVParserContextType, csvparser::ruleNames);
observed!(tree_labels, show_labels, labelsparser::LabelsParserContext<'i>, labelsparser::LabelsParserContextType, labelsparser::ruleNames);
observed!(tree_calc, show_calc, visitorcalcparser::VisitorCalcParserContext<'i>, visitorcalcparser::VisitorCalcParserContextType, visitorcalcparser::ruleNames);
observed!(tree_simple, show_simple, simplelrparser::SimpleLRParserContext<'i>, simplelrparser::SimpleLRParserContextType, simplelrparser::ruleNames);
observed!(tree_refatn, show_refatn, referencetoatnparser::ReferenceToATNParserContext<'i>, referencetoatnparser::ReferenceToATNParserContextType, referencetoatnparser::ruleNames);
observed!(tree_basic, show_basic, visitorbasicparser::VisitorBasicParserContext<'i>, visitorbasicparser::VisitorBasicParserContextType, visitorbasicparser::ruleNames);

/// tokens and errors of a generated lexer
macro_rules! lexed {
    ($lexer:expr) => {{
        let mut lx = $lexer;
        let errs = Rc::new(RefCell::new(vec![]));
        lx.remove_error_listeners();
        lx.add_error_listener(Box::new(LexRec(errs.clone())));
        let mut toks = vec![];
        loop {
            let t = lx.next_token();
            let t = ltok(&*t);
            let end = t.ty == EOF;
            toks.push(t);
            if end {
                break;
            }
        }
        let e = errs.borrow().clone();
        (toks, e)
    }};
}

// ------------------------------------------------------------------ typed parts -------

/// alternatives of the labelled rules, told from the shape of a tree
fn label_of(rule: usize, kids: &[T], calc: bool) -> &'static str {
    let ty = |t: &T| match t {
        T::Tok(_, t) => *t,
        _ => 0,
    };
    if rule == 0 {
        return "s";
    }
    let k: Vec<isize> = kids.iter().map(ty).collect();
    match (calc, k.as_slice()) {
        (false, [8]) => "anInt",
        (false, [7]) => "anID",
        (false, [3, 0, 4]) => "parens",
        (false, [0, 1, 0]) => "mult",
        (false, [0, 2, 0]) => "add",
        (false, [0, 5]) => "inc",
        (false, [0, 6]) => "dec",
        (true, [1]) => "number",
        (true, [0, 2 | 3, 0]) => "multiply",
        (true, [0, 4 | 5, 0]) => "add",
        _ => "?",
    }
}
/// what a typed listener should hear on a walk over a tree
fn walked(t: &T, calc: bool, exits: bool, out: &mut Vec<String>) {
    match t {
        T::Rule { rule, kids, .. } => {
            let l = label_of(*rule, kids, calc);
            out.push(format!("enter {}", l));
            for k in kids {
                walked(k, calc, exits, out);
            }
            if exits || *rule == 0 {
                out.push(format!("exit {}", l));
            }
        }
        T::Tok(i, ty) => out.push(format!("token {} {}", i, ty)),
        T::Err(i, ty, _) => out.push(format!("error {} {}", i, ty)),
    }
}

#[derive(Default)]
struct LabHear(Vec<String>);
impl<'i> ParseTreeListener<'i, labelsparser::LabelsParserContextType> for LabHear {
    fn visit_terminal(&mut self, n: &TerminalNode<'i, labelsparser::LabelsParserContextType>) {
        self.0.push(format!("token {} {}", n.symbol.get_token_index(), n.symbol.get_token_type()));
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'i, labelsparser::LabelsParserContextType>) {
        self.0.push(format!("error {} {}", n.symbol.get_token_index(), n.symbol.get_token_type()));
    }
}
macro_rules! heard {
    ($lt:lifetime, $($m:ident $c:ty, $s:expr;)*) => { $( fn $m(&mut self, _c: &$c) { self.0.push($s.into()); } )* };
}
impl<'i> labelslistener::LabelsListener<'i> for LabHear {
    heard! { 'i,
        enter_s labelsparser::SContext<'i>, "enter s"; exit_s labelsparser::SContext<'i>, "exit s";
        enter_add labelsparser::AddContext<'i>, "enter add"; enter_parens labelsparser::ParensContext<'i>, "enter parens";
        enter_mult labelsparser::MultContext<'i>, "enter mult"; enter_dec labelsparser::DecContext<'i>, "enter dec";
        enter_anID labelsparser::AnIDContext<'i>, "enter anID"; enter_anInt labelsparser::AnIntContext<'i>, "enter anInt";
        enter_inc labelsparser::IncContext<'i>, "enter inc";
    }
}
#[derive(Default)]
struct CalcHear(Vec<String>);
impl<'i> ParseTreeListener<'i, visitorcalcparser::VisitorCalcParserContextType> for CalcHear {
    fn visit_terminal(&mut self, n: &TerminalNode<'i, visitorcalcparser::VisitorCalcParserContextType>) {
        self.0.push(format!("token {} {}", n.symbol.get_token_index(), n.symbol.get_token_type()));
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'i, visitorcalcparser::VisitorCalcParserContextType>) {
        self.0.push(format!("error {} {}", n.symbol.get_token_index(), n.symbol.get_token_type()));
    }
}
impl<'i> visitorcalclistener::VisitorCalcListener<'i> for CalcHear {
    heard! { 'i,
        enter_s visitorcalcparser::SContext<'i>, "enter s"; exit_s visitorcalcparser::SContext<'i>, "exit s";
        enter_add visitorcalcparser::AddContext<'i>, "enter add"; exit_add visitorcalcparser::AddContext<'i>, "exit add";
        enter_number visitorcalcparser::NumberContext<'i>, "enter number"; exit_number visitorcalcparser::NumberContext<'i>, "exit number";
        enter_multiply visitorcalcparser::MultiplyContext<'i>, "enter multiply"; exit_multiply visitorcalcparser::MultiplyContext<'i>, "exit multiply";
    }
}
/// what was heard while parsing, shared with the test
#[derive(Clone, Default)]
struct CsvHear(Rc<RefCell<Vec<String>>>);
impl<'i> ParseTreeListener<'i, csvparser::CSVParserContextType> for CsvHear {
    fn visit_terminal(&mut self, n: &TerminalNode<'i, csvparser::CSVParserContextType>) {
        self.0.borrow_mut().push(format!("token {} {}", n.symbol.get_token_index(), n.symbol.get_token_type()));
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'i, csvparser::CSVParserContextType>) {
        self.0.borrow_mut().push(format!("error {} {}", n.symbol.get_token_index(), n.symbol.get_token_type()));
    }
}
macro_rules! csv_heard {
    ($($m:ident $c:ty, $s:expr;)*) => { $( fn $m(&mut self, _c: &$c) { self.0.borrow_mut().push($s.into()); } )* };
}
impl<'i> csvlistener::CSVListener<'i> for CsvHear {
    csv_heard! {
        enter_csvFile csvparser::CsvFileContext<'i>, "enter 0"; exit_csvFile csvparser::CsvFileContext<'i>, "exit 0";
        enter_hdr csvparser::HdrContext<'i>, "enter 1"; exit_hdr csvparser::HdrContext<'i>, "exit 1";
        enter_row csvparser::RowContext<'i>, "enter 2"; exit_row csvparser::RowContext<'i>, "exit 2";
        enter_field csvparser::FieldContext<'i>, "enter 3"; exit_field csvparser::FieldContext<'i>, "exit 3";
    }
}
fn events(t: &T, out: &mut Vec<String>) {
    match t {
        T::Rule { rule, kids, .. } => {
            out.push(format!("enter {}", rule));
            kids.iter().for_each(|k| events(k, out));
            out.push(format!("exit {}", rule));
        }
        T::Tok(i, ty) => out.push(format!("token {} {}", i, ty)),
        T::Err(i, ty, _) => out.push(format!("error {} {}", i, ty)),
    }
}

/// a visitor that visits in its own order: what it returns is put together by the library
struct CsvVisit(Vec<String>);
impl<'i> ParseTreeVisitorCompat<'i> for CsvVisit {
    type Node = csvparser::CSVParserContextType;
    type Return = Vec<String>;
    fn temp_result(&mut self) -> &mut Vec<String> {
        &mut self.0
    }
    fn visit_terminal(&mut self, n: &TerminalNode<'i, Self::Node>) -> Vec<String> {
        vec![format!("token {} {}", n.symbol.get_token_index(), n.symbol.get_token_type())]
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'i, Self::Node>) -> Vec<String> {
        vec![format!("error {} {}", n.symbol.get_token_index(), n.symbol.get_token_type())]
    }
    fn aggregate_results(&self, mut a: Vec<String>, n: Vec<String>) -> Vec<String> {
        a.extend(n);
        a
    }
}
fn around(r: usize, mut v: Vec<String>) -> Vec<String> {
    v.insert(0, format!("enter {}", r));
    v.push(format!("exit {}", r));
    v
}
impl<'i> csvvisitor::CSVVisitorCompat<'i> for CsvVisit {
    fn visit_csvFile(&mut self, c: &csvparser::CsvFileContext<'i>) -> Vec<String> {
        around(0, ParseTreeVisitorCompat::visit_children(self, c))
    }
    fn visit_hdr(&mut self, c: &csvparser::HdrContext<'i>) -> Vec<String> {
        around(1, ParseTreeVisitorCompat::visit_children(self, c))
    }
    fn visit_row(&mut self, c: &csvparser::RowContext<'i>) -> Vec<String> {
        around(2, ParseTreeVisitorCompat::visit_children(self, c))
    }
    fn visit_field(&mut self, c: &csvparser::FieldContext<'i>) -> Vec<String> {
        around(3, ParseTreeVisitorCompat::visit_children(self, c))
    }
}
/// evaluates: division by zero gives zero
struct Calc(i64);
impl<'i> ParseTreeVisitorCompat<'i> for Calc {
    type Node = visitorcalcparser::VisitorCalcParserContextType;
    type Return = i64;
    fn temp_result(&mut self) -> &mut i64 {
        &mut self.0
    }
    fn aggregate_results(&self, _: i64, n: i64) -> i64 {
        n
    }
}
fn compute(op: isize, a: i64, b: i64) -> i64 {
    match op {
        2 => a.wrapping_mul(b),
        3 => a.checked_div(b).unwrap_or(0),
        4 => a.wrapping_add(b),
        _ => a.wrapping_sub(b),
    }
}
impl<'i> visitorcalcvisitor::VisitorCalcVisitorCompat<'i> for Calc {
    fn visit_s(&mut self, c: &visitorcalcparser::SContext<'i>) -> i64 {
        use visitorcalcparser::SContextAttrs;
        self.visit(&*c.expr().unwrap())
    }
    fn visit_number(&mut self, c: &visitorcalcparser::NumberContext<'i>) -> i64 {
        use visitorcalcparser::NumberContextAttrs;
        c.INT().unwrap().get_text().parse().unwrap()
    }
    fn visit_multiply(&mut self, c: &visitorcalcparser::MultiplyContext<'i>) -> i64 {
        use visitorcalcparser::MultiplyContextAttrs;
        let a = self.visit(&*c.expr(0).unwrap());
        let b = self.visit(&*c.expr(1).unwrap());
        compute(if c.MUL().is_some() { 2 } else { c.DIV().map_or(9, |_| 3) }, a, b)
    }
    fn visit_add(&mut self, c: &visitorcalcparser::AddContext<'i>) -> i64 {
        use visitorcalcparser::AddContextAttrs;
        let v: Vec<i64> = c.expr_all().iter().map(|x| self.visit(&**x)).collect();
        assert_eq!(v.len(), 2);
        compute(if c.ADD().is_some() { 4 } else { c.SUB().map_or(9, |_| 5) }, v[0], v[1])
    }
}
fn value(t: &T, text: &dyn Fn(isize) -> String) -> i64 {
    match t {
        T::Rule { kids, .. } => match kids.as_slice() {
            [T::Tok(i, 1)] => text(*i).parse().unwrap(),
            [a, T::Tok(_, op), b] => compute(*op, value(a, text), value(b, text)),
            [a, T::Tok(..)] => value(a, text),
            k => panic!("unexpected tree {:?}", k),
        },
        _ => panic!("unexpected leaf"),
    }
}
/// the attribute the actions of Labels.g4 compute
fn prefix(t: &T, text: &dyn Fn(isize) -> String) -> String {
    match t {
        T::Rule { kids, .. } => match kids.as_slice() {
            [T::Tok(i, 7 | 8)] => text(*i),
            [T::Tok(_, 3), e, T::Tok(_, 4)] => prefix(e, text),
            [a, T::Tok(_, 1), b] => format!("* {} {}", prefix(a, text), prefix(b, text)),
            [a, T::Tok(_, 2), b] => format!("+ {} {}", prefix(a, text), prefix(b, text)),
            [a, T::Tok(_, 5)] => format!(" ++{}", prefix(a, text)),
            [a, T::Tok(_, 6)] => format!(" --{}", prefix(a, text)),
            k => panic!("unexpected tree {:?}", k),
        },
        _ => panic!("unexpected leaf"),
    }
}
/// labels and accessors of a tree of labelled contexts, compared with its children
fn check_labels<'i>(n: &Rc<labelsparser::EContextAll<'i>>, t: &T, text: &dyn Fn(isize) -> String) -> Result<(), String> {
    use labelsparser::*;
    let kids = match t {
        T::Rule { kids, .. } => kids,
        _ => return Err("a leaf".into()),
    };
    let l = label_of(1, kids, false);
    let same = |what: &str, a: &Option<Rc<EContextAll<'i>>>, b: Option<Rc<EContextAll<'i>>>| -> Result<Rc<EContextAll<'i>>, String> {
        match (a, b) {
            (Some(a), Some(b)) if Rc::ptr_eq(a, &b) => Ok(b),
            (a, b) => Err(format!("{}: label {} and child {}", what, a.is_some(), b.is_some())),
        }
    };
    let up = |k: &Rc<EContextAll<'i>>| -> Result<(), String> {
        let p = k.get_parent().ok_or("no parent")?;
        let (a, b): (*const u8, *const u8) = (&*p as *const _ as *const u8, &**n as *const _ as *const u8);
        if a != b {
            return Err(format!("the parent of a child of {} is another node", l));
        }
        Ok(())
    };
    if n.get_v() != &prefix(t, text) {
        return Err(format!("the value of {:?} is {:?}, not {:?}", t.show(), n.get_v(), prefix(t, text)));
    }
    let bad = |x: &str| Err(format!("a {} where {} is meant", x, l));
    let one = |what: &str, x: &Option<Rc<EContextAll<'i>>>, e: Option<Rc<EContextAll<'i>>>, k: &T| {
        let c = same(what, x, e)?;
        up(&c)?;
        check_labels(&c, k, text)
    };
    match &**n {
        EContextAll::MultContext(c) => {
            if l != "mult" {
                return bad("mult");
            }
            match &c.op {
                Some(o) if o.get_token_type() == 1 && T::Tok(o.get_token_index(), 1) == kids[1] => {}
                o => return Err(format!("label op is {:?}", o.as_ref().map(|o| o.get_token_index()))),
            }
            if c.e_all().len() != 2 || c.e(2).is_some() {
                return Err("number of operands".into());
            }
            one("a", &c.a, c.e(0), &kids[0])?;
            one("b", &c.b, c.e(1), &kids[2])
        }
        EContextAll::AddContext(c) => {
            if l != "add" {
                return bad("add");
            }
            if c.e_all().len() != 2 || c.e(2).is_some() {
                return Err("number of operands".into());
            }
            one("a", &c.a, c.e(0), &kids[0])?;
            one("b", &c.b, c.e(1), &kids[2])
        }
        EContextAll::ParensContext(c) => if l == "parens" { one("x", &c.x, c.e(), &kids[1]) } else { bad("parens") },
        EContextAll::IncContext(c) => if l == "inc" { one("x", &c.x, c.e(), &kids[0]) } else { bad("inc") },
        EContextAll::DecContext(c) => if l == "dec" { one("x", &c.x, c.e(), &kids[0]) } else { bad("dec") },
        EContextAll::AnIntContext(c) => match c.INT() {
            Some(x) if l == "anInt" && T::Tok(x.symbol.get_token_index(), 8) == kids[0] && c.INT.as_ref().map(|t| t.get_token_index()) == Some(x.symbol.get_token_index()) => Ok(()),
            _ => bad("anInt"),
        },
        EContextAll::AnIDContext(c) => match c.ID() {
            Some(x) if l == "anID" && T::Tok(x.symbol.get_token_index(), 7) == kids[0] && c.ID.as_ref().map(|t| t.get_token_index()) == Some(x.symbol.get_token_index()) => Ok(()),
            _ => bad("anID"),
        },
        EContextAll::Error(_) => bad("bare e"),
    }
}
fn check_csv<'i>(n: &csvparser::CsvFileContext<'i>, t: &T) -> Result<(), String> {
    use csvparser::*;
    let of = |t: &T, r: usize| -> Vec<T> {
        match t {
            T::Rule { kids, .. } => kids.iter().filter(|k| matches!(k, T::Rule { rule, .. } if *rule == r)).cloned().collect(),
            _ => vec![],
        }
    };
    let row = |r: &RowContext<'i>, t: &T| -> Result<(), String> {
        let fs = of(t, 3);
        let got = r.field_all();
        if got.len() != fs.len() || r.field(fs.len()).is_some() {
            return Err(format!("{} fields instead of {}", got.len(), fs.len()));
        }
        for (k, (f, ft)) in got.iter().zip(&fs).enumerate() {
            if !r.field(k).map_or(false, |x| Rc::ptr_eq(&x, f)) || tree_csv(&**f) != *ft {
                return Err(format!("field {} is another one", k));
            }
            let leaf = |ty: isize| match ft {
                T::Rule { kids, .. } => kids.iter().find_map(|x| match x {
                    T::Tok(i, y) if *y == ty => Some(*i),
                    _ => None,
                }),
                _ => None,
            };
            if f.TEXT().map(|x| x.symbol.get_token_index()) != leaf(5) || f.STRING().map(|x| x.symbol.get_token_index()) != leaf(6) {
                return Err(format!("tokens of field {}", k));
            }
        }
        Ok(())
    };
    let hs = of(t, 1);
    match (n.hdr(), hs.first()) {
        (Some(h), Some(ht)) => {
            if tree_csv(&*h) != *ht {
                return Err("another header".into());
            }
            match (h.row(), of(ht, 2).first()) {
                (Some(r), Some(rt)) => row(&r, rt)?,
                (None, None) => {}
                _ => return Err("row of the header".into()),
            }
        }
        (None, None) => {}
        _ => return Err("header".into()),
    }
    let rs = of(t, 2);
    let got = n.row_all();
    if got.len() != rs.len() || n.row(rs.len()).is_some() {
        return Err(format!("{} rows instead of {}", got.len(), rs.len()));
    }
    for (k, (r, rt)) in got.iter().zip(&rs).enumerate() {
        if !n.row(k).map_or(false, |x| Rc::ptr_eq(&x, r)) || tree_csv(&**r) != *rt {
            return Err(format!("row {} is another one", k));
        }
        row(r, rt)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ one text ----------

/// the reference's tree, whose tokens are counted on the parser's channel, with the indexes of all tokens
fn renumber(t: &T, idx: &[isize]) -> T {
    let at = |i: isize| if i < 0 { i } else { idx[(i as usize).min(idx.len() - 1)] };
    match t {
        T::Rule { rule, start, stop, kids } => T::Rule { rule: *rule, start: at(*start), stop: at(*stop), kids: kids.iter().map(|k| renumber(k, idx)).collect() },
        T::Tok(i, t) => T::Tok(at(*i), *t),
        T::Err(i, t, s) => T::Err(at(*i), *t, s.clone()),
    }
}

struct Lang {
    name: &'static str,
    lex: Grammar,
    par: Option<Grammar>,
    pieces: Vec<&'static str>,
    len: usize,
    start: usize,
    script: Script,
    /// tokens and errors of the generated lexer
    lexed: fn(&str) -> (Vec<LTok>, Vec<LErr>),
    /// the generated parser: what it shows, and what is wrong with the typed parts
    parsed: Option<fn(&str, &[LTok]) -> Result<Seen, String>>,
    /// bailing out: is there a tree?
    bail: Option<fn(&str) -> Result<Option<T>, String>>,
}

macro_rules! parsed {
    ($text:expr, $lexer:expr, $parser:ident :: $p:ident, $stream:ident, $start:ident, $tree:ident, $show:ident, |$pr:ident| $setup:expr, |$n:ident, $t:ident, $clean:ident| $check:expr) => {{
        let mut lx = $lexer;
        let lex = Rc::new(RefCell::new(vec![]));
        lx.remove_error_listeners();
        lx.add_error_listener(Box::new(LexRec(lex.clone())));
        let mut $pr = $parser::$p::new($stream::new(lx));
        let errs: Errs = Default::default();
        $pr.remove_error_listeners();
        $pr.add_error_listener(Box::new(GRec(errs.clone())));
        $setup;
        let $n = $pr.$start().map_err(|e| format!("no tree: {:?}", e))?;
        let $t = $tree(&*$n);
        let $clean = errs.borrow().is_empty();
        let mut want = String::new();
        $show(&*$n, &mut want);
        let got = $n.to_string_tree(&*$pr);
        if got != want {
            return Err(format!("printed as {:?}, not {:?}", got, want));
        }
        drop($pr);
        $check;
        let (e, l) = (errs.borrow().clone(), lex.borrow().clone());
        Ok(Seen { tree: Some(plain(&$t)), errs: e, lex: l })
    }};
}
macro_rules! bailed {
    ($lexer:expr, $parser:ident :: $p:ident, $start:ident, $tree:ident) => {{
        let mut lx = $lexer;
        lx.remove_error_listeners();
        let mut pr = $parser::$p::with_strategy(CommonTokenStream::new(lx), BailErrorStrategy::new());
        pr.remove_error_listeners();
        let r = pr.$start();
        match r {
            Ok(n) => Ok(Some($tree(&*n))),
            Err(_) => Ok(None),
        }
    }};
}
fn same_events(what: &str, got: &[String], want: &[String]) -> Result<(), String> {
    if got != want {
        return Err(format!("{}: {:?} instead of {:?}", what, got, want));
    }
    Ok(())
}

fn langs(tier: Tier) -> Vec<Lang> {
    vec![
        Lang {
            name: "CSV",
            lex: csv_lexer(),
            par: Some(csv_parser()),
            pieces: vec!["x", ",", "\n", "\r", " ", "\"", "\u{e9}"],
            len: tier.pick(6, 7),
            start: 0,
            script: Script::default(),
            lexed: |s| {
                let tf = ArenaCommonFactory::default();
                lexed!(csvlexer::CSVLexer::new_with_token_factory(InputStream::new(s), &tf))
            },
            parsed: Some(|s, _| {
                let tf = ArenaCommonFactory::default();
                let hear = CsvHear::default();
                parsed!(s, csvlexer::CSVLexer::new_with_token_factory(InputStream::new(s), &tf), csvparser::CSVParser, CommonTokenStream, csvFile, tree_csv, show_csv,
                    |p| { p.add_parse_listener(Box::new(hear.clone())); },
                    |n, t, _clean| {
                        let mut want = vec![];
                        events(&t, &mut want);
                        // supplied tokens are put into the tree without a call
                        let live: Vec<String> = want.iter().filter(|e| !e.starts_with("error -1 ")).cloned().collect();
                        same_events("heard while parsing", &hear.0.borrow(), &live)?;
                        let w = csvparser::CSVTreeWalker::walk(Box::new(CsvHear::default()), &*n);
                        same_events("heard on a walk", &w.0.borrow(), &want)?;
                        same_events("visited", &CsvVisit(vec![]).visit(&*n), &want)?;
                        check_csv(&n, &t)?;
                    })
            }),
            bail: Some(|s| {
                let tf = ArenaCommonFactory::default();
                bailed!(csvlexer::CSVLexer::new_with_token_factory(InputStream::new(s), &tf), csvparser::CSVParser, csvFile, tree_csv)
            }),
        },
        Lang {
            name: "Labels",
            lex: labels_lexer(),
            par: Some(labels_parser()),
            pieces: vec!["a", "1", "*", "+", "(", ")", "-", " "],
            len: tier.pick(6, 7),
            start: 0,
            script: Script::default(),
            lexed: |s| lexed!(labelslexer::LabelsLexer::new(InputStream::new(s))),
            parsed: Some(|s, toks| {
                parsed!(s, labelslexer::LabelsLexer::new(InputStream::new(s)), labelsparser::LabelsParser, CommonTokenStream, s, tree_labels, show_labels, |p| {},
                    |n, t, clean| {
                        use labelsparser::SContextAttrs;
                        let w = labelsparser::LabelsTreeWalker::walk(Box::new(LabHear::default()), &*n);
                        if clean {
                            let mut want = vec![];
                            walked(&t, false, false, &mut want);
                            same_events("heard on a walk", &w.0, &want)?;
                            let text = |i: isize| toks[i as usize].text.clone();
                            let e = n.e().ok_or("no e")?;
                            if !n.q.as_ref().map_or(false, |q| Rc::ptr_eq(q, &e)) {
                                return Err("label q is not the child".into());
                            }
                            match &t {
                                T::Rule { kids, .. } => check_labels(&e, &kids[0], &text)?,
                                _ => return Err("a leaf".into()),
                            }
                        }
                    })
            }),
            bail: Some(|s| bailed!(labelslexer::LabelsLexer::new(InputStream::new(s)), labelsparser::LabelsParser, s, tree_labels)),
        },
        Lang {
            name: "Labels, read unbuffered",
            lex: labels_lexer(),
            par: Some(labels_parser()),
            pieces: vec!["a", "*", "+", "(", ")", " "],
            len: tier.pick(6, 7),
            start: 0,
            script: Script::default(),
            lexed: |s| lexed!(labelslexer::LabelsLexer::new(InputStream::new(s))),
            parsed: Some(|s, toks| {
                parsed!(s, labelslexer::LabelsLexer::new(InputStream::new(s)), labelsparser::LabelsParser, unbuffered, s, tree_labels, show_labels, |p| {},
                    |n, t, clean| {
                        use labelsparser::SContextAttrs;
                        if clean {
                            let text = |i: isize| toks[i as usize].text.clone();
                            match &t {
                                T::Rule { kids, .. } => check_labels(&n.e().ok_or("no e")?, &kids[0], &text)?,
                                _ => return Err("a leaf".into()),
                            }
                        }
                    })
            }),
            bail: None,
        },
        Lang {
            name: "VisitorCalc",
            lex: calc_lexer(),
            par: Some(calc_parser()),
            pieces: vec!["1", "7", "*", "/", "+", "-", " "],
            len: tier.pick(6, 7),
            start: 0,
            script: Script::default(),
            lexed: |s| lexed!(visitorcalclexer::VisitorCalcLexer::new(InputStream::new(s))),
            parsed: Some(|s, toks| {
                parsed!(s, visitorcalclexer::VisitorCalcLexer::new(InputStream::new(s)), visitorcalcparser::VisitorCalcParser, CommonTokenStream, s, tree_calc, show_calc, |p| {},
                    |n, t, clean| {
                        if clean {
                            let w = visitorcalcparser::VisitorCalcTreeWalker::walk(Box::new(CalcHear::default()), &*n);
                            let mut want = vec![];
                            walked(&t, true, true, &mut want);
                            same_events("heard on a walk", &w.0, &want)?;
                            let (a, b) = (Calc(0).visit(&*n), value(&t, &|i| toks[i as usize].text.clone()));
                            if a != b {
                                return Err(format!("the visitor computes {} instead of {}", a, b));
                            }
                        }
                    })
            }),
            bail: Some(|s| bailed!(visitorcalclexer::VisitorCalcLexer::new(InputStream::new(s)), visitorcalcparser::VisitorCalcParser, s, tree_calc)),
        },
        Lang {
            name: "SimpleLR",
            lex: simple_lexer(),
            par: Some(simple_parser()),
            pieces: vec!["a", "b", " ", "\n", "?"],
            len: tier.pick(6, 7),
            start: 1,
            script: Script::default(),
            lexed: |s| lexed!(simplelrlexer::SimpleLRLexer::new(InputStream::new(s))),
            parsed: Some(|s, _| {
                parsed!(s, simplelrlexer::SimpleLRLexer::new(InputStream::new(s)), simplelrparser::SimpleLRParser, CommonTokenStream, a, tree_simple, show_simple, |p| {}, |n, t, clean| {
                    use simplelrparser::AContextAttrs;
                    if clean {
                        // the operand is the inner rule, the token the last one
                        let (mut n, mut t) = (n, &t);
                        while let T::Rule { kids, .. } = t {
                            let last = kids.last().unwrap();
                            if n.ID().map(|x| T::Tok(x.symbol.get_token_index(), 1)).as_ref() != Some(last) || n.a().is_some() != (kids.len() == 2) {
                                return Err(format!("accessors of {}", t.show()));
                            }
                            match n.a() {
                                Some(x) => n = x,
                                None => break,
                            }
                            t = &kids[0];
                        }
                    }
                })
            }),
            bail: Some(|s| bailed!(simplelrlexer::SimpleLRLexer::new(InputStream::new(s)), simplelrparser::SimpleLRParser, a, tree_simple)),
        },
        Lang {
            name: "VisitorBasic",
            lex: basic_lexer(),
            par: Some(basic_parser()),
            pieces: vec!["A", "x"],
            len: tier.pick(7, 10),
            start: 0,
            script: Script::default(),
            lexed: |s| lexed!(visitorbasiclexer::VisitorBasicLexer::new(InputStream::new(s))),
            parsed: Some(|s, _| {
                parsed!(s, visitorbasiclexer::VisitorBasicLexer::new(InputStream::new(s)), visitorbasicparser::VisitorBasicParser, CommonTokenStream, s, tree_basic, show_basic, |p| {}, |n, t, clean| {
                    use visitorbasicparser::SContextAttrs;
                    let (mut a, mut e) = (None, None);
                    if let T::Rule { kids, .. } = &t {
                        for k in kids {
                            match k {
                                T::Tok(i, 1) => { a.get_or_insert(*i); }
                                T::Tok(i, -1) => { e.get_or_insert(*i); }
                                _ => {}
                            }
                        }
                    }
                    if n.A().map(|x| x.symbol.get_token_index()) != a || n.EOF().map(|x| x.symbol.get_token_index()) != e || (clean && e.is_none()) {
                        return Err(format!("accessors of {}", t.show()));
                    }
                })
            }),
            bail: Some(|s| bailed!(visitorbasiclexer::VisitorBasicLexer::new(InputStream::new(s)), visitorbasicparser::VisitorBasicParser, s, tree_basic)),
        },
        Lang {
            name: "XMLLexer",
            lex: xml_lexer(),
            par: None,
            pieces: vec!["<", ">", "!", "--", "?", "xml", "/", "f", "=", "\"", "'", "&", ";", "#", "x9", "[CDATA[", "]]>", " ", "\n", "\u{b7}", "\u{3042}"],
            len: tier.pick(4, 5),
            start: 0,
            script: Script { acts: vec![Act::Pop], preds: vec![LPred::Const(true)], at: None, emit_shift: 0 },
            lexed: |s| lexed!(xmllexer::XMLLexer::new(InputStream::new(s))),
            parsed: None,
            bail: None,
        },
    ]
}
use unbuffered_mod::unbuffered;
mod unbuffered_mod {
    #[allow(non_camel_case_types)]
    pub struct unbuffered;
}
impl unbuffered {
    fn new<'i, S: TokenSource<'i>>(s: S) -> UnbufferedTokenStream<'i, S> {
        UnbufferedTokenStream::new_unbuffered(s)
    }
}

struct Machine {
    ll: Loaded,
    lp: Option<(Loaded, Loaded, Loaded)>,
    rp: Option<RProg>,
}
impl Machine {
    fn new(l: &Lang) -> Machine {
        let lp = l.par.as_ref().map(|g| Loaded::new(compile(g)));
        let rp = lp.as_ref().map(|p| RProg::new(&p.prog));
        Machine { ll: Loaded::new(compile(&l.lex)), lp: lp.map(|p| (p.fresh(), p.fresh(), p)), rp }
    }
}

/// Err: what is wrong
fn check(l: &Lang, m: &Machine, text: &str, st: &mut Stats) -> Result<(), String> {
    let chars: Vec<i32> = text.chars().map(|c| c as i32).collect();
    let mut off: Vec<isize> = text.char_indices().map(|x| x.0 as isize).collect();
    off.push(text.len() as isize);
    let mut steps = 0;
    let want = at_offsets(RLex::new(&l.lex).lex(&chars, &l.script, &mut steps), &off);
    st.states += steps;
    let (toks, errs) = (l.lexed)(text);
    if toks != want.toks {
        return Err(format!("the generated lexer gives {:?}\ninstead of {:?}", toks, want.toks));
    }
    if errs != want.errs {
        return Err(format!("the generated lexer reports {:?}\ninstead of {:?}", errs, want.errs));
    }
    let own = lex(&m.ll, text, &l.script);
    if own.toks != toks || own.errs != errs {
        return Err(format!("the interpreted lexer gives {:?} {:?}\nthe generated one {:?} {:?}", own.toks, own.errs, toks, errs));
    }
    st.transitions += toks.len() as u64;
    st.outcome(&toks.iter().map(|t| (t.ty, t.ch)).collect::<Vec<_>>());
    let (lp, rp) = match (&m.lp, &m.rp) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    let seen = (l.parsed.unwrap())(text, &toks)?;
    if !errs.starts_with(&seen.lex) {
        return Err(format!("lexer errors while parsing: {:?}", seen.lex));
    }
    let mut cfg = Cfg::new(Mode::LL).ll1().labels();
    cfg.start = l.start;
    for (what, p, cfg) in [("", &lp.0, cfg.clone()), (", all decisions by prediction", &lp.1, { let mut c = Cfg::new(Mode::LL); c.start = l.start; c })] {
        let (o, le) = lex_parse(&m.ll, p, text, &cfg);
        let own = Seen { tree: o.tree.as_ref().map(plain), errs: o.errors.iter().map(|e| (e.tok, e.line, e.col)).collect(), lex: le };
        // where every decision is predicted, errors may be told apart in other ways
        if what.is_empty() || own.errs.is_empty() || seen.errs.is_empty() {
            if own != seen {
                return Err(format!("the interpreter{} gives {:?}\nthe generated parser {:?}", what, own, seen));
            }
        }
        st.transitions += o.decs.len() as u64;
    }
    st.outcome(&seen);
    let chan: Vec<&LTok> = toks.iter().enumerate().map(|(i, t)| (i, t)).filter(|(_, t)| t.ch == 0).map(|x| x.1).collect();
    let idx: Vec<isize> = toks.iter().enumerate().filter(|(_, t)| t.ch == 0).map(|x| x.0 as isize).collect();
    let tys: Vec<i32> = chan.iter().map(|t| t.ty).filter(|t| *t != EOF).collect();
    let mut r = Ref::new(rp, &tys);
    let tree = r.derive(l.start).map(|t| renumber(&t, &idx));
    st.states += r.states as u64;
    match &tree {
        Some(t) => {
            if !seen.errs.is_empty() || seen.tree.as_ref() != Some(t) {
                return Err(format!("a sentence with the tree {:?}\nthe generated parser gives {:?}", t, seen));
            }
        }
        None => {
            let whole = l.name.starts_with("Visitor");
            if whole && seen.errs.is_empty() {
                return Err(format!("not a sentence, but no error: {:?}", seen));
            }
        }
    }
    if let Some(b) = l.bail {
        let got = b(text)?;
        let ok = if seen.errs.is_empty() { got.as_ref() == seen.tree.as_ref() } else { got.is_none() };
        if !ok {
            return Err(format!("bailing out gives {:?}, recovering {:?}", got, seen));
        }
    }
    if tree.is_some() && text.len() > 2 {
        st.sample(|| format!("{} {:?} -> {}", l.name, text, seen.tree.as_ref().unwrap().show()));
    }
    Ok(())
}

fn texts(pieces: &[&'static str], n: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..n {
        last = last.iter().flat_map(|p| pieces.iter().map(move |x| format!("{}{}", p, x))).collect();
        all.extend(last.iter().cloned());
    }
    all
}

/// whatever is printed by `f`, which must be the only thing printing
fn printed<X>(f: impl FnOnce() -> X) -> (X, String) {
    use std::io::{Read, Seek, Write};
    use std::os::fd::FromRawFd;
    let mut out = std::io::stdout();
    out.flush().unwrap();
    let (mut file, old) = unsafe {
        let fd = libc::memfd_create(b"out\0".as_ptr() as *const _, 0);
        let old = libc::dup(1);
        assert!(fd >= 0 && old >= 0);
        libc::dup2(fd, 1);
        (std::fs::File::from_raw_fd(fd), old)
    };
    let x = f();
    out.flush().unwrap();
    unsafe {
        libc::dup2(old, 1);
        libc::close(old);
    }
    let mut text = String::new();
    file.rewind().unwrap();
    file.read_to_string(&mut text).unwrap();
    (x, text)
}
/// ReferenceToATN prints the text of its rule
fn refatn(tier: Tier) -> Plan {
    let (pieces, len) = (["a", "1", "b2", " ", "\n", "?"], tier.pick(5, 6));
    let l = Lang {
        name: "ReferenceToATN",
        lex: refatn_lexer(),
        par: Some(refatn_parser()),
        pieces: pieces.to_vec(),
        len,
        start: 0,
        script: Script::default(),
        lexed: |s| lexed!(referencetoatnlexer::ReferenceToATNLexer::new_with_token_factory(InputStream::new(s), &antlr_rust::token_factory::OwningTokenFactory)),
        parsed: Some(|s, toks| {
            parsed!(s, referencetoatnlexer::ReferenceToATNLexer::new_with_token_factory(InputStream::new(s), &antlr_rust::token_factory::OwningTokenFactory), referencetoatnparser::ReferenceToATNParser, CommonTokenStream, a, tree_refatn, show_refatn, |p| {}, |n, t, clean| {
                use referencetoatnparser::AContextAttrs;
                let ids: Vec<isize> = (0..).map_while(|k| n.ID(k)).map(|x| x.symbol.get_token_index()).collect();
                let atns: Vec<isize> = (0..).map_while(|k| n.ATN(k)).map(|x| x.symbol.get_token_index()).collect();
                let of = |ty: i32| toks.iter().enumerate().filter(|x| x.1.ty == ty).map(|x| x.0 as isize).collect::<Vec<_>>();
                if !clean || ids != of(1) || atns != of(2) || n.ID_all().len() < ids.len() {
                    return Err(format!("tokens {:?} {:?} of {}", ids, atns, t.show()));
                }
            })
        }),
        bail: Some(|s| bailed!(referencetoatnlexer::ReferenceToATNLexer::new_with_token_factory(InputStream::new(s), &antlr_rust::token_factory::OwningTokenFactory), referencetoatnparser::ReferenceToATNParser, a, tree_refatn)),
    };
    plan("generated ReferenceToATN", format!("all texts of up to {} of the pieces {:?}; what the embedded action prints", len, pieces), 1, move |_, st| {
        let m = Machine::new(&l);
        let all = texts(&l.pieces, l.len);
        let (r, out) = printed(|| {
            guard(std::panic::AssertUnwindSafe(|| {
                for t in &all {
                    beat();
                    st.traces += 1;
                    check(&l, &m, t, st).map_err(|e| (t.clone(), e))?;
                }
                Ok(())
            }))
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err((t, e))) => return st.fail(format!("{} {:?}", l.name, t), format!("{} {:?}: {}", l.name, t, e)),
            Err(e) => return st.fail(l.name, format!("{}: panic {}", l.name, e)),
        }
        // once recovering and once bailing out
        let want: Vec<String> = all.iter().flat_map(|t| vec![t.chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>(); 2]).collect();
        for (i, (a, b)) in want.iter().zip(out.lines()).enumerate() {
            if a != b {
                return st.fail(format!("{} {:?}", l.name, all[i / 2]), format!("{} {:?}: the text of the rule is printed as {:?}, not {:?}", l.name, all[i / 2], b, a));
            }
        }
        if out.lines().count() != want.len() {
            st.fail(l.name, format!("{} lines printed instead of {}", out.lines().count(), want.len()));
        }
    })
}

pub fn c34(tier: Tier) -> Vec<Plan> {
    let mut v = vec![refatn(tier)];
    for l in langs(tier) {
        let k = l.pieces.len();
        // a case: all texts with a certain beginning
        let n = k * k + 1;
        let name = format!("generated {}", l.name);
        let bounds = format!("all texts of up to {} of the {} pieces {:?}", l.len, k, l.pieces);
        let l = Arc::new(l);
        v.push(plan(name, bounds, n, move |case, st| {
            let m = Machine::new(&l);
            let (head, len) = if case == 0 { (String::new(), 1) } else { (format!("{}{}", l.pieces[(case - 1) / k], l.pieces[(case - 1) % k]), l.len - 2) };
            for rest in texts(&l.pieces, len) {
                let text = format!("{}{}", head, rest);
                st.traces += 1;
                let r = guard(std::panic::AssertUnwindSafe(|| check(&l, &m, &text, st)));
                match r {
                    Ok(Ok(())) => {}
                    Ok(Err(e)) => st.fail(format!("{} {:?}", l.name, text), format!("{} {:?}: {}", l.name, text, e)),
                    Err(e) => st.fail(format!("{} {:?}", l.name, text), format!("{} {:?}: panic {}", l.name, text, e)),
                }
                if st.failed() {
                    return;
                }
            }
        }));
    }
    v
}
