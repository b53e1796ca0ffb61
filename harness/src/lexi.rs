//! Drives the runtime's lexer on a compiled lexer grammar, over any input and token factory.
use crate::interp::Loaded;
use antlr_rust::char_stream::{CharStream, InputData};
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::errors::ANTLRError;
use antlr_rust::int_stream::IntStream;
use antlr_rust::lexer::{BaseLexer, Lexer, LexerRecog};
use antlr_rust::lexer_atn_simulator::{ILexerATNSimulator, LexerATNSimulator};
use antlr_rust::parser::ParserNodeType;
use antlr_rust::recognizer::Actions;
use antlr_rust::rule_context::EmptyContextType;
use antlr_rust::token::Token;
use antlr_rust::token_factory::TokenFactory;
use antlr_rust::token_stream::TokenStream;
use antlr_rust::TokenSource;
use std::borrow::Borrow;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct LTok {
    pub ty: i32,
    pub ch: i32,
    pub text: String,
    pub start: isize,
    pub stop: isize,
    pub line: isize,
    pub col: isize,
    pub index: isize,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct LErr {
    pub line: isize,
    pub col: isize,
    pub msg: String,
    pub start: isize,
}
/// an embedded action that ran: rule, action, input position, text of the token so far
pub type LAct = (i32, i32, isize, String);
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct LOut {
    pub toks: Vec<LTok>,
    pub errs: Vec<LErr>,
    pub acts: Vec<LAct>,
    /// positions at which predicates were evaluated
    pub preds: Vec<(i32, i32, isize)>,
    pub modes: (usize, Vec<usize>),
}

/// what the embedded action with an index does (besides being logged)
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    Log,
    Type(i32),
    Channel(i32),
    Text(String),
    Token(i32),
    Push(usize),
    Pop,
    Skip,
    More,
}
/// value of the predicate with an index
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum LPred {
    Const(bool),
    /// input position (in symbols consumed) is even
    Even,
    /// the next symbol is this one
    Next(i32),
    /// some token was produced before
    Flag,
    /// column plus twice the line is divisible by three
    At,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Script {
    pub acts: Vec<Act>,
    pub preds: Vec<LPred>,
    /// initial line and column
    pub at: Option<(isize, isize)>,
    /// type of every token raised by this in before_emit (0: none)
    pub emit_shift: i32,
}

pub struct VActs {
    script: Script,
    acts: Vec<LAct>,
    preds: Vec<(i32, i32, isize)>,
    /// tokens handed out so far
    count: usize,
}
type LB<'i, I, TF> = BaseLexer<'i, VActs, I, TF>;

impl<'i, I, TF> Actions<'i, LB<'i, I, TF>> for VActs
where
    I: CharStream<TF::From>,
    TF: TokenFactory<'i>,
{
    fn sempred(_c: Option<&<EmptyContextType<'i, TF> as ParserNodeType<'i>>::Type>, rule: isize, idx: isize, r: &mut LB<'i, I, TF>) -> bool {
        let at = r.get_char_index();
        r.preds.push((rule as i32, idx as i32, at));
        match r.script.preds[idx as usize] {
            LPred::Const(b) => b,
            LPred::Even => at % 2 == 0,
            LPred::Next(c) => r.input.as_mut().unwrap().la(1) == c as isize,
            LPred::Flag => r.count > 0,
            LPred::At => (r.get_char_position_in_line() + 2 * r.get_line()) % 3 == 0,
        }
    }
    fn action(_c: Option<&<EmptyContextType<'i, TF> as ParserNodeType<'i>>::Type>, rule: isize, idx: isize, r: &mut LB<'i, I, TF>) {
        let at = r.get_char_index();
        let text = if at > r.token_start_char_index || r.text.is_some() { r.get_text().to_display() } else { String::new() };
        r.acts.push((rule as i32, idx as i32, at, text));
        let act = if idx < 0 { Act::Log } else { r.script.acts[idx as usize].clone() };
        match act {
            Act::Log => {}
            Act::Type(t) => r.set_type(t as isize),
            Act::Channel(c) => r.set_channel(c as isize),
            Act::Text(t) => r.set_text(<TF::Data as InputData>::from_text(&t)),
            Act::Token(t) => {
                let (s, l, c) = (r.token_start_char_index, r.token_start_line, r.token_start_column);
                let tok = r.get_token_factory().create(None::<&mut I>, t as isize, Some(<TF::Data as InputData>::from_text("own")), 0, s, at - 1, l, c);
                r.token = Some(tok);
            }
            Act::Push(m) => r.push_mode(m),
            Act::Pop => {
                r.pop_mode();
            }
            Act::Skip => r.skip(),
            Act::More => r.more(),
        }
    }
}
impl<'i, I, TF> LexerRecog<'i, LB<'i, I, TF>> for VActs
where
    I: CharStream<TF::From>,
    TF: TokenFactory<'i>,
{
    fn before_emit(r: &mut LB<'i, I, TF>) {
        r.token_type += r.script.emit_shift as isize;
    }
}

struct LRec {
    errs: Rc<RefCell<Vec<LErr>>>,
}
impl<'i, I, TF> ErrorListener<'i, LB<'i, I, TF>> for LRec
where
    I: CharStream<TF::From>,
    TF: TokenFactory<'i> + 'i,
{
    fn syntax_error(&self, _r: &LB<'i, I, TF>, _t: Option<&TF::Inner>, line: isize, col: isize, msg: &str, e: Option<&ANTLRError>) {
        let start = match e {
            Some(ANTLRError::LexerNoAltError { start_index }) => *start_index,
            _ => -99,
        };
        self.errs.borrow_mut().push(LErr { line, col, msg: msg.to_string(), start });
    }
}

pub fn ltok<T: Token + ?Sized>(t: &T) -> LTok {
    LTok {
        ty: t.get_token_type() as i32,
        ch: t.get_channel() as i32,
        text: t.get_text().to_display(),
        start: t.get_start(),
        stop: t.get_stop(),
        line: t.get_line(),
        col: t.get_column(),
        index: t.get_token_index(),
    }
}

fn make<'i, I, TF>(l: &Loaded, input: I, tf: &'i TF, script: &Script) -> (LB<'i, I, TF>, Rc<RefCell<Vec<LErr>>>)
where
    I: CharStream<TF::From> + 'i,
    TF: TokenFactory<'i> + 'i,
{
    let sim = LexerATNSimulator::new_lexer_atnsimulator(l.atn.clone(), l.dfas.clone(), l.cache.clone());
    let acts = VActs { script: script.clone(), acts: vec![], preds: vec![], count: 0 };
    let mut lx = BaseLexer::new_base_lexer(input, sim, acts, tf);
    let errs = Rc::new(RefCell::new(vec![]));
    lx.remove_error_listeners();
    lx.add_error_listener(Box::new(LRec { errs: errs.clone() }));
    if let Some((line, col)) = script.at {
        let s = lx.interpreter.as_mut().unwrap();
        s.set_line(line);
        s.set_char_position_in_line(col);
    }
    (lx, errs)
}

/// an input that remembers how far it has been looked at
pub struct Far<I> {
    pub inner: I,
    pub far: Rc<std::cell::Cell<isize>>,
}
impl<I: IntStream> IntStream for Far<I> {
    fn consume(&mut self) {
        self.inner.consume()
    }
    fn la(&mut self, i: isize) -> isize {
        if i > 0 {
            self.far.set(self.far.get().max(self.inner.index() + i - 1));
        }
        self.inner.la(i)
    }
    fn mark(&mut self) -> isize {
        self.inner.mark()
    }
    fn release(&mut self, m: isize) {
        self.inner.release(m)
    }
    fn index(&self) -> isize {
        self.inner.index()
    }
    fn seek(&mut self, i: isize) {
        self.inner.seek(i)
    }
    fn size(&self) -> isize {
        self.inner.size()
    }
    fn get_source_name(&self) -> String {
        self.inner.get_source_name()
    }
}
impl<D, I: CharStream<D>> CharStream<D> for Far<I> {
    fn get_text(&self, a: isize, b: isize) -> D {
        self.inner.get_text(a, b)
    }
}
/// with the furthest offset looked at by the end of every token
pub fn lex_far(l: &Loaded, text: &str, script: &Script) -> (LOut, Vec<isize>) {
    let tf: &'static antlr_rust::token_factory::CommonTokenFactory = &antlr_rust::token_factory::CommonTokenFactory;
    let far = Rc::new(std::cell::Cell::new(-1));
    let mut v = vec![];
    let o = lex_each(l, Far { inner: antlr_rust::InputStream::new(text), far: far.clone() }, tf, script, &mut || v.push(far.get()));
    (o, v)
}
/// every token up to the first end of file, then one more call
pub fn lex_with<'i, I, TF>(l: &Loaded, input: I, tf: &'i TF, script: &Script) -> LOut
where
    I: CharStream<TF::From> + 'i,
    TF: TokenFactory<'i> + 'i,
{
    lex_each(l, input, tf, script, &mut || {})
}
fn lex_each<'i, I, TF>(l: &Loaded, input: I, tf: &'i TF, script: &Script, each: &mut dyn FnMut()) -> LOut
where
    I: CharStream<TF::From> + 'i,
    TF: TokenFactory<'i> + 'i,
{
    let size = input.size() as usize;
    let (mut lx, errs) = make(l, input, tf, script);
    let mut o = LOut::default();
    loop {
        let t = lx.next_token();
        each();
        lx.count += 1;
        let t: &TF::Inner = t.borrow();
        o.toks.push(ltok(t));
        if t.get_token_type() == -1 {
            break;
        }
        if o.toks.len() > 2 * size + 4 {
            panic!("lexer does not stop: {:?}", o.toks);
        }
    }
    let t = lx.next_token();
    let t: &TF::Inner = t.borrow();
    if t.get_token_type() != -1 {
        panic!("token {:?} after the end of file", ltok(t));
    }
    o.acts = std::mem::take(&mut lx.acts);
    o.preds = std::mem::take(&mut lx.preds);
    o.modes = (lx.mode, lx.mode_stack.clone());
    o.errs = RefCell::borrow(&errs).clone();
    o
}
/// what two error listeners are told, and what a removed one is
pub fn lex_twin(l: &Loaded, text: &str) -> (Vec<LErr>, Vec<LErr>, Vec<LErr>) {
    let tf: &'static antlr_rust::token_factory::CommonTokenFactory = &antlr_rust::token_factory::CommonTokenFactory;
    let script = Script::default();
    let (mut lx, errs) = make(l, antlr_rust::InputStream::new(text), tf, &script);
    let twin = Rc::new(RefCell::new(vec![]));
    lx.add_error_listener(Box::new(LRec { errs: twin.clone() }));
    while lx.next_token().get_token_type() != -1 {}
    let (mut gone, old) = make(l, antlr_rust::InputStream::new(text), tf, &script);
    gone.remove_error_listeners();
    while gone.next_token().get_token_type() != -1 {}
    let v = |x: &Rc<RefCell<Vec<LErr>>>| RefCell::borrow(x).clone();
    (v(&errs), v(&twin), v(&old))
}
/// the same through a buffered token stream, tokens with their indices
pub fn lex_stream<'i, I, TF>(l: &Loaded, input: I, tf: &'i TF, script: &Script) -> Vec<LTok>
where
    I: CharStream<TF::From> + 'i,
    TF: TokenFactory<'i> + 'i,
{
    let (lx, _errs) = make(l, input, tf, script);
    let mut s = CommonTokenStream::with_channel(lx, 0);
    let mut i = 0;
    let mut v = vec![];
    loop {
        // fetch by looking ahead until index i is there
        let mut k = 1;
        while s.size() <= i {
            if s.la(k) == -1 {
                break;
            }
            k += 1;
        }
        if s.size() <= i {
            return v;
        }
        let t: &TF::Inner = s.get(i).borrow();
        v.push(ltok(t));
        i += 1;
    }
}
pub fn lex(l: &Loaded, text: &str, script: &Script) -> LOut {
    let tf = antlr_rust::token_factory::CommonTokenFactory;
    // the factory is stateless; a static one serves all
    let tf: &'static antlr_rust::token_factory::CommonTokenFactory = {
        let _ = tf;
        &antlr_rust::token_factory::CommonTokenFactory
    };
    lex_with(l, antlr_rust::InputStream::new(text), tf, script)
}

/// a lexer as the token source of a parser
pub struct LexSource<'i> {
    lx: LB<'i, antlr_rust::InputStream<&'i str>, antlr_rust::token_factory::CommonTokenFactory>,
}
antlr_rust::tid! { LexSource<'i> }
impl<'i> TokenSource<'i> for LexSource<'i> {
    type TF = antlr_rust::token_factory::CommonTokenFactory;
    fn next_token(&mut self) -> <Self::TF as TokenFactory<'i>>::Tok {
        self.lx.next_token()
    }
    fn get_line(&self) -> isize {
        self.lx.get_line()
    }
    fn get_char_position_in_line(&self) -> isize {
        self.lx.get_char_position_in_line()
    }
    fn get_input_stream(&mut self) -> Option<&mut dyn IntStream> {
        self.lx.get_input_stream()
    }
    fn get_source_name(&self) -> String {
        self.lx.get_source_name()
    }
    fn get_token_factory(&self) -> &'i antlr_rust::token_factory::CommonTokenFactory {
        self.lx.get_token_factory()
    }
}
/// a text through the lexer and the parser
pub fn lex_parse(ll: &Loaded, lp: &Loaded, text: &str, cfg: &crate::interp::Cfg) -> (crate::interp::Out, Vec<LErr>) {
    let tf: &'static antlr_rust::token_factory::CommonTokenFactory = &antlr_rust::token_factory::CommonTokenFactory;
    let (lx, errs) = make(ll, antlr_rust::InputStream::new(text), tf, &Script::default());
    let o = crate::interp::parse_with(lp, CommonTokenStream::new(LexSource { lx }), cfg, &mut |_, _| {});
    let e = RefCell::borrow(&errs).clone();
    (o, e)
}
