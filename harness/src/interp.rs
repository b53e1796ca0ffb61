//! A parser that executes a compiled grammar against the runtime with exactly the calls
//! that the code generated by the ANTLR tool makes, and records everything observable.
use crate::grammar::{Compiled, C, El};
use antlr_rust::atn::{ATN, INVALID_ALT};
use antlr_rust::atn_config_set::ATNConfigSet;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::dfa::DFA;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::error_strategy::{BailErrorStrategy, DefaultErrorStrategy, ErrorStrategy};
use antlr_rust::errors::*;
use antlr_rust::int_stream::IntStream;
use antlr_rust::parser::{BaseParser, Parser, ParserNodeType, ParserRecog};
use antlr_rust::parser_atn_simulator::ParserATNSimulator;
use antlr_rust::parser_rule_context::{BaseParserRuleContext, ParserRuleContext};
use antlr_rust::recognizer::{Actions, Recognizer};
use antlr_rust::rule_context::{CustomRuleContext, RuleContext};
use antlr_rust::token::{Token, TOKEN_EOF};
use antlr_rust::token_factory::{CommonTokenFactory, TokenAware, TokenFactory};
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::tree::*;
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};
use antlr_rust::{CoerceTo, PredictionContextCache, PredictionMode, RwLock, TidAble, TidExt, TokenSource};
use bit_set::BitSet;

use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

// ------------------------------------------------------------------ token source ------

/// A token of a scripted token source: type, channel, text.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct STok {
    pub ty: i32,
    pub ch: i32,
    pub text: String,
}

pub fn tok_text(t: i32) -> String {
    if t >= 1 && t <= 26 {
        ((b'a' + (t - 1) as u8) as char).to_string()
    } else {
        format!("<{}>", t)
    }
}
pub fn stoks(ts: &[i32]) -> Vec<STok> {
    ts.iter().map(|t| STok { ty: *t, ch: 0, text: tok_text(*t) }).collect()
}

thread_local! {
    /// tokens that were asked of this thread's last `ListSource`
    pub static FETCHED: Cell<usize> = const { Cell::new(0) };
}
#[derive(Debug)]
pub struct ListSource<'i> {
    toks: &'i [STok],
    pos: usize,
    off: isize,
    pub fetched: usize,
}
/// the line a token of a list is said to be on; its column is its index
pub fn line_of(index: isize) -> isize {
    index + 5
}
impl<'i> ListSource<'i> {
    pub fn new(toks: &'i [STok]) -> Self {
        FETCHED.with(|x| x.set(0));
        ListSource { toks, pos: 0, off: 0, fetched: 0 }
    }
}
antlr_rust::tid! { ListSource<'i> }
impl<'i> TokenSource<'i> for ListSource<'i> {
    type TF = CommonTokenFactory;
    fn next_token(&mut self) -> <Self::TF as TokenFactory<'i>>::Tok {
        self.fetched += 1;
        FETCHED.with(|x| x.set(x.get() + 1));
        let f: &'i CommonTokenFactory = Default::default();
        let (ty, ch, text) = match self.toks.get(self.pos) {
            Some(t) => (t.ty as isize, t.ch as isize, t.text.clone()),
            None => (TOKEN_EOF, 0, String::new()),
        };
        let n = text.chars().count() as isize;
        let start = self.off;
        let col = self.pos as isize;
        self.pos = (self.pos + 1).min(self.toks.len() + 1);
        self.off += n;
        f.create(
            None::<&mut antlr_rust::InputStream<&'i str>>,
            ty,
            Some(text),
            ch,
            start,
            start + n - 1,
            line_of(col),
            col,
        )
    }
    fn get_line(&self) -> isize {
        line_of(self.pos as isize)
    }
    fn get_char_position_in_line(&self) -> isize {
        self.pos as isize
    }
    fn get_input_stream(&mut self) -> Option<&mut dyn IntStream> {
        None
    }
    fn get_source_name(&self) -> String {
        "list".into()
    }
    fn get_token_factory(&self) -> &'i CommonTokenFactory {
        Default::default()
    }
}

// ------------------------------------------------------------------ node types --------

pub trait VNode<'i>:
    for<'x> Listenable<dyn VListener<'i> + 'x> + ParserRuleContext<'i, TF = CommonTokenFactory, Ctx = VCtxType>
    + for<'x> Visitable<dyn VVisitor<'i> + 'x>
{
}
antlr_rust::coerce_from! { 'i : VNode<'i> }
impl<'i> VNode<'i> for TerminalNode<'i, VCtxType> {}
impl<'i> VNode<'i> for ErrorNode<'i, VCtxType> {}
antlr_rust::tid! { impl<'i> TidAble<'i> for dyn VNode<'i> + 'i }

pub trait VListener<'i>: ParseTreeListener<'i, VCtxType> {}
antlr_rust::coerce_from! { 'i : VListener<'i> }
antlr_rust::tid! { impl<'i> TidAble<'i> for dyn VListener<'i> + 'i }

pub trait VVisitor<'i>: ParseTreeVisitor<'i, VCtxType> {
    fn visit_rule(&mut self, ctx: &Node<'i>) {
        self.visit_children(ctx)
    }
}
impl<'i, T> VisitableDyn<T> for dyn VNode<'i> + 'i
where
    T: VVisitor<'i> + 'i,
{
    fn accept_dyn(&self, visitor: &mut T) {
        self.accept(visitor as &mut (dyn VVisitor<'i> + 'i))
    }
}

pub struct VCtxType;
antlr_rust::tid! {VCtxType}
impl<'i> ParserNodeType<'i> for VCtxType {
    type TF = CommonTokenFactory;
    type Type = dyn VNode<'i> + 'i;
}

/// context of a rule before an alternative with a label is known
pub type VPlain<'i> = BaseParserRuleContext<'i, VRuleExt<'i>>;
#[derive(Clone)]
pub struct VRuleExt<'i> {
    pub rule: usize,
    /// the rule's alternatives are labelled: only their contexts have listener methods
    pub silent: bool,
    ph: std::marker::PhantomData<&'i str>,
}
antlr_rust::tid! {VRuleExt<'a>}
impl<'i> VNode<'i> for VPlain<'i> {}
impl<'i> CustomRuleContext<'i> for VRuleExt<'i> {
    type TF = CommonTokenFactory;
    type Ctx = VCtxType;
    fn get_rule_index(&self) -> usize {
        self.rule
    }
}
/// context of an alternative with a label
pub type VLab<'i> = BaseParserRuleContext<'i, VLabExt<'i>>;
pub struct VLabExt<'i> {
    base: VRuleExt<'i>,
    pub label: usize,
}
antlr_rust::tid! {VLabExt<'a>}
impl<'i> VNode<'i> for VLab<'i> {}
impl<'i> CustomRuleContext<'i> for VLabExt<'i> {
    type TF = CommonTokenFactory;
    type Ctx = VCtxType;
    fn get_rule_index(&self) -> usize {
        self.base.rule
    }
}
impl<'i> std::borrow::Borrow<VRuleExt<'i>> for VLab<'i> {
    fn borrow(&self) -> &VRuleExt<'i> {
        &self.base
    }
}
pub trait VAttrs<'i>: VNode<'i> + std::borrow::Borrow<VRuleExt<'i>> {}
impl<'i> VAttrs<'i> for VPlain<'i> {}
impl<'i> VAttrs<'i> for VLab<'i> {}
/// the sum type generated code makes of a rule's contexts
pub enum VRule<'i> {
    Lab(VLab<'i>),
    Error(VPlain<'i>),
}
antlr_rust::tid! {VRule<'a>}
impl<'i> antlr_rust::parser_rule_context::DerefSeal for VRule<'i> {}
impl<'i> VNode<'i> for VRule<'i> {}
impl<'i> std::ops::Deref for VRule<'i> {
    type Target = dyn VAttrs<'i> + 'i;
    fn deref(&self) -> &Self::Target {
        match self {
            VRule::Lab(x) => x,
            VRule::Error(x) => x,
        }
    }
}
impl<'i> std::fmt::Debug for VRule<'i> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("VRule")
    }
}
impl<'i, 'a> Listenable<dyn VListener<'i> + 'a> for VPlain<'i> {
    fn enter(&self, l: &mut (dyn VListener<'i> + 'a)) {
        if !self.silent {
            l.enter_every_rule(self);
        }
    }
    fn exit(&self, l: &mut (dyn VListener<'i> + 'a)) {
        if !self.silent {
            l.exit_every_rule(self);
        }
    }
}
impl<'i, 'a> Listenable<dyn VListener<'i> + 'a> for VLab<'i> {
    fn enter(&self, l: &mut (dyn VListener<'i> + 'a)) {
        l.enter_every_rule(self);
    }
    fn exit(&self, l: &mut (dyn VListener<'i> + 'a)) {
        l.exit_every_rule(self);
    }
}
impl<'i, 'a> Listenable<dyn VListener<'i> + 'a> for VRule<'i> {
    fn enter(&self, l: &mut (dyn VListener<'i> + 'a)) {
        std::ops::Deref::deref(self).enter(l)
    }
    fn exit(&self, l: &mut (dyn VListener<'i> + 'a)) {
        std::ops::Deref::deref(self).exit(l)
    }
}
impl<'i, 'a> Visitable<dyn VVisitor<'i> + 'a> for VPlain<'i> {
    fn accept(&self, visitor: &mut (dyn VVisitor<'i> + 'a)) {
        visitor.visit_rule(self)
    }
}
impl<'i, 'a> Visitable<dyn VVisitor<'i> + 'a> for VLab<'i> {
    fn accept(&self, visitor: &mut (dyn VVisitor<'i> + 'a)) {
        visitor.visit_rule(self)
    }
}
impl<'i, 'a> Visitable<dyn VVisitor<'i> + 'a> for VRule<'i> {
    fn accept(&self, visitor: &mut (dyn VVisitor<'i> + 'a)) {
        std::ops::Deref::deref(self).accept(visitor)
    }
}
pub type Node<'i> = dyn VNode<'i> + 'i;
pub fn new_ctx<'i>(parent: Option<Rc<Node<'i>>>, state: isize, rule: usize) -> Rc<VRule<'i>> {
    ctx_of(parent, state, rule, false)
}
fn ctx_of<'i>(parent: Option<Rc<Node<'i>>>, state: isize, rule: usize, silent: bool) -> Rc<VRule<'i>> {
    Rc::new(VRule::Error(BaseParserRuleContext::new_parser_ctx(parent, state, VRuleExt { rule, silent, ph: Default::default() })))
}
/// the context of a labelled alternative made from the rule's
pub fn lab_ctx<'i>(ctx: &(dyn VAttrs<'i> + 'i), label: usize) -> Rc<VRule<'i>> {
    let base = <dyn VAttrs<'i> + 'i as std::borrow::Borrow<VRuleExt<'i>>>::borrow(ctx).clone();
    Rc::new(VRule::Lab(BaseParserRuleContext::copy_from(ctx, VLabExt { base, label })))
}

// ------------------------------------------------------------------ extension ---------

pub const RULE_NAMES: [&str; 10] = ["r0", "r1", "r2", "r3", "r4", "r5", "r6", "r7", "r8", "r9"];

pub fn vocab() -> &'static VocabularyImpl {
    static V: OnceLock<SyncVoc> = OnceLock::new();
    struct SyncVoc(VocabularyImpl);
    // immutable after construction
    unsafe impl Sync for SyncVoc {}
    unsafe impl Send for SyncVoc {}
    &V.get_or_init(|| {
        let lit: Vec<Option<&str>> = vec![None, Some("'a'"), None, Some("'c'")];
        let symb: Vec<Option<&str>> = vec![None, Some("A"), Some("B"), Some("C"), Some("D"), None, Some("F")];
        SyncVoc(VocabularyImpl::new(lit.iter(), symb.iter(), None))
    })
    .0
}
/// the display names the vocabulary above must produce
pub fn display_name(t: i32) -> String {
    match t {
        -1 => "<EOF>".into(),
        1 => "'a'".into(),
        2 => "B".into(),
        3 => "'c'".into(),
        4 => "D".into(),
        6 => "F".into(),
        t => t.to_string(),
    }
}

/// how predicates evaluate
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Preds {
    /// bit i of the mask is the value of predicate i
    Mask(u64),
    /// predicate i looks at state the parser actions change: value = (flag >> i) & 1
    Flag,
    /// predicate i: the text of the current token (la(1)) has type != i+1
    NextNot,
}

pub struct VExt<'i> {
    pub preds: Preds,
    pub flag: Cell<u64>,
    /// (predicate, input index, rule index of the local context if given, value)
    pub pred_log: RefCell<Vec<(i32, isize, Option<usize>, bool)>>,
    ph: std::marker::PhantomData<&'i str>,
}
antlr_rust::tid! { VExt<'a> }
impl<'i> TokenAware<'i> for VExt<'i> {
    type TF = CommonTokenFactory;
}
pub type Base<'i, I> = BaseParser<'i, VExt<'i>, I, VCtxType, dyn VListener<'i> + 'i>;
pub trait VStream<'i>: TokenStream<'i, TF = CommonTokenFactory> + TidAble<'i> {}
impl<'i, T: TokenStream<'i, TF = CommonTokenFactory> + TidAble<'i>> VStream<'i> for T {}

impl<'i, I: VStream<'i>> ParserRecog<'i, Base<'i, I>> for VExt<'i> {}
impl<'i, I: VStream<'i>> Actions<'i, Base<'i, I>> for VExt<'i> {
    fn get_grammar_file_name(&self) -> &str {
        "V.g4"
    }
    fn get_rule_names(&self) -> &[&str] {
        &RULE_NAMES
    }
    fn get_vocabulary(&self) -> &dyn Vocabulary {
        vocab()
    }
    fn sempred(ctx: Option<&Node<'i>>, _rule: isize, idx: isize, recog: &mut Base<'i, I>) -> bool {
        let v = eval_pred(recog, idx as i32);
        let ix = recog.input.index();
        recog.pred_log.borrow_mut().push((idx as i32, ix, ctx.map(|c| c.get_rule_index()), v));
        v
    }
}
fn eval_pred<'i, I: VStream<'i>>(recog: &mut Base<'i, I>, idx: i32) -> bool {
    if idx < 0 {
        // generated code answers true for an unknown predicate
        return true;
    }
    match recog.preds {
        Preds::Mask(m) => (m >> idx) & 1 == 1,
        Preds::Flag => (recog.flag.get() >> idx) & 1 == 1,
        Preds::NextNot => recog.input.la(1) != (idx + 1) as isize,
    }
}

// ------------------------------------------------------------------ observations ------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum T {
    Rule { rule: usize, start: isize, stop: isize, kids: Vec<T> },
    /// token index, type
    Tok(isize, isize),
    /// token index, type, text
    Err(isize, isize, String),
}
impl T {
    pub fn leaves(&self, out: &mut Vec<T>) {
        match self {
            T::Rule { kids, .. } => kids.iter().for_each(|k| k.leaves(out)),
            x => out.push(x.clone()),
        }
    }
    pub fn show(&self) -> String {
        match self {
            T::Rule { rule, kids, .. } => {
                let mut s = format!("(r{}", rule);
                for k in kids {
                    s.push(' ');
                    s += &k.show();
                }
                s.push(')');
                s
            }
            T::Tok(i, t) => format!("{}@{}", t, i),
            T::Err(i, t, _) => format!("!{}@{}", t, i),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum EKind {
    NoAlt { start: isize, off: isize },
    Mismatch { off: isize },
    Pred { off: isize },
    Inline,
    Other(String),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct ErrRec {
    /// offending token index and type as given to the listener
    pub tok: Option<(isize, isize)>,
    pub line: isize,
    pub col: isize,
    pub msg: String,
    pub kind: EKind,
    pub at: isize,
    /// expected tokens at that moment (state and context of the parser)
    pub expected: Vec<i32>,
    pub state: isize,
    /// invoking states, innermost first
    pub stack: Vec<isize>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Diag {
    Ambig { dec: isize, start: isize, stop: isize, exact: bool, alts: Vec<usize> },
    Full { dec: isize, start: isize, stop: isize, alts: Vec<usize> },
    Sens { dec: isize, start: isize, stop: isize, alt: isize },
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Enter(usize),
    Exit(usize),
    Tok(isize),
    Err(isize),
}

/// one prediction: decision, token index, alternative
pub type Dec = (usize, isize, isize);

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Out {
    pub tree: Option<T>,
    /// error returned by the start rule
    pub err: Option<String>,
    /// the error's root kind if bailed out
    pub bail: Option<EKind>,
    pub errors: Vec<ErrRec>,
    pub diags: Vec<Diag>,
    pub decs: Vec<Dec>,
    /// how many of them were made before the first error was reported
    pub clean: usize,
    /// precedence in force at every prediction
    pub precs: Vec<isize>,
    /// with a spy: calls of the error strategy
    pub steps: Vec<Step>,
    pub preds: Vec<(i32, isize, Option<usize>, bool)>,
    pub events: Vec<Ev>,
    pub probes: Vec<Probe>,
    /// with probes: invoking states at every prediction
    pub dec_stacks: Vec<Vec<isize>>,
    /// with probes: number of diagnostics after every prediction
    pub dec_diags: Vec<usize>,
    /// if counted: tokens asked for up to the end of every prediction, and in all
    pub reads: Vec<usize>,
    pub end_index: isize,
    pub matched_eof: bool,
    /// what a second error listener saw differently
    pub twin: Option<String>,
    /// where the parser's rule context was not the chain of calls
    pub lost: Option<String>,
    /// places compared
    pub watched: u64,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Probe {
    /// input index
    pub at: isize,
    pub state: isize,
    /// invoking states, innermost first
    pub stack: Vec<isize>,
    pub expected: Vec<i32>,
}
pub fn stack_of<'i, I: VStream<'i>>(r: &Base<'i, I>) -> Vec<isize> {
    let mut stack = vec![];
    let mut c: Option<Rc<Node<'i>>> = r.ctx.clone();
    while let Some(x) = c {
        stack.push(x.get_invoking_state());
        c = x.get_parent_ctx();
    }
    stack
}
pub struct Rec {
    pub errors: Rc<RefCell<Vec<ErrRec>>>,
    pub diags: Rc<RefCell<Vec<Diag>>>,
}
fn ekind(e: &ANTLRError) -> EKind {
    match e {
        ANTLRError::NoAltError(n) => {
            EKind::NoAlt { start: n.start_token.get_token_index(), off: n.base.offending_token.get_token_index() }
        }
        ANTLRError::InputMismatchError(n) => EKind::Mismatch { off: n.base.offending_token.get_token_index() },
        ANTLRError::PredicateError(n) => EKind::Pred { off: n.base.offending_token.get_token_index() },
        e => EKind::Other(format!("{}", e)),
    }
}
/// members of a token set within -3..=24
pub fn members(s: &antlr_rust::interval_set::IntervalSet) -> Vec<i32> {
    (-3..=24).filter(|t| s.contains(*t as isize)).collect()
}
fn bits(b: &BitSet) -> Vec<usize> {
    b.iter().collect()
}
impl<'i, I: VStream<'i>> ErrorListener<'i, Base<'i, I>> for Rec {
    fn syntax_error(
        &self,
        r: &Base<'i, I>,
        tok: Option<&<CommonTokenFactory as TokenFactory<'i>>::Inner>,
        line: isize,
        col: isize,
        msg: &str,
        e: Option<&ANTLRError>,
    ) {
        let exp = r.get_expected_tokens();
        let stack = stack_of(r);
        self.errors.borrow_mut().push(ErrRec {
            tok: tok.map(|t| (t.get_token_index(), t.get_token_type())),
            line,
            col,
            msg: msg.to_string(),
            kind: e.map(ekind).unwrap_or(EKind::Inline),
            at: r.input.index(),
            expected: members(&exp),
            state: r.get_state(),
            stack,
        });
    }
    fn report_ambiguity(&self, _r: &Base<'i, I>, dfa: &DFA, start: isize, stop: isize, exact: bool, alts: &BitSet, _c: &ATNConfigSet) {
        self.diags.borrow_mut().push(Diag::Ambig { dec: dfa.decision, start, stop, exact, alts: bits(alts) });
    }
    fn report_attempting_full_context(&self, _r: &Base<'i, I>, dfa: &DFA, start: isize, stop: isize, alts: &BitSet, _c: &ATNConfigSet) {
        self.diags.borrow_mut().push(Diag::Full { dec: dfa.decision, start, stop, alts: bits(alts) });
    }
    fn report_context_sensitivity(&self, _r: &Base<'i, I>, dfa: &DFA, start: isize, stop: isize, prediction: isize, _c: &ATNConfigSet) {
        self.diags.borrow_mut().push(Diag::Sens { dec: dfa.decision, start, stop, alt: prediction });
    }
}

pub struct EvListener {
    pub ev: Rc<RefCell<Vec<Ev>>>,
}
impl<'i> VListener<'i> for EvListener {}
impl<'i> ParseTreeListener<'i, VCtxType> for EvListener {
    fn visit_terminal(&mut self, n: &TerminalNode<'i, VCtxType>) {
        self.ev.borrow_mut().push(Ev::Tok(n.symbol.get_token_index()));
    }
    fn visit_error_node(&mut self, n: &ErrorNode<'i, VCtxType>) {
        self.ev.borrow_mut().push(Ev::Err(n.symbol.get_token_index()));
    }
    fn enter_every_rule(&mut self, c: &Node<'i>) {
        self.ev.borrow_mut().push(Ev::Enter(c.get_rule_index()));
    }
    fn exit_every_rule(&mut self, c: &Node<'i>) {
        self.ev.borrow_mut().push(Ev::Exit(c.get_rule_index()));
    }
}

pub fn to_t<'i>(n: &Node<'i>) -> T {
    if let Some(t) = n.downcast_ref::<TerminalNode<'i, VCtxType>>() {
        return T::Tok(t.symbol.get_token_index(), t.symbol.get_token_type());
    }
    if let Some(t) = n.downcast_ref::<ErrorNode<'i, VCtxType>>() {
        return T::Err(t.symbol.get_token_index(), t.symbol.get_token_type(), t.symbol.get_text().to_string());
    }
    T::Rule {
        rule: n.get_rule_index(),
        start: n.start().get_token_index(),
        stop: n.stop().get_token_index(),
        kids: n.get_children().map(|c| to_t(&*c)).collect(),
    }
}

// ------------------------------------------------------------------ loaded grammar ----

/// A grammar loaded into the runtime, with the shared caches generated code keeps in statics.
pub struct Loaded {
    pub prog: Compiled,
    pub atn: Arc<ATN>,
    pub dfas: Arc<Vec<RwLock<DFA>>>,
    pub cache: Arc<PredictionContextCache>,
    pub look: Arc<OnceLock<Vec<Option<Vec<u64>>>>>,
}
pub fn fresh_dfas(atn: &Arc<ATN>) -> Arc<Vec<RwLock<DFA>>> {
    let n = atn.decision_to_state.len();
    Arc::new((0..n).map(|i| DFA::new(atn.clone(), atn.get_decision_state(i), i as isize).into()).collect())
}
impl Loaded {
    pub fn new(prog: Compiled) -> Loaded {
        let s = prog.atn.serialize();
        let atn = Arc::new(ATNDeserializer::new(None).deserialize(s.chars()));
        let dfas = fresh_dfas(&atn);
        Loaded { prog, atn, dfas, cache: Arc::new(PredictionContextCache::new()), look: Default::default() }
    }
    /// same grammar, cold caches
    pub fn fresh(&self) -> Loaded {
        Loaded {
            prog: self.prog.clone(),
            atn: self.atn.clone(),
            dfas: fresh_dfas(&self.atn),
            cache: Arc::new(PredictionContextCache::new()),
            look: self.look.clone(),
        }
    }
    pub fn reset(&mut self) {
        self.dfas = fresh_dfas(&self.atn);
        self.cache = Arc::new(PredictionContextCache::new());
    }
    pub fn simulator(&self) -> Arc<ParserATNSimulator> {
        Arc::new(ParserATNSimulator::new(self.atn.clone(), self.dfas.clone(), self.cache.clone()))
    }
}

// ------------------------------------------------------------------ the parser --------

pub struct VParser<'i, I: VStream<'i>, H: ErrorStrategy<'i, Base<'i, I>>> {
    pub base: Base<'i, I>,
    pub interpreter: Arc<ParserATNSimulator>,
    pub err: H,
    pub prog: &'i Compiled,
    pub decs: Vec<Dec>,
    reads: Vec<usize>,
    pub steps: usize,
    /// expected tokens at every step, if asked for
    pub probes: Option<Vec<Probe>>,
    pub dec_stacks: Vec<Vec<isize>>,
    stacks: bool,
    pub dec_diags: Vec<usize>,
    pub diags: Rc<RefCell<Vec<Diag>>>,
    pub labels: bool,
    /// lookahead of the alternatives of decisions that one token decides
    pub look: Option<&'i Vec<Option<Vec<u64>>>>,
    pub watch: Option<Watch>,
    pub errs: Rc<RefCell<Vec<ErrRec>>>,
    /// number of decisions made before the first error was reported
    pub precs: Vec<isize>,
    pub clean: usize,
    /// the error an embedded action ends with, if any
    pub raise: Option<Box<dyn Fn(i32) -> Option<ANTLRError>>>,
    /// what embedded actions do
    pub on_action: Option<Box<dyn Fn(&mut Base<'i, I>, i32)>>,
    /// message of failed predicates
    pub pred_msg: Option<&'static str>,
}

/// the rules being executed
#[derive(Default)]
pub struct Watch {
    pub calls: Vec<Frame>,
    pub lost: Option<String>,
    pub seen: u64,
}
#[derive(Clone, Debug)]
pub struct Frame {
    rule: usize,
    from: isize,
    /// precedence, of recursive rules
    prec: Option<isize>,
    /// index of the token it began at
    start: isize,
}

type R<X> = Result<X, ANTLRError>;
pub const STEP_LIMIT: usize = 5_000;

impl<'i, I: VStream<'i>, H: ErrorStrategy<'i, Base<'i, I>>> VParser<'i, I, H> {
    pub fn new(l: &'i Loaded, input: I, err: H, mode: PredictionMode, preds: Preds) -> Self {
        let interpreter = l.simulator();
        interpreter.set_prediction_mode(mode);
        let mut base = BaseParser::new_base_parser(
            input,
            interpreter.clone(),
            VExt { preds, flag: Cell::new(0), pred_log: RefCell::new(vec![]), ph: Default::default() },
        );
        base.remove_error_listeners();
        VParser { base, interpreter, err, prog: &l.prog, decs: vec![], steps: 0, probes: None, stacks: false, dec_stacks: vec![], dec_diags: vec![], diags: Default::default(), labels: false, look: None, watch: None, errs: Default::default(), clean: 0, precs: vec![], reads: vec![], raise: None, pred_msg: None, on_action: None }
    }
    fn step(&mut self) {
        self.steps += 1;
        if self.steps > STEP_LIMIT {
            let d = self.decs.len();
            panic!("parser does not terminate: {} steps, last decisions {:?}", self.steps, &self.decs[d.saturating_sub(8)..]);
        }
    }
    /// the rule context is the chain of calls made
    fn watch(&mut self, place: &str) {
        let w = match &mut self.watch {
            Some(w) if w.lost.is_none() => w,
            _ => return,
        };
        w.seen += 1;
        let base = &self.base;
        let names: Vec<String> = w.calls.iter().rev().map(|f| RULE_NAMES[f.rule].to_string()).collect();
        let froms: Vec<isize> = w.calls.iter().rev().map(|f| f.from).collect();
        let prec = w.calls.iter().rev().find_map(|f| f.prec).unwrap_or(0);
        let start = w.calls.last().map(|f| f.start).unwrap_or(-1);
        let at = format!("{} at token {}, {:?}", place, base.input.index(), w.calls);
        let got = base.get_rule_invocation_stack();
        let ctx = base.get_parser_rule_context().clone();
        let s = ctx.start().get_token_index();
        let levels: Vec<isize> = (0..=9).filter(|k| base.precpred(None, *k)).collect();
        if got != names {
            w.lost = Some(format!("the rule invocation stack is {:?} {}", got, at));
        } else if stack_of(base) != froms {
            w.lost = Some(format!("the invoking states are {:?} {}", stack_of(base), at));
        } else if s != start {
            w.lost = Some(format!("the rule starts at token {} {}", s, at));
        } else if base.get_precedence() != prec {
            w.lost = Some(format!("the precedence is {} {}", base.get_precedence(), at));
        } else if levels != (prec.max(0)..=9).collect::<Vec<_>>() {
            w.lost = Some(format!("operators of levels {:?} are admitted {}", levels, at));
        } else if ctx.is_empty() != (w.calls.last().map(|f| f.from) == Some(-1)) {
            w.lost = Some(format!("the context is {}the outermost {}", if ctx.is_empty() { "" } else { "not " }, at));
        }
    }
    fn predict(&mut self, d: usize) -> R<isize> {
        self.step();
        self.watch("before a prediction");
        let at = self.base.input.index();
        if self.stacks {
            self.dec_stacks.push(stack_of(&self.base));
        }
        let calm = self.errs.borrow().is_empty();
        self.precs.push(self.base.get_precedence());
        let r = self.interpreter.adaptive_predict(d as isize, &mut self.base);
        self.reads.push(FETCHED.with(|x| x.get()));
        match &r {
            Ok(a) => self.decs.push((d, at, *a)),
            Err(_) => self.decs.push((d, at, -1)),
        }
        if calm {
            self.clean = self.decs.len()
        }
        if self.probes.is_some() {
            let n = self.diags.borrow().len();
            self.dec_diags.push(n);
        }
        let now = self.base.input.index();
        if r.is_ok() && now != at {
            panic!("prediction moved the input from {} to {}", at, now);
        }
        r
    }
    /// the alternatives' lookahead, if one token decides
    fn ll1(&self, d: usize) -> Option<&'i Vec<u64>> {
        self.look.and_then(|l| l[d].as_ref())
    }
    /// number of the alternative whose lookahead has the next token (0: none)
    fn by_look(&mut self, look: &[u64]) -> isize {
        let la = self.base.input.la(1);
        look.iter().position(|s| la >= -1 && la < 63 && s >> (la + 1) & 1 == 1).map(|x| x as isize + 1).unwrap_or(0)
    }
    fn enters(&mut self, d: usize, look: &[u64]) -> bool {
        self.step();
        let a = self.by_look(&look[..1]);
        self.note(d, if a == 1 { 1 } else { 2 });
        a == 1
    }
    fn note(&mut self, d: usize, alt: isize) {
        let at = self.base.input.index();
        self.decs.push((d, at, alt));
        self.reads.push(FETCHED.with(|x| x.get()));
        if self.stacks {
            self.dec_stacks.push(stack_of(&self.base));
            let n = self.diags.borrow().len();
            self.dec_diags.push(n);
        }
    }
    fn choose(&mut self, d: usize) -> R<isize> {
        match self.ll1(d) {
            Some(look) => {
                self.step();
                let a = self.by_look(look);
                self.note(d, if a == 0 { -1 } else { a });
                match a {
                    0 => Err(ANTLRError::NoAltError(NoViableAltError::new(&mut self.base))),
                    a => Ok(a),
                }
            }
            None => self.predict(d),
        }
    }
    fn seq(&mut self, cs: &'i [C]) -> R<()> {
        for c in cs {
            self.exec(c)?;
        }
        Ok(())
    }
    fn pick(&mut self, alts: &'i [Vec<C>], alt: isize) -> R<()> {
        match alts.get((alt - 1) as usize) {
            Some(a) => self.seq(a),
            None => Ok(()),
        }
    }
    fn look_expected(&mut self) {
        if self.probes.is_some() {
            let e = members(&self.base.get_expected_tokens());
            let p = Probe { at: self.base.input.index(), state: self.base.get_state(), stack: stack_of(&self.base), expected: e };
            self.probes.as_mut().unwrap().push(p);
        }
    }
    fn sync_at(&mut self, state: usize) -> R<()> {
        self.base.set_state(state as isize);
        self.look_expected();
        let r = self.err.sync(&mut self.base);
        self.watch("at a decision");
        r
    }
    fn exec(&mut self, c: &'i C) -> R<()> {
        self.step();
        match c {
            C::Match { state, el } => {
                self.base.set_state(*state as isize);
                self.look_expected();
                self.watch("before a match");
                match el {
                    El::Tok(t) => {
                        self.base.match_token(*t as isize, &mut self.err)?;
                    }
                    El::Wild => {
                        self.base.match_wildcard(&mut self.err)?;
                    }
                    _ => {
                        let la = self.base.input.la(1);
                        let inn = |s: &Vec<(i32, i32)>| s.iter().any(|(a, b)| *a as isize <= la && la <= *b as isize);
                        // MatchSet / MatchNotSet of the template
                        let bad = match el {
                            El::Range(a, b) => !(*a as isize <= la && la <= *b as isize),
                            El::Set(s) => !inn(s),
                            El::NotSet(s) => la <= 0 || inn(s),
                            _ => unreachable!(),
                        };
                        if bad {
                            self.err.recover_inline(&mut self.base)?;
                        } else {
                            if la == TOKEN_EOF {
                                self.base.matched_eof = true;
                            }
                            self.err.report_match(&mut self.base);
                            self.base.consume(&mut self.err);
                        }
                    }
                }
                Ok(())
            }
            C::Call { state, rule, prec } => {
                self.base.set_state(*state as isize);
                self.rule(*rule, *prec as isize)?;
                Ok(())
            }
            C::Pred { state, idx, .. } => {
                self.base.set_state(*state as isize);
                if !eval_pred(&mut self.base, *idx) {
                    return Err(FailedPredicateError::new(&mut self.base, Some(format!("p{}", idx)), self.pred_msg.map(|m| format!("{} {}", m, idx))));
                }
                Ok(())
            }
            C::Prec { state, prec } => {
                self.base.set_state(*state as isize);
                if !self.base.precpred(None, *prec as isize) {
                    return Err(FailedPredicateError::new(
                        &mut self.base,
                        Some(format!("recog.precpred(None, {})", prec)),
                        None,
                    ));
                }
                Ok(())
            }
            C::Action { state, idx } => {
                self.base.set_state(*state as isize);
                self.base.flag.set(self.base.flag.get() ^ (1 << idx));
                if let Some(f) = self.on_action.take() {
                    f(&mut self.base, *idx);
                    self.on_action = Some(f);
                }
                match self.raise.as_ref().and_then(|f| f(*idx)) {
                    Some(e) => Err(e),
                    None => Ok(()),
                }
            }
            C::Block { state, decision: Some(d), alts } => {
                self.sync_at(*state)?;
                let alt = self.choose(*d)?;
                self.pick(alts, alt)
            }
            C::Block { alts, .. } => self.seq(&alts[0]),
            C::Opt { state, decision, alts, greedy } => {
                self.sync_at(*state)?;
                if let (Some(look), true) = (self.ll1(*decision), *greedy) {
                    let a = self.by_look(look);
                    let exit = alts.len() as isize + 1;
                    self.note(*decision, if a == 0 { exit } else { a });
                    return if a == 0 { Ok(()) } else { self.pick(alts, a) };
                }
                let alt = self.predict(*decision)?;
                if *greedy {
                    self.pick(alts, alt)
                } else {
                    self.pick(alts, alt - 1)
                }
            }
            C::Star { entry, decision, loopback, blk, blk_decision, alts, greedy } => {
                let exit = if *greedy { 2 } else { 1 };
                self.sync_at(*entry)?;
                if let (Some(look), true) = (self.ll1(*decision), *greedy) {
                    while self.enters(*decision, look) {
                        self.inner(*blk, *blk_decision, alts)?;
                        self.sync_at(*loopback)?;
                    }
                    return Ok(());
                }
                let mut alt = self.predict(*decision)?;
                while alt != exit && alt != INVALID_ALT {
                    self.inner(*blk, *blk_decision, alts)?;
                    self.sync_at(*loopback)?;
                    alt = self.predict(*decision)?;
                }
                Ok(())
            }
            C::Plus { blk, blk_decision, loopback, decision, alts, greedy } => {
                let exit = if *greedy { 2 } else { 1 };
                self.sync_at(*blk)?;
                if let (Some(look), true) = (self.ll1(*decision), *greedy) {
                    loop {
                        self.inner(*blk, *blk_decision, alts)?;
                        self.sync_at(*loopback)?;
                        if !self.enters(*decision, look) {
                            return Ok(());
                        }
                    }
                }
                let mut alt = if *greedy { 1 } else { 2 };
                loop {
                    if alt == exit || alt == INVALID_ALT {
                        break;
                    }
                    self.inner(*blk, *blk_decision, alts)?;
                    self.sync_at(*loopback)?;
                    alt = self.predict(*decision)?;
                }
                Ok(())
            }
        }
    }
    fn inner(&mut self, blk: usize, bd: Option<usize>, alts: &'i [Vec<C>]) -> R<()> {
        match bd {
            Some(d) => {
                self.sync_at(blk)?;
                let a = self.choose(d)?;
                self.pick(alts, a)
            }
            None => self.seq(&alts[0]),
        }
    }
    /// the alternatives of a rule that is not left recursive
    fn outer(&mut self, c: &'i C, local: &mut Rc<VRule<'i>>) -> R<()> {
        let (state, decision, alts) = match c {
            C::Block { state, decision, alts } => (*state, *decision, alts),
            _ => unreachable!(),
        };
        let alt = match decision {
            Some(d) => {
                self.step();
                self.sync_at(state)?;
                self.choose(d)?
            }
            None => 1,
        };
        let body = match alts.get((alt - 1) as usize) {
            Some(b) => b,
            None => return Ok(()),
        };
        if self.labels {
            let tmp = lab_ctx(&***local, alt as usize);
            self.base.enter_outer_alt(Some(tmp.clone()), alt);
            *local = tmp;
        } else {
            self.base.enter_outer_alt(None, alt);
        }
        self.seq(body)
    }
    /// the primary alternatives of a left recursive rule
    fn primary(&mut self, c: &'i C, local: &mut Rc<VRule<'i>>) -> R<()> {
        let (state, decision, alts) = match c {
            C::Block { state, decision, alts } => (*state, *decision, alts),
            _ => unreachable!(),
        };
        let alt = match decision {
            Some(d) => {
                self.step();
                self.sync_at(state)?;
                self.choose(d)?
            }
            None => 1,
        };
        let body = match alts.get((alt - 1) as usize) {
            Some(b) => b,
            None => return Ok(()),
        };
        if self.labels {
            let tmp = lab_ctx(&***local, alt as usize);
            self.base.ctx = Some(tmp.clone());
            *local = tmp;
        }
        self.seq(body)
    }

    pub fn rule(&mut self, r: usize, p: isize) -> R<Rc<VRule<'i>>> {
        if self.watch.is_none() {
            return self.rule_(r, p);
        }
        let start = self.base.input.lt(1).map(|t| t.get_token_index()).unwrap_or(-1);
        let f = Frame { rule: r, from: self.base.get_state(), prec: self.prog.rules[r].ops.as_ref().map(|_| p), start };
        self.watch.as_mut().unwrap().calls.push(f);
        let res = self.rule_(r, p);
        self.watch.as_mut().unwrap().calls.pop();
        if !self.watch.as_ref().unwrap().calls.is_empty() && res.is_ok() {
            self.watch("after a rule");
        }
        res
    }
    fn rule_(&mut self, r: usize, p: isize) -> R<Rc<VRule<'i>>> {
        let cr = &self.prog.rules[r];
        let parent = self.base.ctx.take();
        let parent_state = self.base.get_state();
        let mut local = ctx_of(parent.clone(), parent_state, r, self.labels);
        if cr.ops.is_none() {
            self.base.enter_rule(local.clone(), cr.start as isize, r);
            let res = self.outer(&cr.body, &mut local);
            self.finish(res)?;
            self.base.exit_rule();
            return Ok(local);
        }
        self.base.enter_recursion_rule(local.clone(), cr.start as isize, r, p);
        let mut localctx = local;
        // keeps every previous context alive, as the generated code's `_prevctx` does
        let mut _prev = localctx.clone();
        let res: R<()> = (|| {
            self.base.enter_outer_alt(None, 1);
            self.primary(&cr.body, &mut localctx)?;
            _prev = localctx.clone();
            let tmp = self.base.input.lt(-1).cloned();
            self.base.ctx.as_ref().unwrap().set_stop(tmp);
            let (entry, decision, loopback, blk, bd, alts) = match cr.ops.as_ref().unwrap() {
                C::Star { entry, decision, loopback, blk, blk_decision, alts, .. } => {
                    (*entry, *decision, *loopback, *blk, *blk_decision, alts)
                }
                _ => unreachable!(),
            };
            self.sync_at(entry)?;
            let mut alt = self.predict(decision)?;
            while alt != 2 && alt != INVALID_ALT {
                if alt == 1 {
                    self.base.trigger_exit_rule_event();
                    _prev = localctx.clone();
                    let a = match bd {
                        Some(d) => {
                            self.sync_at(blk)?;
                            self.predict(d)?
                        }
                        None => 1,
                    };
                    if let Some(body) = alts.get((a - 1) as usize) {
                        let mut tmp = ctx_of(parent.clone(), parent_state, r, self.labels);
                        if self.labels {
                            tmp = lab_ctx(&**tmp, 100 + a as usize);
                        }
                        self.base.push_new_recursion_context(tmp.clone(), cr.start as isize, r);
                        localctx = tmp;
                        self.seq(body)?;
                    }
                }
                self.sync_at(loopback)?;
                alt = self.predict(decision)?;
            }
            Ok(())
        })();
        self.finish(res)?;
        self.base.unroll_recursion_context(parent);
        Ok(localctx)
    }
    fn finish(&mut self, res: R<()>) -> R<()> {
        match res {
            Ok(()) => Ok(()),
            Err(e @ ANTLRError::FallThrough(_)) => Err(e),
            Err(ref re) => {
                self.step();
                self.watch("at an error");
                self.err.report_error(&mut self.base, re);
                self.err.recover(&mut self.base, re)
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Mode {
    LL,
    Sll,
    Exact,
}
impl Mode {
    pub fn pm(self) -> PredictionMode {
        match self {
            Mode::LL => PredictionMode::LL,
            Mode::Sll => PredictionMode::SLL,
            Mode::Exact => PredictionMode::LL_EXACT_AMBIG_DETECTION,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub mode: Mode,
    pub bail: bool,
    pub unbuffered: bool,
    pub preds: Preds,
    pub start: usize,
    pub listen: bool,
    pub build_tree: bool,
    pub probe: bool,
    /// install the runtime's diagnostic listener (exact ambiguities only?)
    pub diagnose: Option<bool>,
    /// alternatives of rules are labelled
    pub labels: bool,
    /// decisions which one token decides test it, as generated code does
    pub ll1: bool,
    /// a second error listener, which must be told the same
    pub twin: bool,
    /// compare the parser's idea of where it is with the calls made, at every step
    pub watch: bool,
    /// log what the error strategy is asked and does
    pub spy: bool,
    /// count the tokens asked for
    pub reads: bool,
}
impl Cfg {
    pub fn new(mode: Mode) -> Cfg {
        Cfg { mode, bail: false, unbuffered: false, preds: Preds::Mask(!0), start: 0, listen: false, build_tree: true, probe: false, diagnose: None, labels: false, ll1: false, twin: false, watch: false, spy: false, reads: false }
    }
    pub fn bail(mut self) -> Cfg {
        self.bail = true;
        self
    }
    pub fn listening(mut self) -> Cfg {
        self.listen = true;
        self
    }
    pub fn labels(mut self) -> Cfg {
        self.labels = true;
        self
    }
    pub fn ll1(mut self) -> Cfg {
        self.ll1 = true;
        self
    }
    pub fn preds(mut self, p: Preds) -> Cfg {
        self.preds = p;
        self
    }
    pub fn start(mut self, s: usize) -> Cfg {
        self.start = s;
        self
    }
}

/// one call of the error strategy
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Call {
    /// what came back: type, token index and text of a token, or None with an error
    Inline(Option<(isize, isize, String)>),
    Recover(bool),
    Sync(bool),
    Report,
    Match,
    Reset,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Step {
    pub call: Call,
    pub state: isize,
    pub stack: Vec<isize>,
    /// input position, recovering?, messages so far: before and after
    pub before: (isize, bool, usize),
    pub after: (isize, bool, usize),
}
/// the default strategy, with every call logged
pub struct Spy<'i> {
    inner: DefaultErrorStrategy<'i, VCtxType>,
    log: Rc<RefCell<Vec<Step>>>,
    errs: Rc<RefCell<Vec<ErrRec>>>,
}
antlr_rust::tid! { Spy<'i> }
impl<'i> Spy<'i> {
    fn now<I: VStream<'i>>(&mut self, r: &mut Base<'i, I>) -> (isize, bool, usize) {
        let m = ErrorStrategy::<Base<'i, I>>::in_error_recovery_mode(&mut self.inner, r);
        (r.input.index(), m, self.errs.borrow().len())
    }
    fn logged<I: VStream<'i>, X>(&mut self, r: &mut Base<'i, I>, f: impl FnOnce(&mut DefaultErrorStrategy<'i, VCtxType>, &mut Base<'i, I>) -> (X, Call)) -> X {
        let (state, stack, before) = (r.get_state(), stack_of(r), self.now(r));
        let (x, call) = f(&mut self.inner, r);
        let after = self.now(r);
        self.log.borrow_mut().push(Step { call, state, stack, before, after });
        x
    }
}
impl<'i, I: VStream<'i>> ErrorStrategy<'i, Base<'i, I>> for Spy<'i> {
    fn reset(&mut self, r: &mut Base<'i, I>) {
        self.logged(r, |s, r| (s.reset(r), Call::Reset))
    }
    fn recover_inline(&mut self, r: &mut Base<'i, I>) -> Result<<I::TF as TokenFactory<'i>>::Tok, ANTLRError> {
        self.logged(r, |s, r| {
            let x = s.recover_inline(r);
            let c = Call::Inline(x.as_ref().ok().map(|t| {
                (t.get_token_type(), t.get_token_index(), format!("{} at {}:{}", t.get_text(), t.get_line(), t.get_column()))
            }));
            (x, c)
        })
    }
    fn recover(&mut self, r: &mut Base<'i, I>, e: &ANTLRError) -> Result<(), ANTLRError> {
        self.logged(r, |s, r| {
            let x = s.recover(r, e);
            let c = Call::Recover(x.is_ok());
            (x, c)
        })
    }
    fn sync(&mut self, r: &mut Base<'i, I>) -> Result<(), ANTLRError> {
        self.logged(r, |s, r| {
            let x = s.sync(r);
            let c = Call::Sync(x.is_ok());
            (x, c)
        })
    }
    fn in_error_recovery_mode(&mut self, r: &mut Base<'i, I>) -> bool {
        ErrorStrategy::<Base<'i, I>>::in_error_recovery_mode(&mut self.inner, r)
    }
    fn report_error(&mut self, r: &mut Base<'i, I>, e: &ANTLRError) {
        self.logged(r, |s, r| (s.report_error(r, e), Call::Report))
    }
    fn report_match(&mut self, r: &mut Base<'i, I>) {
        self.logged(r, |s, r| (s.report_match(r), Call::Match))
    }
}

/// a call of the strategy made by hand: the chain of rule calls (rule, invoking state), the
/// parser's state, and which call
#[derive(Clone, Debug)]
pub struct Op {
    pub chain: Vec<(usize, isize)>,
    pub state: isize,
    pub call: Call,
    /// where one of these tokens comes the call is not made, since there is nothing to repair
    pub unless: Vec<i32>,
}
/// makes the calls one after another; `Match` also moves on by a token
pub fn drive(l: &Loaded, toks: &[STok], ops: &[&Op]) -> Vec<Step> {
    let steps: Rc<RefCell<Vec<Step>>> = Default::default();
    let errs: Rc<RefCell<Vec<ErrRec>>> = Default::default();
    let spy = Spy { inner: DefaultErrorStrategy::new(), log: steps.clone(), errs: errs.clone() };
    let mut p = VParser::new(l, CommonTokenStream::new(ListSource::new(toks)), spy, PredictionMode::LL, Preds::Mask(!0));
    p.base.add_error_listener(Box::new(Rec { errors: errs, diags: Default::default() }));
    for op in ops {
        if op.unless.iter().any(|x| *x as isize == p.base.input.la(1)) {
            break;
        }
        let mut keep: Vec<Rc<Node>> = vec![];
        for (rule, from) in &op.chain {
            let c: Rc<Node> = ctx_of(keep.last().cloned(), *from, *rule, true);
            c.set_start(p.base.input.lt(1).cloned());
            keep.push(c);
        }
        p.base.ctx = keep.last().cloned();
        p.base.set_state(op.state);
        let (b, s) = (&mut p.base, &mut p.err);
        let e = ANTLRError::InputMismatchError(antlr_rust::errors::InputMisMatchError::new(b));
        match op.call {
            Call::Inline(_) => drop(s.recover_inline(b)),
            Call::Recover(_) => drop(s.recover(b, &e)),
            Call::Sync(_) => drop(s.sync(b)),
            Call::Report => s.report_error(b, &e),
            Call::Reset => s.reset(b),
            Call::Match => {
                s.report_match(b);
                b.consume(s)
            }
        }
    }
    let r = steps.borrow().clone();
    r
}

pub type DynStrategy<'i, I> = Box<dyn ErrorStrategy<'i, Base<'i, I>> + 'i>;

/// Parses `input` from rule `cfg.start`; `look` sees the finished parser and tree.
pub fn parse_with<'i, I: VStream<'i> + 'i>(
    l: &'i Loaded,
    input: I,
    cfg: &Cfg,
    look: &mut dyn FnMut(&mut VParser<'i, I, DynStrategy<'i, I>>, Option<&Rc<VRule<'i>>>),
) -> Out {
    parse_(l, input, cfg, None, look)
}
/// Runs the rule `cfg.start`, shows what it did and the stream to `first`, then runs the rule `second` with
/// the same parser and returns what that did.
pub fn parse_twice<'i, I: VStream<'i> + 'i>(l: &'i Loaded, input: I, cfg: &Cfg, second: usize, first: &mut dyn FnMut(Out, &mut I)) -> Out {
    parse_(l, input, cfg, Some((second, first)), &mut |_, _| {})
}
fn parse_<'i, I: VStream<'i> + 'i>(
    l: &'i Loaded,
    input: I,
    cfg: &Cfg,
    second: Option<(usize, &mut dyn FnMut(Out, &mut I))>,
    look: &mut dyn FnMut(&mut VParser<'i, I, DynStrategy<'i, I>>, Option<&Rc<VRule<'i>>>),
) -> Out {
    let errs: Rc<RefCell<Vec<ErrRec>>> = Default::default();
    let steps: Rc<RefCell<Vec<Step>>> = Default::default();
    let strat: DynStrategy<'i, I> = if cfg.spy {
        Box::new(Spy { inner: DefaultErrorStrategy::new(), log: steps.clone(), errs: errs.clone() })
    } else if cfg.bail {
        Box::new(BailErrorStrategy::<VCtxType>::new())
    } else {
        Box::new(DefaultErrorStrategy::<VCtxType>::new())
    };
    let mut p = VParser::new(l, input, strat, cfg.mode.pm(), cfg.preds.clone());
    p.errs = errs;
    p.base.build_parse_trees = cfg.build_tree;
    p.labels = cfg.labels;
    if cfg.ll1 {
        p.look = Some(l.look.get_or_init(|| crate::grammar::decision_look(&l.prog.atn)));
    }
    if cfg.watch {
        p.watch = Some(Watch::default());
    }
    p.probes = if cfg.probe { Some(vec![]) } else { None };
    p.stacks = cfg.probe || cfg.reads;
    let errors = p.errs.clone();
    let diags = p.diags.clone();
    p.base.add_error_listener(Box::new(Rec { errors: errors.clone(), diags: diags.clone() }));
    if let Some(x) = cfg.diagnose {
        p.base.add_error_listener(Box::new(antlr_rust::error_listener::DiagnosticErrorListener::new(x)));
    }
    let (errors2, diags2) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(vec![])));
    if cfg.twin {
        p.base.add_error_listener(Box::new(Rec { errors: Default::default(), diags: Default::default() }));
        p.base.add_error_listener(Box::new(Rec { errors: errors2.clone(), diags: diags2.clone() }));
    }
    let ev = Rc::new(RefCell::new(vec![]));
    if cfg.listen {
        p.base.add_parse_listener(Box::new(EvListener { ev: ev.clone() }));
    }
    let mut r = p.rule(cfg.start, 0);
    if let Some((rule, first)) = second {
        let mut o = Out { end_index: p.base.input.index(), matched_eof: p.base.matched_eof, ..Default::default() };
        o.err = r.as_ref().err().map(|e| e.to_string());
        first(o, &mut p.base.input);
        if r.is_err() || !errors.borrow().is_empty() {
            // as generated code's users do after an error
            p.err.reset(&mut p.base);
        }
        if r.is_err() {
            // a rule that was left by the error did not restore these
            p.base.ctx = None;
            p.base.set_state(-1);
        }
        errors.borrow_mut().clear();
        diags.borrow_mut().clear();
        ev.borrow_mut().clear();
        p.decs.clear();
        p.base.pred_log.borrow_mut().clear();
        r = p.rule(rule, 0);
    }
    let mut out = Out::default();
    match &r {
        Ok(t) => {
            let n: &Node<'i> = t.as_ref().coerce_ref_to();
            out.tree = Some(to_t(n));
            look(&mut p, Some(t));
        }
        Err(e) => {
            out.err = Some(format!("{}", e));
            if let ANTLRError::FallThrough(x) = e {
                if let Some(src) = x.source().and_then(|s| s.downcast_ref::<ANTLRError>()) {
                    out.bail = Some(ekind(src));
                }
            }
            look(&mut p, None);
        }
    }
    out.end_index = p.base.input.index();
    if cfg.twin {
        out.twin = twins(&mut p.base, l, &errors, &diags, &errors2, &diags2).err();
    }
    if let Some(w) = p.watch.take() {
        out.lost = w.lost;
        out.watched = w.seen;
    }
    out.matched_eof = p.base.matched_eof;
    out.decs = std::mem::take(&mut p.decs);
    out.clean = p.clean;
    if cfg.reads {
        out.reads = std::mem::take(&mut p.reads);
        out.reads.push(FETCHED.with(|x| x.get()));
    }
    out.steps = std::mem::take(&mut *steps.borrow_mut());
    out.precs = std::mem::take(&mut p.precs);
    out.dec_stacks = std::mem::take(&mut p.dec_stacks);
    out.dec_diags = std::mem::take(&mut p.dec_diags);
    out.probes = p.probes.take().unwrap_or_default();
    out.preds = std::mem::take(&mut *p.base.pred_log.borrow_mut());
    drop(r);
    drop(p);
    out.errors = errors.borrow().clone();
    out.diags = diags.borrow().clone();
    out.events = ev.borrow().clone();
    out
}

type Errs = Rc<RefCell<Vec<ErrRec>>>;
type Diags = Rc<RefCell<Vec<Diag>>>;
/// both listeners have been told the same; removed ones are told nothing more
fn twins<'i, I: VStream<'i>>(base: &mut Base<'i, I>, l: &Loaded, e1: &Errs, d1: &Diags, e2: &Errs, d2: &Diags) -> Result<(), String> {
    if *e1.borrow() != *e2.borrow() {
        return Err(format!("the second error listener is told {:?} and the first {:?}", e2.borrow(), e1.borrow()));
    }
    if *d1.borrow() != *d2.borrow() {
        return Err(format!("the second error listener is told of {:?} and the first of {:?}", d2.borrow(), d1.borrow()));
    }
    let n = e1.borrow().len();
    if base.ctx.is_none() {
        base.ctx = Some(new_ctx(None, -1, 0));
        base.set_state(l.prog.rules[0].start as isize);
    }
    base.notify_error_listeners("both".into(), None, None);
    let two = |k: usize| e1.borrow().len() == n + k && e2.borrow().len() == n + k;
    if !two(1) {
        return Err("a notification does not reach both listeners once".into());
    }
    let (t, at) = e1.borrow().last().map(|e| (e.tok, e.at)).unwrap();
    if t.map(|t| t.0) != Some(at) {
        return Err(format!("a notification without a token names {:?} instead of the current token {}", t, at));
    }
    base.remove_error_listeners();
    base.notify_error_listeners("none".into(), None, None);
    if !two(1) {
        return Err("a removed error listener is still told of errors".into());
    }
    let (e3, d3): (Errs, Diags) = Default::default();
    base.add_error_listener(Box::new(Rec { errors: e3.clone(), diags: d3.clone() }));
    base.notify_error_listeners("late".into(), None, None);
    if !two(1) || e3.borrow().len() != 1 || e3.borrow()[0].msg != "late" {
        return Err("a listener added after the others were removed is not the only one told".into());
    }
    e1.borrow_mut().truncate(n);
    Ok(())
}

pub fn parse(l: &Loaded, toks: &[STok], cfg: &Cfg) -> Out {
    if cfg.unbuffered {
        parse_with(l, UnbufferedTokenStream::new_unbuffered(ListSource::new(toks)), cfg, &mut |_, _| {})
    } else {
        parse_with(l, CommonTokenStream::new(ListSource::new(toks)), cfg, &mut |_, _| {})
    }
}
