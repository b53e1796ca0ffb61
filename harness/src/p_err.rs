//! C36: error values, as listeners, error strategies and callers get them.
use crate::enumg::strings;
use crate::fam::*;
use crate::grammar::*;
use crate::interp::*;
use crate::p_core::{key, over_families};
use crate::p_exp::{show_set, Firsts};
use crate::p_pred::{guarded, place_g};
use crate::run::*;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::error_listener::ErrorListener;
use antlr_rust::error_strategy::{BailErrorStrategy, DefaultErrorStrategy, ErrorStrategy, ParseCancelledError};
use antlr_rust::errors::*;
use antlr_rust::int_stream::IntStream;
use antlr_rust::parser::Parser;
use antlr_rust::token::{OwningToken, Token};
use antlr_rust::token_factory::{CommonTokenFactory, TokenAware, TokenFactory};
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use antlr_rust::PredictionMode;
use std::cell::RefCell;
use std::error::Error;
use std::fmt;
use std::rc::Rc;

/// what the user's own code fails with
#[derive(Debug)]
struct Mine(usize);
impl fmt::Display for Mine {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "mine {}", self.0)
    }
}
impl Error for Mine {}

#[derive(Clone, Copy, Debug, PartialEq)]
enum By {
    Report,
    Recover,
    Inline,
    Sync,
}
#[derive(Clone)]
struct Entry {
    by: By,
    err: ANTLRError,
    state: isize,
    stack: Vec<isize>,
    at: isize,
    expected: Option<Vec<i32>>,
    /// error the call returned
    ret: Option<ANTLRError>,
}
#[derive(Default)]
struct Log {
    entries: Vec<Entry>,
    heard: Vec<(Option<ANTLRError>, Option<isize>, String)>,
    wrong: Option<String>,
}
type L = Rc<RefCell<Log>>;

fn base(e: &ANTLRError) -> Option<&BaseRecognitionError> {
    match e {
        ANTLRError::NoAltError(e) => Some(&e.base),
        ANTLRError::InputMismatchError(e) => Some(&e.base),
        ANTLRError::PredicateError(e) => Some(&e.base),
        _ => None,
    }
}
/// every field of a token
fn all(t: &OwningToken) -> String {
    format!("{} type {} channel {} {}..={} index {} at {}:{} {:?}", t, t.token_type, t.channel, t.start, t.stop, t.get_token_index(), t.line, t.column, t.get_text())
}
fn same(e: &ANTLRError, t: &OwningToken, i: isize, r: &dyn Fn(isize) -> OwningToken, what: &str) -> Option<String> {
    let w = r(i);
    if all(t) != all(&w) {
        return Some(format!("the {} token of {:?} is {} instead of {}", what, e, all(t), all(&w)));
    }
    None
}
struct Catch<'i> {
    bail: bool,
    def: DefaultErrorStrategy<'i, VCtxType>,
    bai: BailErrorStrategy<'i, VCtxType>,
    log: L,
}
antlr_rust::tid! { Catch<'i> }
impl<'i> Catch<'i> {
    /// notes the error and compares its tokens with the stream's
    fn note<I: VStream<'i>>(&mut self, r: &mut Base<'i, I>, by: By, e: &ANTLRError) {
        let at = r.input.index();
        let get = |i: isize| Token::to_owned(&**r.input.get(i));
        let mut wrong = None;
        let off = e.get_offending_token().map(|t| t.get_token_index());
        if off != base(e).map(|b| b.offending_token.get_token_index()) {
            wrong = Some(format!("get_offending_token gives token {:?} of {:?}", off, e));
        }
        match e {
            ANTLRError::NoAltError(x) => {
                let i = x.base.offending_token.get_token_index();
                if i < at {
                    wrong = Some(format!("the offending token of {:?} stands before the decision at {}", e, at));
                } else {
                    wrong = wrong.or(same(e, &x.start_token, at, &get, "first")).or(same(e, &x.base.offending_token, i, &get, "offending"));
                }
            }
            _ => {
                if let Some(b) = base(e) {
                    wrong = wrong.or(same(e, &b.offending_token, at, &get, "offending"));
                }
            }
        }
        let expected = base(e).map(|b| members(&b.get_expected_tokens(r)));
        let mut l = self.log.borrow_mut();
        if l.wrong.is_none() {
            l.wrong = wrong;
        }
        l.entries.push(Entry { by, err: e.clone(), state: r.get_state(), stack: stack_of(r), at, expected, ret: None });
    }
    fn raised<I: VStream<'i>, X>(&mut self, r: &mut Base<'i, I>, by: By, x: &Result<X, ANTLRError>) {
        if let Err(e) = x {
            match cause(e) {
                Ok(c) => {
                    let c = c.clone();
                    self.note(r, by, &c);
                    self.log.borrow_mut().entries.last_mut().unwrap().ret = Some(e.clone());
                }
                Err(w) => {
                    self.log.borrow_mut().wrong.get_or_insert(w);
                }
            }
        }
    }
}
/// the error itself, or what a bailed out parse was bailed out for
fn cause(e: &ANTLRError) -> Result<&ANTLRError, String> {
    if let ANTLRError::FallThrough(x) = e {
        if x.downcast_ref::<ParseCancelledError>().is_none() {
            return Ok(e);
        }
        let s = match e.source() {
            Some(s) => s,
            None => return Err(format!("{:?} has no source", e)),
        };
        let c = match s.source().and_then(|s| s.downcast_ref::<ANTLRError>()) {
            Some(c) => c,
            None => return Err(format!("{:?} does not lead to the error that caused it", e)),
        };
        if s.to_string() != format!("ParseCancelledError, caused by {}", c) {
            return Err(format!("a bailed out parse says \"{}\" for {}", s, c));
        }
        return Ok(c);
    }
    Ok(e)
}
impl<'i, I: VStream<'i>> ErrorStrategy<'i, Base<'i, I>> for Catch<'i> {
    fn reset(&mut self, r: &mut Base<'i, I>) {
        if self.bail {
            self.bai.reset(r)
        } else {
            self.def.reset(r)
        }
    }
    fn recover_inline(&mut self, r: &mut Base<'i, I>) -> Result<<I::TF as TokenFactory<'i>>::Tok, ANTLRError> {
        let x = if self.bail { self.bai.recover_inline(r) } else { self.def.recover_inline(r) };
        self.raised(r, By::Inline, &x);
        x
    }
    fn recover(&mut self, r: &mut Base<'i, I>, e: &ANTLRError) -> Result<(), ANTLRError> {
        self.note(r, By::Recover, e);
        let n = self.log.borrow().entries.len() - 1;
        let x = if self.bail { self.bai.recover(r, e) } else { self.def.recover(r, e) };
        self.log.borrow_mut().entries[n].ret = x.as_ref().err().cloned();
        x
    }
    fn sync(&mut self, r: &mut Base<'i, I>) -> Result<(), ANTLRError> {
        let x = if self.bail { self.bai.sync(r) } else { self.def.sync(r) };
        self.raised(r, By::Sync, &x);
        x
    }
    fn in_error_recovery_mode(&mut self, r: &mut Base<'i, I>) -> bool {
        if self.bail {
            self.bai.in_error_recovery_mode(r)
        } else {
            self.def.in_error_recovery_mode(r)
        }
    }
    fn report_error(&mut self, r: &mut Base<'i, I>, e: &ANTLRError) {
        self.note(r, By::Report, e);
        let quiet = self.in_error_recovery_mode(r);
        let n = self.log.borrow().heard.len();
        if self.bail {
            self.bai.report_error(r, e)
        } else {
            self.def.report_error(r, e)
        }
        let at = r.input.index();
        let mut l = self.log.borrow_mut();
        let heard = l.heard[n..].to_vec();
        let w = match &heard[..] {
            [] if quiet => None,
            [(Some(h), t, m)] if !quiet => {
                let tok = Some(e.get_offending_token().map(|t| t.get_token_index()).unwrap_or(at));
                if format!("{:?}", h) != format!("{:?}", e) {
                    Some(format!("the listener is given {:?} and the strategy {:?}", h, e))
                } else if *t != tok {
                    Some(format!("token {:?} is given for {:?}", t, e))
                } else if base(e).is_none() && *m != e.to_string() {
                    Some(format!("the message for {:?} is \"{}\"", e, m))
                } else {
                    None
                }
            }
            _ => Some(format!("listeners are told {:?} when {:?} is reported{}", heard, e, if quiet { " while recovering" } else { "" })),
        };
        if l.wrong.is_none() {
            l.wrong = w;
        }
    }
    fn report_match(&mut self, r: &mut Base<'i, I>) {
        if self.bail {
            ErrorStrategy::<Base<'i, I>>::report_match(&mut self.bai, r)
        } else {
            self.def.report_match(r)
        }
    }
}
struct Hear(L);
impl<'i, I: VStream<'i>> ErrorListener<'i, Base<'i, I>> for Hear {
    fn syntax_error(&self, _r: &Base<'i, I>, tok: Option<&<CommonTokenFactory as TokenFactory<'i>>::Inner>, _l: isize, _c: isize, msg: &str, e: Option<&ANTLRError>) {
        self.0.borrow_mut().heard.push((e.cloned(), tok.map(|t| t.get_token_index()), msg.to_string()));
    }
}

#[derive(Clone, Debug)]
struct Setup {
    mode: PredictionMode,
    bail: bool,
    preds: Preds,
    start: usize,
    /// what embedded actions fail with: 1 an error to recover from, 2 one to fall through with, 3 an illegal state
    raise: u8,
}
impl Setup {
    fn msg(&self) -> Option<&'static str> {
        Some("no").filter(|_| self.bail)
    }
}
struct Seen {
    log: Log,
    probes: Vec<Probe>,
    /// expected tokens, asked for when all is over
    late: Vec<Option<Vec<i32>>>,
    result: Option<ANTLRError>,
    raised: Vec<Rc<dyn Error>>,
}
fn run<'i, I: VStream<'i> + 'i>(l: &'i Loaded, input: I, s: &Setup) -> Seen {
    let log: L = Default::default();
    let c = Catch { bail: s.bail, def: DefaultErrorStrategy::new(), bai: BailErrorStrategy::new(), log: log.clone() };
    let mut p = VParser::new(l, input, c, s.mode, s.preds.clone());
    p.probes = Some(vec![]);
    p.pred_msg = s.msg();
    p.base.add_error_listener(Box::new(Hear(log.clone())));
    let raised: Rc<RefCell<Vec<Rc<dyn Error>>>> = Default::default();
    if s.raise > 0 {
        let (raise, raised) = (s.raise, raised.clone());
        p.raise = Some(Box::new(move |_| {
            let n = raised.borrow().len();
            let e: Rc<dyn Error> = Rc::new(Mine(n));
            raised.borrow_mut().push(e.clone());
            Some(match raise {
                1 => ANTLRError::OtherError(e),
                2 => ANTLRError::FallThrough(e),
                _ => ANTLRError::IllegalStateError(format!("mine {}", n)),
            })
        }));
    }
    let r = p.rule(s.start, 0);
    let result = r.as_ref().err().cloned();
    drop(r);
    p.base.ctx = None;
    p.base.set_state(l.prog.rules[0].start as isize);
    let late = log.borrow().entries.iter().map(|e| base(&e.err).map(|b| members(&b.get_expected_tokens(&p.base)))).collect();
    let probes = p.probes.take().unwrap();
    drop(p);
    let log = std::mem::take(&mut *log.borrow_mut());
    let raised = raised.borrow().clone();
    Seen { log, probes, late, result, raised }
}
fn dbg(e: &ANTLRError) -> String {
    format!("{:?}", e)
}
fn check(f: &mut Firsts, seen: &Seen, s: &Setup, st: &mut Stats) -> Result<(), String> {
    if let Some(w) = &seen.log.wrong {
        return Err(w.clone());
    }
    let es = &seen.log.entries;
    for (i, e) in es.iter().enumerate() {
        st.outcome(&(e.by as usize, e.state, &e.stack, &e.expected));
        if e.expected != seen.late[i] {
            return Err(format!("{:?} expects {:?} when asked at once, and {:?} after the parse", e.err, e.expected, seen.late[i]));
        }
        if let (Some(b), Some(x)) = (base(&e.err), &e.expected) {
            let mut places = vec![(e.state, e.stack.clone())];
            if matches!(e.err, ANTLRError::InputMismatchError(_)) {
                // or a place passed since the last token that matched
                places.extend(seen.probes.iter().filter(|p| p.at == e.at).map(|p| (p.state, p.stack.clone())));
            }
            let want: Vec<Vec<i32>> = places.iter().filter(|p| p.0 == b.offending_state).map(|p| f.at(p.0, &p.1)).collect();
            if want.is_empty() {
                return Err(format!("{:?} names state {}, but the parser was in {:?}", e.err, b.offending_state, places));
            }
            if !want.contains(x) {
                return Err(format!("{:?} in state {} called from {:?} expects {} instead of {}", e.err, e.state, e.stack, show_set(x), want.iter().map(|w| show_set(w)).collect::<Vec<_>>().join(" or ")));
            }
        }
        if let ANTLRError::PredicateError(p) = &e.err {
            let out = &f.out[e.state as usize][0].1;
            let (rule, text) = match out {
                Tr::Pred(r, i, _) => (*r as isize, format!("p{}", i)),
                Tr::Prec(n) => (0, format!("recog.precpred(None, {})", n)),
                _ => return Err(format!("{:?} where there is no predicate", e.err)),
            };
            let message = match (out, s.msg()) {
                (Tr::Pred(_, i, _), Some(m)) => format!("{} {}", m, i),
                _ => format!("failed predicate: {}", text),
            };
            if p.rule_index != rule || p.predicate != text || p.base.message != message {
                return Err(format!("{:?} is about predicate {} of rule {}", e.err, text, rule));
            }
        }
        // every error is reported and then recovered from
        match e.by {
            By::Report => match es.get(i + 1) {
                Some(n) if n.by == By::Recover && dbg(&n.err) == dbg(&e.err) => {}
                n => return Err(format!("{:?} is reported, and then {:?} recovered from", e.err, n.map(|n| &n.err))),
            },
            By::Recover => {
                if i == 0 || es[i - 1].by != By::Report {
                    return Err(format!("{:?} is recovered from without a report", e.err));
                }
                match &e.ret {
                    None if !s.bail => {}
                    Some(r) if s.bail => {
                        let c = cause(r)?;
                        if dbg(c) != dbg(&e.err) || !matches!(r, ANTLRError::FallThrough(_)) {
                            return Err(format!("bailing out for {:?} gives {:?}", e.err, r));
                        }
                    }
                    r => return Err(format!("recovering from {:?} gives {:?}", e.err, r)),
                }
            }
            _ if s.bail => {
                if e.by == By::Sync || !matches!(e.ret, Some(ANTLRError::FallThrough(_))) {
                    return Err(format!("bailing out gives {:?} by {:?}", e.ret, e.by));
                }
            }
            _ => match es.get(i + 1) {
                Some(n) if n.by == By::Report && dbg(&n.err) == dbg(&e.err) => {}
                n => return Err(format!("{:?} is raised and {:?} reported", e.err, n.map(|n| &n.err))),
            },
        }
    }
    // what the caller gets
    match &seen.result {
        None => {
            if s.bail && !es.is_empty() || s.raise == 2 && !seen.raised.is_empty() {
                return Err(format!("a result is returned in spite of {:?}", es.last().map(|e| &e.err)));
            }
        }
        Some(r @ ANTLRError::FallThrough(x)) => {
            if x.downcast_ref::<ParseCancelledError>().is_some() {
                let last = match es.last() {
                    Some(l) if s.bail => l,
                    _ => return Err(format!("{:?} is returned for nothing", r)),
                };
                if dbg(cause(r)?) != dbg(&last.err) {
                    return Err(format!("the caller gets {:?} for {:?}", r, last.err));
                }
                if s.raise == 1 && matches!(last.err, ANTLRError::OtherError(_)) {
                    // down to the user's own error
                    let n = cause(r)?.source().and_then(|e| e.downcast_ref::<Mine>()).map(|m| m.0);
                    if n.map(|n| n + 1) != Some(seen.raised.len()) {
                        return Err(format!("{:?} does not lead to the user's error", r));
                    }
                }
            } else {
                match seen.raised.last() {
                    Some(m) if s.raise == 2 && Rc::ptr_eq(m, x) => {}
                    m => return Err(format!("the caller gets {:?}, raised was {:?}", r, m)),
                }
            }
        }
        Some(r) => return Err(format!("the caller gets {:?}", r)),
    }
    if s.raise > 0 {
        let n = es.iter().filter(|e| e.by == By::Report && base(&e.err).is_none()).count();
        let want = if s.raise == 2 { 0 } else { seen.raised.len() };
        if n != want {
            return Err(format!("{} errors of the user's are reported, {} raised", n, seen.raised.len()));
        }
        if s.raise == 2 && seen.raised.len() > 1 {
            return Err("the parse goes on after an error that must abort it".into());
        }
        for e in es {
            if let ANTLRError::OtherError(x) = &e.err {
                if !seen.raised.iter().any(|m| Rc::ptr_eq(m, x)) || e.err.source().map(|m| m.to_string()) != Some(x.to_string()) {
                    return Err(format!("{:?} is not what was raised", e.err));
                }
            }
        }
    }
    st.count("errors", es.len() as u64);
    Ok(())
}

fn errors(g: &Grammar, inputs: &[Vec<i32>], setups: &[Setup], st: &mut Stats) {
    let l = Loaded::new(compile(g));
    let prog = l.prog.clone();
    let mut f = Firsts::new(&prog.atn);
    for input in inputs {
        for (k, s) in setups.iter().enumerate() {
            for hidden in [false, true] {
                if hidden && k > 1 {
                    continue;
                }
                let mut ts = stoks(input);
                if hidden {
                    // a hidden token before each
                    ts = ts.into_iter().flat_map(|t| [STok { ty: 1, ch: 2, text: " ".into() }, t]).collect();
                }
                let r = guard(|| if hidden { run(&l, CommonTokenStream::new(ListSource::new(&ts)), s) } else if k == 0 { run(&l, UnbufferedTokenStream::new_unbuffered(ListSource::new(&ts)), s) } else { run(&l, CommonTokenStream::new(ListSource::new(&ts)), s) });
                st.traces += 1;
                let e = match r {
                    Err(e) => format!("panic {}", e),
                    Ok(seen) => {
                        st.transitions += seen.log.entries.len() as u64;
                        match check(&mut f, &seen, s, st) {
                            Ok(()) => continue,
                            Err(e) => e,
                        }
                    }
                };
                st.fail(key(g, input), format!("{}\ninput {:?}{}, {:?}: {}", g.show(), input, if hidden { " with hidden tokens" } else { "" }, s, e));
                if st.failed() {
                    return;
                }
            }
        }
    }
    st.states += f.memo_len() as u64;
    st.sample(|| format!("{} {} points", g.show(), f.memo_len()));
}

pub fn c36(tier: Tier) -> Vec<Plan> {
    let s = |mode, bail, preds, start, raise| Setup { mode, bail, preds: Preds::Mask(preds), start, raise };
    let (ll, sll) = (PredictionMode::LL, PredictionMode::SLL);
    let mut v = over_families(
        tier.pick(1, 2),
        move |f| match (f.alpha, tier) {
            (2, Tier::Quick) => 4,
            (2, _) => 6,
            (3, Tier::Quick) => 3,
            (3, _) => 5,
            (_, Tier::Quick) => 2,
            _ => 3,
        },
        move |g, inputs, st| {
            let mut su = vec![s(ll, false, !0, 0, 0), s(ll, true, !0, 0, 0), s(sll, false, !0, 0, 0)];
            su.extend((1..g.rules.len()).map(|r| s(ll, false, !0, r, 0)));
            errors(g, inputs, &su, st)
        },
    );
    for f in families(tier.pick(0, 1)) {
        let n = if f.alpha <= 3 { tier.pick(3, 4) } else { 2 };
        let inputs = strings(f.alpha, n);
        let gs = f.gs;
        let al = f.alpha;
        let (gs1, in1) = (gs.clone(), inputs.clone());
        let b = format!("{} ({} grammars), every choice of up to 2 alternatives guarded by predicates that fail; all strings over {} tokens up to length {}; default and bail strategy", f.desc, gs.len(), al, n);
        v.push(plan(format!("{} with predicates", f.name), b, gs.len(), move |i, st| {
            for g in guarded(&gs1[i], 2) {
                errors(&g, &in1, &[s(ll, false, 0, 0, 0), s(ll, true, 0, 0, 0), s(ll, false, 1, 0, 0)], st);
                if st.failed() {
                    return;
                }
            }
        }));
        let b = format!("{} ({} grammars), every alternative in turn with an embedded action that fails; all strings over {} tokens up to length {}; recoverable, aborting and internal errors, default and bail strategy", f.desc, gs.len(), al, n);
        v.push(plan(format!("{} with failing actions", f.name), b, gs.len(), move |i, st| {
            let (_, slots) = place_g(&gs[i], &|_| vec![]);
            let all = [(1, false), (2, false), (3, false), (1, true), (2, true), (3, true)];
            let su: Vec<Setup> = all.iter().map(|(r, b)| s(ll, *b, !0, 0, *r)).collect();
            for k in 0..slots {
                let g = place_g(&gs[i], &|x| if x == k { vec![El::Action(0)] } else { vec![] }).0;
                errors(&g, &inputs, &su, st);
                if st.failed() {
                    return;
                }
            }
        }));
    }
    v
}
