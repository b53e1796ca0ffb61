//! C19, C20: events during a parse and queries of the finished tree.
use crate::enumg::strings;
use crate::fam::*;
use crate::grammar::*;
use crate::interp::*;
use crate::p_core::{key, lens1, over_families};
use crate::p_pred::place_g;
use crate::run::*;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::error_strategy::DefaultErrorStrategy;
use antlr_rust::parser::ListenerId;
use antlr_rust::parser_rule_context::{ParserRuleContext, RuleContextExt};
use antlr_rust::rule_context::{CustomRuleContext, RuleContext};
use antlr_rust::token::Token;
use antlr_rust::tree::*;
use antlr_rust::{CoerceTo, TidExt};
use std::cell::RefCell;
use std::rc::Rc;

type Term<'i> = TerminalNode<'i, VCtxType>;
type ErrN<'i> = ErrorNode<'i, VCtxType>;
type Str<'i> = CommonTokenStream<'i, ListSource<'i>>;
type Prs<'i> = VParser<'i, Str<'i>, DynStrategy<'i, Str<'i>>>;

// ------------------------------------------------------------------ tree shape --------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum N {
    /// rule, whether its context has no listener methods, children
    Rule(usize, bool, Vec<N>),
    Tok(isize),
    Err(isize),
}
fn silent(n: &Node) -> bool {
    match n.downcast_ref::<VRule>() {
        Some(VRule::Error(p)) => p.silent,
        _ => false,
    }
}
fn shape(n: &Node) -> N {
    if let Some(t) = n.downcast_ref::<Term>() {
        return N::Tok(t.symbol.get_token_index());
    }
    if let Some(t) = n.downcast_ref::<ErrN>() {
        return N::Err(t.symbol.get_token_index());
    }
    N::Rule(n.get_rule_index(), silent(n), n.get_children().map(|c| shape(&*c)).collect())
}
/// what listeners can see of a tree; tokens made up for missing ones only when walking
fn visible(n: &N, made_up: bool, out: &mut Vec<N>) {
    match n {
        N::Rule(_, true, k) => k.iter().for_each(|x| visible(x, made_up, out)),
        N::Rule(r, _, k) => {
            let mut o = vec![];
            k.iter().for_each(|x| visible(x, made_up, &mut o));
            out.push(N::Rule(*r, false, o))
        }
        N::Err(-1) if !made_up => (),
        x => out.push(x.clone()),
    }
}
fn walk_events(n: &[N], out: &mut Vec<Rv>) {
    for x in n {
        match x {
            N::Rule(r, _, k) => {
                out.push(Rv::Enter(*r, false));
                walk_events(k, out);
                out.push(Rv::Exit(*r));
            }
            N::Tok(i) => out.push(Rv::Tok(*i)),
            N::Err(i) => out.push(Rv::Err(*i)),
        }
    }
}

// ------------------------------------------------------------------ listeners ---------

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Rv {
    /// rule, whether the context already has the left operand
    Enter(usize, bool),
    Exit(usize),
    Tok(isize),
    Err(isize),
}
trait Sink {
    fn put(&mut self, e: Rv);
}
macro_rules! listener {
    ($t:ty) => {
        impl<'i> VListener<'i> for $t {}
        impl<'i> ParseTreeListener<'i, VCtxType> for $t {
            fn visit_terminal(&mut self, n: &Term<'i>) {
                self.put(Rv::Tok(n.symbol.get_token_index()))
            }
            fn visit_error_node(&mut self, n: &ErrN<'i>) {
                self.put(Rv::Err(n.symbol.get_token_index()))
            }
            fn enter_every_rule(&mut self, c: &Node<'i>) {
                let adopt = c.get_child(0).map(|x| (*x).downcast_ref::<VRule>().is_some()).unwrap_or(false);
                self.put(Rv::Enter(c.get_rule_index(), adopt))
            }
            fn exit_every_rule(&mut self, c: &Node<'i>) {
                self.put(Rv::Exit(c.get_rule_index()))
            }
        }
    };
}
/// keeps what it saw
struct La {
    tag: u64,
    log: Vec<Rv>,
}
impl Sink for La {
    fn put(&mut self, e: Rv) {
        told(self.tag, &e);
        self.log.push(e)
    }
}
listener!(La);
/// another layout, shares its log
struct Lb {
    _pad: [u8; 3],
    log: Rc<RefCell<Vec<Rv>>>,
    tag: u32,
}
impl Sink for Lb {
    fn put(&mut self, e: Rv) {
        told(self.tag as u64, &e);
        self.log.borrow_mut().push(e)
    }
}
listener!(Lb);
thread_local! {
    /// which listener was told what, over all of them; while it is kept
    static ORDER: RefCell<Option<Vec<(u64, Rv)>>> = RefCell::new(None);
}
/// number of the stateless listeners
const Z: u64 = 1000;
fn told(tag: u64, e: &Rv) {
    ORDER.with(|o| {
        if let Some(o) = o.borrow_mut().as_mut() {
            o.push((tag, e.clone()))
        }
    })
}
thread_local!(static ZLOG: RefCell<[Vec<Rv>; 2]> = Default::default());
/// without state of their own
struct Lz1;
impl Sink for Lz1 {
    fn put(&mut self, e: Rv) {
        told(Z, &e);
        ZLOG.with(|z| z.borrow_mut()[0].push(e))
    }
}
listener!(Lz1);
struct Lz2;
impl Sink for Lz2 {
    fn put(&mut self, e: Rv) {
        told(Z + 1, &e);
        ZLOG.with(|z| z.borrow_mut()[1].push(e))
    }
}
listener!(Lz2);

/// the tree the events describe
fn rebuild(ev: &[Rv]) -> Result<Vec<N>, String> {
    let mut st: Vec<(usize, Vec<N>)> = vec![(usize::MAX, vec![])];
    for (k, e) in ev.iter().enumerate() {
        match e {
            Rv::Enter(r, adopt) => {
                let mut kids = vec![];
                if *adopt {
                    match st.last_mut().unwrap().1.pop() {
                        Some(N::Rule(q, s, c)) if q == *r => kids.push(N::Rule(q, s, c)),
                        x => return Err(format!("event {}: rule {} is entered with a left operand, but the last completed node is {:?}", k, r, x)),
                    }
                }
                st.push((*r, kids));
            }
            Rv::Exit(r) => {
                let (q, kids) = st.pop().unwrap();
                if q != *r || st.is_empty() {
                    return Err(format!("event {}: exit of rule {} inside of rule {}", k, r, q as isize));
                }
                st.last_mut().unwrap().1.push(N::Rule(q, false, kids));
            }
            Rv::Tok(i) => st.last_mut().unwrap().1.push(N::Tok(*i)),
            Rv::Err(i) => st.last_mut().unwrap().1.push(N::Err(*i)),
        }
    }
    if st.len() != 1 {
        return Err(format!("{} rules are never exited", st.len() - 1));
    }
    Ok(st.pop().unwrap().1)
}
fn no_adopt(ev: &[Rv]) -> Vec<Rv> {
    ev.iter()
        .map(|e| match e {
            Rv::Enter(r, _) => Rv::Enter(*r, false),
            e => e.clone(),
        })
        .collect()
}

fn parser<'i>(l: &'i Loaded, toks: &'i [STok], cfg: &Cfg) -> Prs<'i> {
    let strat: DynStrategy<'i, Str<'i>> = Box::new(DefaultErrorStrategy::<VCtxType>::new());
    let mut p = VParser::new(l, CommonTokenStream::new(ListSource::new(toks)), strat, cfg.mode.pm(), cfg.preds.clone());
    p.base.build_parse_trees = cfg.build_tree;
    p.labels = cfg.labels;
    if cfg.ll1 {
        p.look = Some(l.look.get_or_init(|| decision_look(&l.prog.atn)));
    }
    p
}

/// one parse with n listeners: what each must have got
fn events(l: &Loaded, toks: &[STok], cfg: &Cfg, n: usize, st: &mut Stats) -> Result<N, String> {
    let mut p = parser(l, toks, cfg);
    let mut ids: Vec<ListenerId<La>> = vec![];
    let shared = Rc::new(RefCell::new(vec![]));
    let mut lb = None;
    for k in 0..n {
        if k == 1 {
            lb = Some(p.base.add_parse_listener(Box::new(Lb { _pad: [0; 3], log: shared.clone(), tag: 77 })));
        } else {
            ids.push(p.base.add_parse_listener(Box::new(La { tag: k as u64, log: vec![] })));
        }
    }
    let t = p.rule(0, 0).map_err(|e| format!("the parse failed with {}", e))?;
    let sh = shape((&*t).coerce_ref_to());
    let mut logs = vec![];
    for (k, id) in ids.into_iter().enumerate() {
        let b = p.base.remove_parse_listener(id);
        if b.tag != if k == 0 { 0 } else { 2 } {
            return Err("another listener is handed back than the one removed".into());
        }
        logs.push(b.log);
    }
    if let Some(id) = lb {
        let b = p.base.remove_parse_listener(id);
        if b.tag != 77 || !Rc::ptr_eq(&b.log, &shared) {
            return Err("another listener is handed back than the one removed".into());
        }
        logs.push(b.log.borrow().clone());
    }
    for x in &logs {
        st.transitions += x.len() as u64;
        if x != &logs[0] {
            return Err(format!("listeners get different events: {:?} and {:?}", logs[0], x));
        }
    }
    let mut want = vec![];
    visible(&sh, false, &mut want);
    let got = rebuild(&logs[0]).map_err(|e| format!("{}; events {:?}; tree {:?}", e, logs[0], sh))?;
    if got != want {
        return Err(format!("events {:?} describe {:?} but the tree is {:?}", logs[0], got, want));
    }
    // walking the tree
    let mut w = vec![];
    visible(&sh, true, &mut w);
    let mut wev = vec![];
    walk_events(&w, &mut wev);
    let b = ParseTreeWalker::<VCtxType, dyn VListener>::walk(Box::new(La { tag: 9, log: vec![] }), &*t);
    if b.tag != 9 || no_adopt(&b.log) != wev {
        return Err(format!("walking delivers {:?} instead of {:?}", b.log, wev));
    }
    let leaves = |v: &[Rv]| v.iter().filter(|e| matches!(e, Rv::Tok(_) | Rv::Err(0..))).cloned().collect::<Vec<_>>();
    if leaves(&b.log) != leaves(&logs[0]) {
        return Err(format!("walking delivers the leaves {:?}, the parse {:?}", leaves(&b.log), leaves(&logs[0])));
    }
    drop(t);
    drop(p);
    // without a tree being built the events are the same
    let c = Cfg { build_tree: false, ..cfg.clone() };
    let mut p = parser(l, toks, &c);
    let id = p.base.add_parse_listener(Box::new(La { tag: 5, log: vec![] }));
    p.rule(0, 0).map_err(|e| format!("the parse without a tree failed with {}", e))?;
    let b = p.base.remove_parse_listener(id);
    if no_adopt(&b.log) != no_adopt(&logs[0]) {
        return Err(format!("without building a tree the events are {:?}, with it {:?}", b.log, logs[0]));
    }
    Ok(sh)
}

pub fn c19(tier: Tier) -> Vec<Plan> {
    let mut v = over_families(1, move |f| lens1(f, tier) - tier.pick(1, 0), move |g, inputs, st| {
        let warm = Loaded::new(compile(g));
        let lab = warm.fresh();
        for i in inputs {
            let toks = stoks(i);
            let plain = Cfg::new(Mode::LL);
            for (l, cfg, n, what) in [(&warm, plain.clone(), 1 + i.len() % 3, "plain"), (&lab, plain.clone().ll1().labels(), 2, "LL(1) decisions and labels")] {
                st.traces += 1;
                st.states += n as u64;
                match guard(|| events(l, &toks, &cfg, n, st)) {
                    Ok(Ok(sh)) => {
                        st.outcome(&sh);
                        // listeners do not change the parse
                        match guard(|| parse_with(l, CommonTokenStream::new(ListSource::new(&toks)), &cfg, &mut |_, t| {
                            let got = t.map(|t| shape((&**t).coerce_ref_to()));
                            if got.as_ref() != Some(&sh) {
                                panic!("without listeners the tree is {:?}, with them {:?}", got, sh)
                            }
                        })) {
                            Ok(o) => st.sample(|| format!("{} {:?}: events rebuild {}", g.show(), i, o.tree.unwrap().show())),
                            Err(e) => st.fail(key(g, i), format!("{}\ninput {:?} ({}): {}", g.show(), i, what, e)),
                        }
                    }
                    Ok(Err(e)) => st.fail(key(g, i), format!("{}\ninput {:?} ({}, {} listeners): {}", g.show(), i, what, n, e)),
                    Err(e) => st.fail(key(g, i), format!("{}\ninput {:?} ({}): panic {}", g.show(), i, what, e)),
                }
            }
            if st.failed() {
                return;
            }
        }
    });
    v.push(registry(tier));
    for f in families(0) {
        let n = if f.alpha <= 3 { tier.pick(3, 4) } else { 2 };
        let inputs = strings(f.alpha, n);
        let gs = f.gs;
        let b = format!("{} ({} grammars), a listener added and removed by an action in each set of up to {} alternatives, with and without having been there from the start; all strings over {} tokens up to length {}", f.desc, gs.len(), tier.pick(2, 3), f.alpha, n);
        v.push(plan(format!("{}, listeners come and go during the parse", f.name), b, gs.len(), move |i, st| {
            let (_, slots) = place_g(&gs[i], &|_| vec![]);
            for m in (1u32..1 << slots.min(10)).filter(|m| m.count_ones() <= tier.pick(2, 3)) {
                let g = place_g(&gs[i], &|x| if m >> x & 1 == 1 { vec![El::Action(0)] } else { vec![] }).0;
                let l = Loaded::new(compile(&g));
                for t in &inputs {
                    let toks = stoks(t);
                    for k in 0..4 {
                        st.traces += 1;
                        let e = match guard(|| windows(&l, &toks, k & 1 == 1, k & 2 == 2, st)) {
                            Ok(Ok(())) => continue,
                            Ok(Err(e)) => e,
                            Err(e) => format!("panic {}", e),
                        };
                        st.fail(key(&g, t), format!("{}\ninput {:?} ({}{}): {}", g.show(), t, if k & 1 == 1 { "there from the start" } else { "added by the first action" }, if k & 2 == 2 { ", labels" } else { "" }, e));
                        return;
                    }
                }
            }
        }));
    }
    v
}

/// a listener that actions add and remove hears what another one hears meanwhile
fn windows(l: &Loaded, toks: &[STok], from_start: bool, labels: bool, st: &mut Stats) -> Result<(), String> {
    let mut cfg = Cfg::new(Mode::LL);
    if labels {
        cfg = cfg.ll1().labels();
    }
    let mut p = parser(l, toks, &cfg);
    let (all, some) = (Rc::new(RefCell::new(vec![])), Rc::new(RefCell::new(vec![])));
    let lb = |log: &Rc<RefCell<Vec<Rv>>>, tag| Box::new(Lb { _pad: [0; 3], log: log.clone(), tag });
    // live listener and since when, what it must have heard
    let live: Rc<RefCell<Option<(ListenerId<Lb>, usize)>>> = Default::default();
    let want: Rc<RefCell<Vec<Rv>>> = Default::default();
    if from_start {
        *live.borrow_mut() = Some((p.base.add_parse_listener(lb(&some, 2)), 0));
    }
    p.base.add_parse_listener(lb(&all, 1));
    let wrong: Rc<RefCell<Option<String>>> = Default::default();
    {
        let (all, some, live, want, wrong) = (all.clone(), some.clone(), live.clone(), want.clone(), wrong.clone());
        p.on_action = Some(Box::new(move |b, _| {
            let old = live.borrow_mut().take();
            match old {
                Some((id, since)) => {
                    let x = b.remove_parse_listener(id);
                    if x.tag != 2 || !Rc::ptr_eq(&x.log, &some) {
                        *wrong.borrow_mut() = Some("another listener is handed back than the one removed".into());
                    }
                    want.borrow_mut().extend_from_slice(&all.borrow()[since..]);
                }
                None => {
                    let id = b.add_parse_listener(Box::new(Lb { _pad: [0; 3], log: some.clone(), tag: 2 }));
                    *live.borrow_mut() = Some((id, all.borrow().len()));
                }
            }
        }));
    }
    let t = p.rule(0, 0).map_err(|e| format!("the parse failed with {}", e))?;
    if let Some((_, since)) = &*live.borrow() {
        want.borrow_mut().extend_from_slice(&all.borrow()[*since..]);
    }
    if let Some(w) = wrong.borrow_mut().take() {
        return Err(w);
    }
    let mut seen = vec![];
    visible(&shape((&*t).coerce_ref_to()), false, &mut seen);
    let got = rebuild(&all.borrow())?;
    if got != seen {
        return Err(format!("events {:?} describe {:?} but the tree is {:?}", all.borrow(), got, seen));
    }
    st.transitions += some.borrow().len() as u64;
    st.outcome(&*some.borrow());
    if *want.borrow() != *some.borrow() {
        return Err(format!("the listener that came and went heard {:?} instead of {:?}, the one that stayed {:?}", some.borrow(), want.borrow(), all.borrow()));
    }
    Ok(())
}

// ------------------------------------------------------------------ adding and removing

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add(u8),
    /// n-th of the live listeners
    Remove(usize),
    Clear,
    /// an id whose listener was dropped by Clear
    Stale,
    Parse,
}
enum Id {
    A(ListenerId<La>),
    B(ListenerId<Lb>),
    Z1(ListenerId<Lz1>),
    Z2(ListenerId<Lz2>),
}
struct Live {
    id: Id,
    tag: u64,
    want: Vec<Rv>,
    shared: Option<Rc<RefCell<Vec<Rv>>>>,
}
fn run_ops(l: &Loaded, toks: &[STok], ops: &[Op], st: &mut Stats) -> Result<(), String> {
    let cfg = Cfg::new(Mode::LL);
    let mut p = parser(l, toks, &cfg);
    let mut live: Vec<Live> = vec![];
    let mut stale: Vec<Id> = vec![];
    let mut zwant: [Vec<Rv>; 2] = Default::default();
    ZLOG.with(|z| *z.borrow_mut() = Default::default());
    let mut tag = 0;
    for (k, o) in ops.iter().enumerate() {
        st.transitions += 1;
        let at = || format!("step {} ({:?})", k, o);
        match o {
            Op::Add(kind) => {
                tag += 1;
                let mut shared = None;
                let id = match kind {
                    0 => Id::A(p.base.add_parse_listener(Box::new(La { tag, log: vec![] }))),
                    1 => {
                        let s = Rc::new(RefCell::new(vec![]));
                        shared = Some(s.clone());
                        Id::B(p.base.add_parse_listener(Box::new(Lb { _pad: [1; 3], log: s, tag: tag as u32 })))
                    }
                    2 => Id::Z1(p.base.add_parse_listener(Box::new(Lz1))),
                    _ => Id::Z2(p.base.add_parse_listener(Box::new(Lz2))),
                };
                live.push(Live { id, tag, want: vec![], shared });
            }
            Op::Remove(n) => {
                let x = live.remove(*n);
                match x.id {
                    Id::A(id) => {
                        let b = p.base.remove_parse_listener(id);
                        if b.tag != x.tag || b.log != x.want {
                            return Err(format!("{}: handed back listener {} with events {:?} instead of {} with {:?}", at(), b.tag, b.log, x.tag, x.want));
                        }
                    }
                    Id::B(id) => {
                        let b = p.base.remove_parse_listener(id);
                        if b.tag as u64 != x.tag || *b.log.borrow() != x.want || !Rc::ptr_eq(&b.log, x.shared.as_ref().unwrap()) {
                            return Err(format!("{}: handed back listener {} instead of {}", at(), b.tag, x.tag));
                        }
                    }
                    Id::Z1(id) => {
                        p.base.remove_parse_listener(id);
                    }
                    Id::Z2(id) => {
                        p.base.remove_parse_listener(id);
                    }
                }
            }
            Op::Clear => {
                p.base.remove_parse_listeners();
                stale.extend(live.drain(..).map(|x| x.id));
            }
            Op::Stale => {
                let id = stale.remove(0);
                let r = guard(|| match id {
                    Id::A(id) => drop(p.base.remove_parse_listener(id)),
                    Id::B(id) => drop(p.base.remove_parse_listener(id)),
                    Id::Z1(id) => drop(p.base.remove_parse_listener(id)),
                    Id::Z2(id) => drop(p.base.remove_parse_listener(id)),
                });
                if r.is_ok() {
                    return Err(format!("{}: the id of a dropped listener is accepted", at()));
                }
            }
            Op::Parse => {
                ORDER.with(|o| *o.borrow_mut() = Some(vec![]));
                let t = p.rule(0, 0);
                let order = ORDER.with(|o| o.borrow_mut().take()).unwrap();
                let t = t.map_err(|e| format!("{}: {}", at(), e))?;
                let sh = shape((&*t).coerce_ref_to());
                st.outcome(&sh);
                let mut v = vec![];
                visible(&sh, false, &mut v);
                // in the order of their addition, on leaving in the opposite one
                let mut want = vec![];
                for e in expected_events(&v) {
                    let mut tags: Vec<u64> = live
                        .iter()
                        .map(|x| match x.id {
                            Id::Z1(_) => Z,
                            Id::Z2(_) => Z + 1,
                            _ => x.tag,
                        })
                        .collect();
                    if let Rv::Exit(_) = e {
                        tags.reverse()
                    }
                    want.extend(tags.into_iter().map(|t| (t, e.clone())));
                }
                if order != want {
                    return Err(format!("{}: the listeners were told, in this order, {:?}\ninstead of {:?}", at(), order, want));
                }
                // every listener's own new events must describe the new tree
                for x in live.iter_mut() {
                    let new = match (&x.id, &x.shared) {
                        (Id::B(_), Some(s)) => {
                            let s = s.borrow();
                            if s.len() < x.want.len() || s[..x.want.len()] != x.want[..] {
                                return Err(format!("{}: the listener's past changed", at()));
                            }
                            Some(s[x.want.len()..].to_vec())
                        }
                        _ => None,
                    };
                    if let Some(new) = new {
                        if rebuild(&new)? != v {
                            return Err(format!("{}: events {:?} do not describe {:?}", at(), new, v));
                        }
                        x.want.extend(new);
                    } else if let Id::A(_) = x.id {
                        // looked at when handed back
                        x.want.extend(expected_events(&v));
                    }
                }
                for (z, w) in zwant.iter_mut().enumerate() {
                    let n = live.iter().filter(|x| matches!((&x.id, z), (Id::Z1(_), 0) | (Id::Z2(_), 1))).count();
                    for e in expected_events(&v) {
                        for _ in 0..n {
                            w.push(e.clone());
                        }
                    }
                    let got = ZLOG.with(|l| l.borrow()[z].clone());
                    if got != *w {
                        return Err(format!("{}: {} listeners of stateless type {} got {:?} instead of {:?}", at(), n, z, got, w));
                    }
                }
            }
        }
    }
    Ok(())
}
/// the order of the events for a tree of the grammar below, in which the context of an
/// operator node is entered after its left operand
fn expected_events(v: &[N]) -> Vec<Rv> {
    fn go(x: &N, o: &mut Vec<Rv>) {
        match x {
            N::Rule(r, _, k) => {
                let lead = matches!(k.first(), Some(N::Rule(q, _, _)) if q == r);
                if lead {
                    go(&k[0], o);
                }
                o.push(Rv::Enter(*r, lead));
                k.iter().skip(lead as usize).for_each(|c| go(c, o));
                o.push(Rv::Exit(*r));
            }
            N::Tok(i) => o.push(Rv::Tok(*i)),
            N::Err(i) => o.push(Rv::Err(*i)),
        }
    }
    let mut o = vec![];
    v.iter().for_each(|x| go(x, &mut o));
    o
}
fn registry(tier: Tier) -> Plan {
    let depth = tier.pick(6, 7);
    // all sequences, as prefixes; only complete ones run (every prefix is contained in one)
    let mut all: Vec<Vec<Op>> = vec![vec![]];
    let mut done = vec![];
    while let Some(s) = all.pop() {
        if s.len() == depth {
            done.push(s);
            continue;
        }
        let (mut live, mut stale, mut adds, mut parses) = (0usize, 0usize, 0, 0);
        for o in &s {
            match o {
                Op::Add(_) => {
                    live += 1;
                    adds += 1
                }
                Op::Remove(_) => live -= 1,
                Op::Clear => {
                    stale += live;
                    live = 0
                }
                Op::Stale => stale -= 1,
                Op::Parse => parses += 1,
            }
        }
        let mut next = vec![];
        if adds < 3 {
            next.extend((0..4).map(Op::Add));
        }
        next.extend((0..live).map(Op::Remove));
        if live > 0 {
            next.push(Op::Clear);
        }
        if stale > 0 {
            next.push(Op::Stale);
        }
        if parses < 3 {
            next.push(Op::Parse);
        }
        if next.is_empty() {
            done.push(s);
            continue;
        }
        for o in next {
            let mut t = s.clone();
            t.push(o);
            all.push(t);
        }
    }
    let g = Grammar {
        lexer: false,
        rules: vec![
            prule("r0", vec![vec![El::Rule(1, 0), El::Tok(3)], vec![El::Tok(2)]]),
            Rule { ops: Some(vec![vec![El::Prec(1), El::Tok(2)]]), ..prule("r1", vec![vec![El::Tok(1)]]) },
        ],
        max_token: 3,
        modes: 0,
        actions: vec![],
    };
    let warm = Loaded::new(compile(&g));
    let toks = stoks(&[1, 2, 3, 2, 1, 3, 1]);
    let n = done.len();
    plan(
        "registry",
        format!("all {} sequences of up to {} operations with at most three additions (two types with state, two without) and three parses: add, remove any, remove all, remove with the id of a dropped listener, parse", n, depth),
        (n + 499) / 500,
        move |c, st| {
            for ops in done.iter().skip(c * 500).take(500) {
                st.traces += 1;
                st.states += ops.len() as u64;
                match guard(|| run_ops(&warm, &toks, ops, st)) {
                    Ok(Ok(())) => st.sample(|| format!("{:?}", ops)),
                    Ok(Err(e)) => st.fail(format!("{:?}", ops), format!("operations {:?}\n{}", ops, e)),
                    Err(e) => st.fail(format!("{:?}", ops), format!("operations {:?}: panic {}", ops, e)),
                }
                if st.failed() {
                    return;
                }
            }
        },
    )
}

// ------------------------------------------------------------------ C20 ---------------

/// text of a token type: with characters that rendering must escape
fn ws_text(t: i32) -> String {
    match t {
        1 => "a".into(),
        2 => "b\n".into(),
        3 => " \t".into(),
        4 => "\r\\".into(),
        t => format!("t{}", t),
    }
}
fn esc(s: &str) -> String {
    s.replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r")
}
/// on-channel tokens of the input with off-channel ones in the gaps of `mask`
fn with_hidden(i: &[i32], mask: u32) -> Vec<STok> {
    let mut v = vec![];
    for k in 0..=i.len() {
        if (mask >> (k % 32)) & 1 == 1 {
            v.push(STok { ty: 2, ch: 1, text: "#".into() });
        }
        if k < i.len() {
            // and some without any text
            let text = if mask == 0x5555_5555 && k % 2 == 1 { String::new() } else { ws_text(i[k]) };
            v.push(STok { ty: i[k], ch: 0, text });
        }
    }
    v
}

/// the recorded facts of a leaf: is it an error node, token index, type, text
type Leaf = (bool, isize, isize, String);
fn leaf(n: &Node) -> Option<Leaf> {
    if let Some(t) = n.downcast_ref::<Term>() {
        return Some((false, t.symbol.get_token_index(), t.symbol.get_token_type(), t.symbol.get_text().to_string()));
    }
    n.downcast_ref::<ErrN>().map(|t| (true, t.symbol.get_token_index(), t.symbol.get_token_type(), t.symbol.get_text().to_string()))
}
fn addr<X: ?Sized>(r: &Rc<X>) -> usize {
    Rc::as_ptr(r) as *const () as usize
}

#[derive(Default)]
struct Seen {
    log: Vec<String>,
}
impl<'i> ParseTreeVisitor<'i, VCtxType> for Seen {
    fn visit_terminal(&mut self, n: &Term<'i>) {
        self.log.push(format!("t{}", n.symbol.get_token_index()));
    }
    fn visit_error_node(&mut self, n: &ErrN<'i>) {
        self.log.push(format!("e{}", n.symbol.get_token_index()));
    }
}
impl<'i> VVisitor<'i> for Seen {
    fn visit_rule(&mut self, ctx: &Node<'i>) {
        self.log.push(format!("r{}", ctx.get_rule_index()));
        self.visit_children(ctx);
        self.log.push(")".into());
    }
}
/// a visitor with results; `last`: the default aggregation, `limit`: stop when this long
struct Agg {
    tmp: Vec<isize>,
    last: bool,
    limit: usize,
}
impl<'i> ParseTreeVisitorCompat<'i> for Agg {
    type Node = VCtxType;
    type Return = Vec<isize>;
    fn temp_result(&mut self) -> &mut Vec<isize> {
        &mut self.tmp
    }
    fn visit_terminal(&mut self, n: &Term<'i>) -> Vec<isize> {
        vec![n.symbol.get_token_index()]
    }
    fn visit_error_node(&mut self, n: &ErrN<'i>) -> Vec<isize> {
        vec![1000 + n.symbol.get_token_index()]
    }
    fn aggregate_results(&self, mut a: Vec<isize>, n: Vec<isize>) -> Vec<isize> {
        if self.last {
            return n;
        }
        a.extend(n);
        a
    }
    fn should_visit_next_child(&self, _n: &Node<'i>, cur: &Vec<isize>) -> bool {
        cur.len() < self.limit
    }
}
impl<'i> VVisitor<'i> for Agg {}
/// the default results: the last child's
#[derive(Default)]
struct Dflt {
    tmp: isize,
}
impl<'i> ParseTreeVisitorCompat<'i> for Dflt {
    type Node = VCtxType;
    type Return = isize;
    fn temp_result(&mut self) -> &mut isize {
        &mut self.tmp
    }
    fn visit_terminal(&mut self, n: &Term<'i>) -> isize {
        n.symbol.get_token_index() + 7
    }
}
impl<'i> VVisitor<'i> for Dflt {}
fn want_dflt(n: &N) -> isize {
    match n {
        N::Tok(i) => i + 7,
        N::Err(_) => 0,
        N::Rule(_, _, k) => k.last().map(want_dflt).unwrap_or(0),
    }
}
fn want_agg(n: &N, limit: usize) -> Vec<isize> {
    match n {
        N::Tok(i) => vec![*i],
        N::Err(i) => vec![1000 + i],
        N::Rule(_, _, k) => {
            let mut r = vec![];
            for x in k {
                if r.len() >= limit {
                    break;
                }
                r.extend(want_agg(x, limit));
            }
            r
        }
    }
}
fn want_seen(n: &N, o: &mut Vec<String>) {
    match n {
        N::Tok(i) => o.push(format!("t{}", i)),
        N::Err(i) => o.push(format!("e{}", i)),
        N::Rule(r, _, k) => {
            o.push(format!("r{}", r));
            k.iter().for_each(|x| want_seen(x, o));
            o.push(")".into());
        }
    }
}

struct Q<'a> {
    p: &'a Compiled,
    toks: &'a [STok],
}
impl<'a> Q<'a> {
    /// checks a node against its children; returns its leaves and its rendered form
    fn node<'i>(&self, n: &Rc<Node<'i>>, path: &mut Vec<(usize, isize, usize)>, st: &mut Stats) -> Result<(Vec<Leaf>, String), String> {
        st.states += 1;
        let r = match leaf(&**n) {
            Some(l) => {
                let iv = n.get_source_interval();
                if (iv.a, iv.b) != (l.1, l.1) {
                    return Err(format!("leaf {:?} has interval {}..{}", l, iv.a, iv.b));
                }
                if n.get_text() != l.3 {
                    return Err(format!("leaf {:?} has text {:?}", l, n.get_text()));
                }
                if n.get_child_count() != 0 || n.get_child(0).is_some() || n.get_children().next().is_some() {
                    return Err(format!("leaf {:?} has children", l));
                }
                if l.1 >= 0 {
                    // what the token stream holds
                    let want = self.toks.get(l.1 as usize).map(|t| (t.ty as isize, t.text.as_str())).unwrap_or((-1, "<EOF>"));
                    if (l.2, l.3.as_str()) != want {
                        return Err(format!("leaf {:?} but the token is {:?}", l, want));
                    }
                }
                let e = esc(&l.3);
                return Ok((vec![l], e));
            }
            None => n.clone().downcast_rc::<VRule<'i>>().map_err(|_| "node of unknown type".to_string())?,
        };
        let kids: Vec<Rc<Node<'i>>> = n.get_children().collect();
        let rule = n.get_rule_index();
        let me = format!("node r{} with {} children", rule, kids.len());
        // access by index
        if n.get_child_count() != kids.len() || n.get_child(kids.len()).is_some() {
            return Err(format!("{}: child count {}", me, n.get_child_count()));
        }
        for (k, c) in kids.iter().enumerate() {
            if n.get_child(k).map(|x| addr(&x)) != Some(addr(c)) {
                return Err(format!("{}: get_child({}) is not child {}", me, k, k));
            }
        }
        path.insert(0, (rule, n.get_invoking_state(), addr(n)));
        // parents
        match (n.get_parent(), path.get(1)) {
            (None, None) => (),
            (Some(p), Some(w)) if addr(&p) == w.2 => (),
            (p, w) => return Err(format!("{}: parent {:?} instead of {:?}", me, p.map(|p| p.get_rule_index()), w)),
        }
        if n.has_parent() != (path.len() > 1) || n.get_parent_ctx().map(|p| addr(&p)) != n.get_parent().map(|p| addr(&p)) {
            return Err(format!("{}: has_parent {}", me, n.has_parent()));
        }
        // the chain of rules
        let names: Vec<String> = path.iter().map(|x| RULE_NAMES[x.0].to_string()).collect();
        let s = RuleContextExt::to_string(&r, Some(&RULE_NAMES), None);
        if s != format!("[{}]", names.join(" ")) {
            return Err(format!("{}: chain of rules {} instead of {:?}", me, s, names));
        }
        let states: Vec<String> = path.iter().filter(|x| x.1 != -1).map(|x| x.1.to_string()).collect();
        let s = RuleContextExt::to_string(&r, None, None);
        if s != format!("[{}]", states.join(" ")) {
            return Err(format!("{}: chain of states {} instead of {:?}", me, s, states));
        }
        if let Some(p) = n.get_parent() {
            let s = RuleContextExt::to_string(&r, Some(&RULE_NAMES), Some(p));
            if s != format!("[{}]", names[0]) {
                return Err(format!("{}: chain up to the parent {}", me, s));
            }
        }
        if n.is_empty() != (n.get_invoking_state() == -1) || (path.len() == 1) != n.is_empty() {
            return Err(format!("{}: is_empty {} with invoking state {}", me, n.is_empty(), n.get_invoking_state()));
        }
        // children
        let mut leaves = vec![];
        let mut text = String::new();
        let mut parts = vec![RULE_NAMES[rule].to_string()];
        for c in &kids {
            let (l, s) = self.node(c, path, st)?;
            text.extend(l.iter().map(|x| x.3.as_str()));
            leaves.extend(l);
            parts.push(s);
        }
        path.remove(0);
        if n.get_text() != text {
            return Err(format!("{}: text {:?} instead of {:?}", me, n.get_text(), text));
        }
        // by type
        let by = |t: isize| kids.iter().filter(|c| (***c).downcast_ref::<Term<'i>>().map(|x| x.symbol.get_token_type() == t).unwrap_or(false)).map(addr).collect::<Vec<_>>();
        for t in -1..=self.p.atn.max_token as isize + 1 {
            let want = by(t);
            let got: Vec<usize> = n.get_tokens(t).iter().map(addr).collect();
            let one: Vec<Option<usize>> = (0..=want.len()).map(|k| n.get_token(t, k).map(|x| addr(&x))).collect();
            let w1: Vec<Option<usize>> = want.iter().map(|x| Some(*x)).chain([None]).collect();
            if got != want || one != w1 {
                return Err(format!("{}: {} tokens of type {} found by get_tokens, {:?} by get_token, {} are there", me, got.len(), t, one, want.len()));
            }
        }
        macro_rules! typed {
            ($t:ty) => {{
                let want: Vec<usize> = kids.iter().filter(|c| (***c).downcast_ref::<$t>().is_some()).map(addr).collect();
                let all: Vec<usize> = r.children_of_type::<$t>().iter().map(addr).collect();
                let one: Vec<usize> = (0..).map(|k| r.child_of_type::<$t>(k).map(|x| addr(&x))).take_while(|x| x.is_some()).map(|x| x.unwrap()).take(99).collect();
                if all != want || one != want {
                    return Err(format!("{}: {} children of a type, children_of_type finds {}, child_of_type {}", me, want.len(), all.len(), one.len()));
                }
            }};
        }
        typed!(VRule<'i>);
        typed!(Term<'i>);
        typed!(ErrN<'i>);
        // extent
        let iv = n.get_source_interval();
        let (a, b) = (n.start().get_token_index(), n.stop().get_token_index());
        if (iv.a, iv.b) != (a, b) {
            return Err(format!("{}: interval {}..{} but start {} stop {}", me, iv.a, iv.b, a, b));
        }
        let real: Vec<&Leaf> = leaves.iter().filter(|l| l.1 >= 0).collect();
        if let (Some(f), Some(l)) = (real.first(), real.last()) {
            if a != f.1 {
                return Err(format!("{}: start token {} but the first token is {}", me, a, f.1));
            }
            // end of file is beyond the input: some nodes that matched it stop before it
            let l2 = real.iter().rev().find(|x| x.2 != -1);
            if b != l.1 && !(l.2 == -1 && l2.map(|x| x.1 == b).unwrap_or(true)) {
                return Err(format!("{}: stop token {} but the last token is {}", me, b, l.1));
            }
        } else if a >= 0 && b >= 0 && a <= b && self.toks.get(a as usize).is_some() {
            // nothing was matched
            return Err(format!("{}: start {} stop {} but no token was matched", me, a, b));
        }
        let mut o = parts.join(" ");
        if !kids.is_empty() {
            o = format!("({})", o);
        }
        Ok((leaves, o))
    }
    fn tree<'i>(&self, t: &Rc<VRule<'i>>, p: &Prs<'i>, st: &mut Stats) -> Result<N, String> {
        let n: Rc<Node<'i>> = t.clone().coerce_rc_to();
        let sh = shape(&*n);
        let (_, s) = self.node(&n, &mut vec![], st)?;
        let got = antlr_rust::trees::string_tree(&*n, &RULE_NAMES);
        if got != s {
            return Err(format!("rendered as {:?} instead of {:?}", got, s));
        }
        let got = n.to_string_tree(&p.base);
        if got != s {
            return Err(format!("to_string_tree gives {:?} instead of {:?}", got, s));
        }
        let mut v = Seen::default();
        v.visit_node(&*n);
        let mut w = vec![];
        want_seen(&sh, &mut w);
        if v.log != w {
            return Err(format!("a visitor sees {:?} instead of {:?}", v.log, w));
        }
        let mut v = Seen::default();
        t.accept_children(&mut v);
        if v.log[..] != w[1..w.len() - 1] {
            return Err(format!("accept_children visits {:?} instead of {:?}", v.log, w));
        }
        for limit in [1, 2, usize::MAX] {
            let mut a = Agg { tmp: vec![], last: false, limit };
            let got = a.visit(&*n);
            let want = want_agg(&sh, limit);
            if got != want || !a.tmp.is_empty() {
                return Err(format!("a visitor with results (limit {}) returns {:?} instead of {:?}", limit, got, want));
            }
        }
        let mut d = Dflt::default();
        let (got, want) = (d.visit(&*n), want_dflt(&sh));
        if got != want {
            return Err(format!("a visitor with default aggregation returns {:?} instead of {:?}", got, want));
        }
        let b = ParseTreeWalker::<VCtxType, dyn VListener>::walk(Box::new(La { tag: 9, log: vec![] }), &**t);
        let (mut w, mut wev) = (vec![], vec![]);
        visible(&sh, true, &mut w);
        walk_events(&w, &mut wev);
        if no_adopt(&b.log) != wev {
            return Err(format!("walking delivers {:?} instead of {:?}", b.log, wev));
        }
        Ok(sh)
    }
}

pub fn c20(tier: Tier) -> Vec<Plan> {
    over_families(1, move |f| lens1(f, tier) - tier.pick(1, 0), move |g, inputs, st| {
        let warm = Loaded::new(compile(g));
        let lab = warm.fresh();
        for i in inputs {
            for (mask, labels) in [(0u32, false), (!0, false), (0x5555_5555, true)] {
                let toks = with_hidden(i, mask);
                let cfg = if labels { Cfg::new(Mode::LL).ll1().labels() } else { Cfg::new(Mode::LL) };
                let l = if labels { &lab } else { &warm };
                st.traces += 1;
                let r = guard(|| {
                    let mut p = parser(l, &toks, &cfg);
                    let t = p.rule(0, 0).map_err(|e| format!("the parse failed with {}", e))?;
                    st.transitions += p.decs.len() as u64;
                    Q { p: &warm.prog, toks: &toks }.tree(&t, &p, st)
                });
                match r {
                    Ok(Ok(sh)) => {
                        st.outcome(&sh);
                        st.sample(|| format!("{} {:?}: {:?}", g.show(), i, sh));
                    }
                    Ok(Err(e)) => st.fail(key(g, i), format!("{}\ninput {:?} (hidden tokens {:x}, labels {}): {}", g.show(), i, mask, labels, e)),
                    Err(e) => st.fail(key(g, i), format!("{}\ninput {:?} (hidden tokens {:x}, labels {}): panic {}", g.show(), i, mask, labels, e)),
                }
            }
            if st.failed() {
                return;
            }
        }
    })
}
