//! C28: the alternative a decision takes, on inputs that are not in the language too.
//!
//! The reference is a pushdown simulation over the grammar's own structure: for every
//! alternative the set of ways to go on, as lists of what is still to be matched. Without
//! callers below the deciding rule (any caller may follow) it models the first stage of
//! prediction, with the actual callers the second.
use crate::enumg::strings;
use crate::fam::*;
use crate::grammar::*;
use crate::interp::*;
use crate::p_core::{key, lens1};
use crate::p_diag::{stops, CONFS};
use crate::p_exp::Firsts;
use crate::p_pred::guarded;
use crate::refp::*;
use crate::run::*;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};
use std::sync::Arc;

/// a list of what is left, top last: node * 2 + (of the deciding rule's own invocation)
type Stack = Vec<u32>;
const END: u32 = 1 << 30;
const WILD: u32 = 1 << 29;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Conf {
    /// None: the outermost rule is done
    top: Option<u32>,
    rest: Stack,
    /// the deciding rule has been completed on the way
    fin: bool,
    /// predicates seen so far hold
    sem: bool,
}
/// result and, for a failed prediction, the offending token
pub type Want = (isize, Option<usize>);

pub struct Sim<'a> {
    pub g: &'a RProg,
    /// for every rule, its call sites: calling rule and what follows there
    sites: Vec<Vec<(usize, Stack)>>,
    memo: RefCell<HashMap<(Stack, usize, usize, Vec<i32>), BTreeSet<Want>>>,
    pub states: std::cell::Cell<usize>,
}
impl<'a> Sim<'a> {
    pub fn new(g: &'a RProg) -> Sim<'a> {
        let mut sites = vec![vec![]; g.rules.len()];
        for (r, id) in g.rules.iter().enumerate() {
            walk(g, r, *id, &vec![], &mut sites);
        }
        Sim { g, sites, memo: Default::default(), states: Default::default() }
    }
    fn close(&self, start: Stack, edge: bool, from: (bool, bool), pred: &dyn Fn(i32) -> bool, full: bool, out: &mut HashSet<Conf>) {
        let mut work = vec![(start, from.0, from.1, false)];
        let mut seen = HashSet::new();
        while let Some(x) = work.pop() {
            if !seen.insert(x.clone()) {
                continue;
            }
            let (mut s, fin, sem, shaded) = x;
            let c = match s.pop() {
                None => {
                    out.insert(Conf { top: None, rest: vec![], fin: true, sem });
                    continue;
                }
                Some(c) => c,
            };
            if c == END {
                work.push((s, fin || !full, sem, shaded));
                continue;
            }
            if c & WILD != 0 {
                let r = (c & !WILD) as usize;
                if self.sites[r].is_empty() {
                    out.insert(Conf { top: None, rest: vec![], fin: true, sem });
                }
                for (caller, rest) in &self.sites[r] {
                    let mut s = vec![WILD | *caller as u32];
                    s.extend(rest);
                    work.push((s, true, sem, shaded));
                }
                continue;
            }
            let own = c & 1;
            let put = |id: usize| (id as u32) * 2 + own;
            match &self.g.nodes[c as usize / 2] {
                N::M(_) => {
                    out.insert(Conf { top: Some(c / 2), rest: s, fin, sem });
                }
                N::Seq(v) => {
                    s.extend(v.iter().rev().map(|x| put(*x)));
                    work.push((s, fin, sem, shaded));
                }
                N::Choice(_, v) => {
                    for a in v {
                        let mut s = s.clone();
                        s.push(put(*a));
                        work.push((s, fin, sem, shaded));
                    }
                }
                N::Star(_, b, _, _) => {
                    let mut t = s.clone();
                    t.push(c);
                    t.push(put(*b));
                    work.push((t, fin, sem, shaded));
                    work.push((s, fin, sem, shaded));
                }
                N::Call(r, _) => {
                    s.push(self.g.rules[*r] as u32 * 2);
                    work.push((s, fin, sem, shaded));
                }
                N::Pred(k, local) => {
                    let seen = edge && !shaded && (own == 1 || !*local);
                    let ok = !seen || pred(*k);
                    if full && !ok {
                        continue;
                    }
                    work.push((s, fin, sem && ok, shaded));
                }
                N::Prec(_) => work.push((s, fin, sem, shaded)),
                N::Act(_) => work.push((s, fin, sem, true)),
            }
        }
        self.states.set(self.states.get() + out.len());
    }
    fn step(&self, cur: &[HashSet<Conf>], t: i32, pred: &dyn Fn(i32) -> bool, full: bool) -> Vec<HashSet<Conf>> {
        let mut next: Vec<HashSet<Conf>> = cur
            .iter()
            .map(|cs| {
                let mut o = HashSet::new();
                for c in cs {
                    if let Some(n) = c.top {
                        if let N::M(el) = &self.g.nodes[n as usize] {
                            if el_matches(el, t, self.g.max_token) {
                                self.close(c.rest.clone(), false, (c.fin, c.sem), pred, full, &mut o);
                            }
                        }
                    }
                }
                if t == EOF {
                    o.retain(|c| c.top.is_none());
                }
                o
            })
            .collect();
        // the end of the outermost rule matches the end of the input; with the actual callers
        // nothing follows it, so that anything may, unless the end is reached by this token
        let keep = if full { !next.iter().flatten().any(|c| c.top.is_none()) } else { t == EOF };
        if keep {
            for (o, cs) in next.iter_mut().zip(cur) {
                o.extend(cs.iter().filter(|c| c.top.is_none()).cloned());
            }
        }
        next
    }
    fn alive(cs: &[HashSet<Conf>]) -> Vec<usize> {
        (0..cs.len()).filter(|a| !cs[*a].is_empty()).collect()
    }
    /// is there a position that several alternatives are at
    fn shared(cs: &[HashSet<Conf>]) -> bool {
        let mut of: HashMap<Option<u32>, usize> = HashMap::new();
        for (a, x) in cs.iter().enumerate() {
            for c in x {
                if *of.entry(c.top).or_insert(a) != a {
                    return true;
                }
            }
        }
        false
    }
    /// alternatives that may count as having completed the rule, and those that must.
    /// At a position also reached within an invocation at the bottom of all known calls it is
    /// open: states of prediction that differ in nothing else are one (in ANTLR, too)
    fn finished(&self, cs: &[HashSet<Conf>], sem: bool, rule: usize) -> (Vec<usize>, Vec<usize>) {
        let (mut some, mut all) = (vec![], vec![]);
        for (a, x) in cs.iter().enumerate() {
            let mut open = HashSet::new();
            for c in x {
                if c.sem == sem && c.rest.first() == Some(&(WILD | rule as u32)) {
                    open.insert(c.top);
                }
            }
            if x.iter().any(|c| c.sem == sem && (c.fin || open.contains(&c.top))) {
                some.push(a);
            }
            if x.iter().any(|c| c.sem == sem && c.fin && !open.contains(&c.top)) {
                all.push(a);
            }
        }
        (some, all)
    }
    /// what the decision may do: `alts` are the alternatives' first nodes on top of `own`, the
    /// rest of the deciding rule; `callers` what follows that rule. None: not modelled.
    fn decide(&self, alts: &[Stack], rule: usize, own: &Stack, callers: &Stack, toks: &[i32], at: usize, preds: u64, sll: bool) -> Option<BTreeSet<Want>> {
        let pred = |k: i32| (preds >> k) & 1 == 1;
        let mut res = BTreeSet::new();
        let start = |bottom: &Stack, full: bool| -> Vec<HashSet<Conf>> {
            alts.iter()
                .map(|a| {
                    let mut s = bottom.clone();
                    s.extend(own);
                    s.extend(a);
                    let mut o = HashSet::new();
                    self.close(s, true, (false, true), &pred, full, &mut o);
                    o
                })
                .collect()
        };
        let mut cur = start(&vec![WILD | rule as u32], false);
        let mut second = false;
        let mut i = at;
        loop {
            if i >= toks.len() {
                return None;
            }
            let next = self.step(&cur, toks[i], &pred, false);
            let live = Self::alive(&next);
            match live.len() {
                0 => {
                    // the lowest alternative that has completed the rule, those whose
                    // predicates hold first
                    let mut sure = false;
                    for sem in [true, false] {
                        let (some, all) = self.finished(&cur, sem, rule);
                        let lim = all.first().copied().unwrap_or(usize::MAX);
                        res.extend(some.into_iter().filter(|a| *a <= lim).map(|a| (a as isize + 1, None)));
                        if !all.is_empty() {
                            sure = true;
                            break;
                        }
                    }
                    if !sure {
                        res.insert((-1, Some(i)));
                    }
                    break;
                }
                1 => {
                    let ok = next[live[0]].iter().any(|c| c.sem);
                    res.insert(if ok { (live[0] as isize + 1, None) } else { (-1, Some(at)) });
                    break;
                }
                _ => {}
            }
            if Self::shared(&next) {
                // possibly a conflict
                second = true;
                if sll {
                    res.insert((live[0] as isize + 1, None));
                }
                if next.iter().flatten().any(|c| !c.sem) {
                    // which the predicates may resolve
                    for a in &live {
                        if next[*a].iter().any(|c| c.sem) {
                            res.insert((*a as isize + 1, None));
                        }
                    }
                    if !next.iter().flatten().any(|c| c.sem) {
                        res.insert((-1, Some(at)));
                    }
                }
            }
            if toks[i] == EOF {
                break;
            }
            cur = next;
            i += 1;
        }
        if second && !sll {
            let mut b = callers.clone();
            b.push(END);
            let mut cur = start(&b, true);
            let mut i = at;
            loop {
                if i >= toks.len() {
                    return None;
                }
                let next = self.step(&cur, toks[i], &pred, true);
                let live = Self::alive(&next);
                match live.len() {
                    0 => {
                        res.insert((-1, Some(i)));
                        break;
                    }
                    1 => {
                        res.insert((live[0] as isize + 1, None));
                        break;
                    }
                    _ => {}
                }
                if Self::shared(&next) {
                    res.insert((live[0] as isize + 1, None));
                }
                if toks[i] == EOF {
                    break;
                }
                cur = next;
                i += 1;
            }
        }
        Some(res)
    }
}
fn walk(g: &RProg, rule: usize, id: usize, rest: &Stack, sites: &mut Vec<Vec<(usize, Stack)>>) {
    match &g.nodes[id] {
        N::Seq(v) => {
            for k in 0..v.len() {
                let mut r = rest.clone();
                r.extend(v[k + 1..].iter().rev().map(|x| *x as u32 * 2));
                walk(g, rule, v[k], &r, sites);
            }
        }
        N::Choice(_, v) => v.iter().for_each(|x| walk(g, rule, *x, rest, sites)),
        N::Star(_, b, _, _) => {
            let mut r = rest.clone();
            r.push(id as u32 * 2);
            walk(g, rule, *b, &r, sites)
        }
        N::Call(r, _) => {
            if !sites[*r].contains(&(rule, rest.clone())) {
                sites[*r].push((rule, rest.clone()))
            }
        }
        _ => {}
    }
}

/// follows the recorded decisions up to the first error
struct Follow<'a, 'b> {
    sim: &'b Sim<'a>,
    toks: &'b [i32],
    decs: &'b [Dec],
    k: usize,
    i: usize,
    preds: u64,
    sll: bool,
    checked: u64,
    open: u64,
    /// tokens asked for up to the end of every decision, to be judged
    reads: Option<&'b Reads<'b>>,
    /// how many were needed so far
    need: usize,
}
/// tokens asked for and stacks of invoking states, by decision
struct Reads<'b> {
    asked: &'b [usize],
    stacks: &'b [Vec<isize>],
    mode: Mode,
    f: &'b Firsts<'b>,
    far: &'b RefCell<HashMap<(usize, Vec<isize>, Vec<i32>, usize), usize>>,
}
enum Halt {
    /// the parser met an error here
    Error,
    /// and rightly so; permitted offending tokens
    NoAlt(Vec<usize>),
    Wrong(String),
}
impl<'a, 'b> Follow<'a, 'b> {
    /// `own`: rest of the current rule (codes), `callers`: below it
    fn go(&mut self, id: usize, rule: usize, own: &Stack, callers: &Stack) -> Result<(), Halt> {
        let g = self.sim.g;
        let code = |x: usize| x as u32 * 2 + 1;
        match &g.nodes[id] {
            N::M(el) => {
                if self.i < self.toks.len() && el_matches(el, self.toks[self.i], g.max_token) {
                    // the token after it is fetched when one is consumed, if there is one
                    self.i += 1;
                    self.need = self.need.max((self.i + 1).min(self.toks.len()));
                    return Ok(());
                }
                return Err(Halt::Error);
            }
            N::Seq(v) => {
                for k in 0..v.len() {
                    let mut o = own.clone();
                    o.extend(v[k + 1..].iter().rev().map(|x| code(*x)));
                    self.go(v[k], rule, &o, callers)?;
                }
            }
            N::Choice(None, v) => self.go(v[0], rule, own, callers)?,
            N::Choice(Some(d), v) => {
                let alts: Vec<Stack> = v.iter().map(|x| vec![code(*x)]).collect();
                let guarded = v.iter().any(|x| matches!(&g.nodes[*x], N::Seq(s) if s.first().map(|f| matches!(g.nodes[*f], N::Prec(_))).unwrap_or(false)));
                let a = self.ask(*d, &alts, rule, own, callers, guarded)?;
                self.go(v[a - 1], rule, own, callers)?;
            }
            N::Star(d, b, greedy, lr) => loop {
                let enter = vec![code(id), code(*b)];
                let alts = if *greedy { vec![enter, vec![]] } else { vec![vec![], enter] };
                let a = self.ask(*d, &alts, rule, own, callers, *lr)?;
                if (a == 1) != *greedy {
                    return Ok(());
                }
                let mut o = own.clone();
                o.push(code(id));
                self.go(*b, rule, &o, callers)?;
            },
            N::Call(r, _) => {
                let mut c = callers.clone();
                c.push(END);
                c.extend(own.iter().map(|x| x & !1));
                self.go(g.rules[*r], *r, &vec![], &c)?;
            }
            N::Pred(k, _) => {
                if (self.preds >> k) & 1 == 0 {
                    return Err(Halt::Error);
                }
            }
            N::Prec(_) | N::Act(_) => {}
        }
        Ok(())
    }
    fn ask(&mut self, d: usize, alts: &[Stack], rule: usize, own: &Stack, callers: &Stack, skip: bool) -> Result<usize, Halt> {
        if self.k == self.decs.len() {
            return Err(Halt::Error);
        }
        let (dd, at, a) = self.decs[self.k];
        self.k += 1;
        if dd != d || at != self.i as isize {
            return Err(Halt::Wrong(format!("decision {} at {} instead of decision {} at {}", dd, at, d, self.i)));
        }
        if let Some(reads) = self.reads {
            let had = reads.asked[self.k - 1];
            if skip || self.i >= self.toks.len() {
                self.need = self.need.max(had);
            } else {
                let stack = &reads.stacks[self.k - 1];
                let mk = (d, stack.clone(), self.toks[self.i..].to_vec(), reads.mode as usize);
                let known = reads.far.borrow().get(&mk).cloned();
                let n = known.unwrap_or_else(|| stops(reads.f, d, stack, self.toks, self.i, reads.mode) + 1 - self.i);
                reads.far.borrow_mut().insert(mk, n);
                self.checked += 1;
                self.open += (n > 1) as u64;
                self.need = self.need.max(self.i + n);
            }
            if had > self.need {
                return Err(Halt::Wrong(format!("{} tokens have been asked for after decision {} at {}, {} are needed", had, d, at, self.need)));
            }
            return if a < 1 { Err(Halt::Error) } else { Ok(a as usize) };
        }
        if !skip {
            let mut key = callers.clone();
            key.push(END | 1);
            key.extend(own);
            let mk = (key, d * 2 + self.sll as usize, self.preds as usize, self.toks[self.i.min(self.toks.len())..].to_vec());
            let known = self.sim.memo.borrow().get(&mk).cloned();
            let want = match known {
                Some(w) => Some(w),
                None => {
                    let w = self.sim.decide(alts, rule, own, callers, self.toks, self.i, self.preds, self.sll);
                    if let Some(w) = &w {
                        // offsets from the end: independent of the position
                        let rel = w.iter().map(|(a, o)| (*a, o.map(|o| self.toks.len() - o))).collect();
                        self.sim.memo.borrow_mut().insert(mk, rel);
                    }
                    w.map(|w| w.iter().map(|(a, o)| (*a, o.map(|o| self.toks.len() - o))).collect())
                }
            };
            if let Some(w) = want {
                self.checked += 1;
                if w.len() > 1 {
                    self.open += 1;
                }
                if !w.iter().any(|(x, _)| *x == a) {
                    return Err(Halt::Wrong(format!("decision {} at {} takes {} instead of {:?}", d, at, a, w.iter().map(|x| x.0).collect::<Vec<_>>())));
                }
                if a < 0 {
                    let offs: Vec<usize> = w.iter().filter(|x| x.0 < 0).filter_map(|x| x.1).map(|o| self.toks.len() - o).collect();
                    return Err(Halt::NoAlt(offs));
                }
            } else if a < 0 {
                return Err(Halt::Error);
            }
        } else if a < 0 {
            return Err(Halt::Error);
        }
        if a < 1 || a as usize > alts.len() {
            return Err(Halt::Wrong(format!("decision {} at {} takes alternative {} of {}", d, at, a, alts.len())));
        }
        Ok(a as usize)
    }
}

fn check(g: &Grammar, sim: &Sim, l: &Loaded, input: &[i32], cfg: &Cfg, what: &str, st: &mut Stats) {
    let preds = match cfg.preds {
        Preds::Mask(m) => m,
        _ => unreachable!(),
    };
    let o = guard(|| parse(l, &stoks(input), cfg));
    st.traces += 1;
    let name = || format!("{} {:x}", key(g, input), preds);
    let head = || format!("{}\ninput {:?}, predicates {:b} ({} cache): ", g.show(), input, preds & 0xff, what);
    let o = match o {
        Ok(o) => o,
        Err(e) => return st.fail(name(), format!("{}panic {}", head(), e)),
    };
    st.transitions += o.decs.len() as u64;
    let mut toks = input.to_vec();
    toks.push(EOF);
    let mut f = Follow { sim, toks: &toks, decs: &o.decs[..o.clean], k: 0, i: 0, preds, sll: cfg.mode == Mode::Sll, checked: 0, open: 0, reads: None, need: 0 };
    let r = f.go(sim.g.rules[0], 0, &vec![], &vec![]);
    st.count("decisions checked", f.checked);
    st.count("of them with more than one permitted outcome", f.open);
    st.outcome(&o.decs);
    match r {
        Err(Halt::NoAlt(offs)) => {
            st.count("failed predictions", 1);
            match o.errors.first().map(|e| &e.kind) {
                Some(EKind::NoAlt { off, .. }) if offs.iter().any(|x| *x as isize == *off) => {}
                x => st.fail(name(), format!("{}the failed prediction is reported as {:?}, offending token {:?}", head(), x, offs)),
            }
        }
        Err(Halt::Wrong(e)) => st.fail(name(), format!("{}{}; decisions {:?} errors {:?}", head(), e, o.decs, o.errors.iter().map(|e| &e.msg).collect::<Vec<_>>())),
        Ok(()) if !o.errors.is_empty() => st.fail(name(), format!("{}the parser's own decisions lead to the end, but {:?} is reported", head(), o.errors[0])),
        Err(Halt::Error) if o.errors.is_empty() && o.err.is_none() => st.fail(name(), format!("{}the parser's decisions {:?} lead to an error, but none is reported", head(), o.decs)),
        _ => {}
    }
}

/// the start rule without the end of the input, or with that optional (not greedy: unlikely)
pub fn open_end(g: &Grammar, how: &str) -> Grammar {
    let mut g = g.clone();
    for a in g.rules[0].alts.iter_mut() {
        if a.last() == Some(&El::Tok(EOF)) {
            a.pop();
            if how != "open" {
                a.push(El::Opt(vec![vec![El::Tok(EOF)]], how == "optional"));
            }
        }
    }
    g
}

pub fn c28(tier: Tier) -> Vec<Plan> {
    let mut v = vec![];
    for f in families(tier.pick(1, 2)) {
        let n = lens1(&f, tier);
        let inputs = Arc::new(strings(f.alpha, n));
        let gs = f.gs;
        let b = format!("{} ({} grammars); all {} token strings over {} tokens up to length {}", f.desc, gs.len(), inputs.len(), f.alpha, n);
        v.push(plan(f.name, b, gs.len(), move |i, st| {
            let g = &gs[i];
            let prog = compile(g);
            let rp = RProg::new(&prog);
            let sim = Sim::new(&rp);
            let l = Loaded::new(prog);
            let sll = l.fresh();
            for input in inputs.iter() {
                check(g, &sim, &l.fresh(), input, &Cfg::new(Mode::LL), "cold", st);
                check(g, &sim, &l, input, &Cfg::new(Mode::LL), "warm", st);
                check(g, &sim, &sll, input, &Cfg::new(Mode::Sll), "SLL, warm", st);
                if st.failed() {
                    return;
                }
            }
            st.states += sim.states.get() as u64;
        }));
    }
    for f in families(tier.pick(0, 1)) {
        if matches!(f.name, "classic" | "sets") {
            continue;
        }
        let n = if f.alpha <= 2 { tier.pick(3, 4) } else { 3 };
        let inputs = strings(f.alpha, n);
        let gs = f.gs;
        let b = format!("{} ({} grammars), every choice of up to 2 alternatives guarded by predicates: distinct, equal, one depending on its context, one behind an action; all truth assignments, all strings over {} tokens up to length {}", f.desc, gs.len(), f.alpha, n);
        v.push(plan(format!("{} with predicates", f.name), b, gs.len(), move |i, st| {
            for g in guarded(&gs[i], 2) {
                let prog = compile(&g);
                let rp = RProg::new(&prog);
                let sim = Sim::new(&rp);
                let l = Loaded::new(prog);
                let sll = l.fresh();
                for input in &inputs {
                    for m in 0..4 {
                        check(&g, &sim, &l, input, &Cfg::new(Mode::LL).preds(Preds::Mask(m)), "warm", st);
                        check(&g, &sim, &sll, input, &Cfg::new(Mode::Sll).preds(Preds::Mask(m)), "SLL, warm", st);
                    }
                    if st.failed() {
                        return;
                    }
                }
                st.states += sim.states.get() as u64;
            }
        }));
    }
    for how in ["open", "optional", "unlikely"] {
        for f in families(tier.pick(0, 1)) {
            let n = lens1(&f, tier).min(tier.pick(4, 5));
            let inputs = Arc::new(strings(f.alpha, n));
            let gs: Vec<Grammar> = f.gs.iter().map(|g| open_end(g, how)).collect();
            let b = format!("{} ({} grammars), the end of the input {} in the start rule; all {} token strings over {} tokens up to length {}", f.desc, gs.len(), how, inputs.len(), f.alpha, n);
            v.push(plan(format!("{}, {} end", f.name, how), b, gs.len(), move |i, st| {
                let g = &gs[i];
                let prog = compile(g);
                let rp = RProg::new(&prog);
                let sim = Sim::new(&rp);
                let l = Loaded::new(prog);
                let sll = l.fresh();
                for input in inputs.iter() {
                    check(g, &sim, &l.fresh(), input, &Cfg::new(Mode::LL), "cold", st);
                    check(g, &sim, &l, input, &Cfg::new(Mode::LL), "warm", st);
                    check(g, &sim, &sll, input, &Cfg::new(Mode::Sll), "SLL, warm", st);
                    if st.failed() {
                        return;
                    }
                }
                st.states += sim.states.get() as u64;
            }));
        }
    }
    v
}

/// how far ahead the parser reads
fn reads(g: &Grammar, sim: &Sim, firsts: &Firsts, far: &RefCell<HashMap<(usize, Vec<isize>, Vec<i32>, usize), usize>>, l: &Loaded, input: &[i32], cfg: &Cfg, what: &str, st: &mut Stats) {
    let o = guard(|| parse(l, &stoks(input), cfg));
    st.traces += 1;
    let head = || format!("{}\ninput {:?} ({}): ", g.show(), input, what);
    let o = match o {
        Ok(o) => o,
        Err(e) => return st.fail(key(g, input), format!("{}panic {}", head(), e)),
    };
    st.transitions += o.decs.len() as u64;
    let mut toks = input.to_vec();
    toks.push(EOF);
    let clean = o.errors.is_empty() && o.err.is_none();
    let n = if clean { o.decs.len() } else { o.clean };
    let r = Reads { asked: &o.reads[..n], stacks: &o.dec_stacks, mode: cfg.mode, f: firsts, far };
    let mut f = Follow { sim, toks: &toks, decs: &o.decs[..n], k: 0, i: 0, preds: !0, sll: cfg.mode == Mode::Sll, checked: 0, open: 0, reads: Some(&r), need: 1 };
    let r = f.go(sim.g.rules[0], 0, &vec![], &vec![]);
    let need = f.need;
    st.count("decisions checked", f.checked);
    st.count("of them with more than one token to look at", f.open);
    st.outcome(&o.reads);
    match r {
        Err(Halt::Wrong(e)) => st.fail(key(g, input), format!("{}{}; decisions {:?}, tokens asked for {:?}", head(), e, o.decs, o.reads)),
        Ok(()) if clean => {
            let all = *o.reads.last().unwrap();
            if all > need {
                st.fail(key(g, input), format!("{}{} tokens have been asked for in all, {} are needed; decisions {:?}", head(), all, need, o.decs))
            }
        }
        _ => {}
    }
}

pub fn c33(tier: Tier) -> Vec<Plan> {
    let mut v = vec![];
    for how in ["closed", "open", "optional", "unlikely"] {
        for f in families(if how == "closed" { tier.pick(1, 2) } else { tier.pick(0, 1) }) {
            let n = lens1(&f, tier).min(if how == "closed" { 9 } else { tier.pick(4, 5) });
            let inputs = Arc::new(strings(f.alpha, n));
            let gs: Vec<Grammar> = f.gs.iter().map(|g| if how == "closed" { g.clone() } else { open_end(g, how) }).collect();
            let b = format!("{} ({} grammars), the end of the input {} in the start rule; all {} token strings over {} tokens up to length {}", f.desc, gs.len(), how, inputs.len(), f.alpha, n);
            v.push(plan(format!("{}, {} end", f.name, how), b, gs.len(), move |i, st| {
                let g = &gs[i];
                let prog = compile(g);
                let rp = RProg::new(&prog);
                let sim = Sim::new(&rp);
                let firsts = Firsts::new(&prog.atn);
                let far = RefCell::new(HashMap::new());
                let l = Loaded::new(prog.clone());
                let (sll, exact) = (l.fresh(), l.fresh());
                let mk = |m: Mode| {
                    let mut c = Cfg::new(m);
                    c.reads = true;
                    c
                };
                let (ll, ll1, mut loose) = (mk(Mode::LL), mk(Mode::LL).ll1(), mk(Mode::LL));
                loose.unbuffered = true;
                for input in inputs.iter() {
                    reads(g, &sim, &firsts, &far, &l.fresh(), input, &ll, "cold", st);
                    reads(g, &sim, &firsts, &far, &l, input, &ll, "warm", st);
                    reads(g, &sim, &firsts, &far, &l, input, &ll1, "decisions by one token where possible", st);
                    reads(g, &sim, &firsts, &far, &l, input, &loose, "unbuffered", st);
                    reads(g, &sim, &firsts, &far, &sll, input, &mk(Mode::Sll), "SLL, warm", st);
                    reads(g, &sim, &firsts, &far, &exact, input, &mk(Mode::Exact), "exact, warm", st);
                    if st.failed() {
                        return;
                    }
                }
                st.states += CONFS.with(|x| x.take()) + sim.states.get() as u64;
            }));
        }
    }
    v
}
