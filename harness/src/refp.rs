//! Reference semantics of parser grammars: a memoizing recognizer over the grammar itself.
//! Shares nothing with the runtime under test (no ATN simulation, no DFA, no contexts).
use crate::grammar::*;
use crate::interp::{Dec, T};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum N {
    M(El),
    Seq(Vec<usize>),
    /// decision number (None: not a decision), alternatives in prediction order
    Choice(Option<usize>, Vec<usize>),
    /// decision, body, greedy, is operator loop of a left recursive rule
    Star(usize, usize, bool, bool),
    Call(usize, i32),
    /// predicate, depends on the context of its rule
    Pred(i32, bool),
    Prec(i32),
    Act(i32),
}

/// Grammar body flattened into an arena.
pub struct RProg {
    pub nodes: Vec<N>,
    pub rules: Vec<usize>,
    pub max_token: i32,
}
impl RProg {
    pub fn new(p: &Compiled) -> RProg {
        let mut r = RProg { nodes: vec![], rules: vec![], max_token: p.atn.max_token };
        for cr in &p.rules {
            let b = r.conv(&cr.body, false);
            let id = match &cr.ops {
                Some(o) => {
                    let o = r.conv(o, true);
                    r.push(N::Seq(vec![b, o]))
                }
                None => b,
            };
            r.rules.push(id);
        }
        r
    }
    fn push(&mut self, n: N) -> usize {
        self.nodes.push(n);
        self.nodes.len() - 1
    }
    fn seq(&mut self, cs: &[C]) -> usize {
        let v = cs.iter().map(|c| self.conv(c, false)).collect();
        self.push(N::Seq(v))
    }
    fn conv(&mut self, c: &C, lr: bool) -> usize {
        match c {
            C::Match { el, .. } => self.push(N::M(el.clone())),
            C::Call { rule, prec, .. } => self.push(N::Call(*rule, *prec)),
            C::Pred { idx, ctx, .. } => self.push(N::Pred(*idx, *ctx)),
            C::Prec { prec, .. } => self.push(N::Prec(*prec)),
            C::Action { idx, .. } => self.push(N::Act(*idx)),
            C::Block { decision, alts, .. } => {
                let v = alts.iter().map(|a| self.seq(a)).collect();
                self.push(N::Choice(*decision, v))
            }
            C::Opt { decision, alts, greedy, .. } => {
                let mut v: Vec<usize> = alts.iter().map(|a| self.seq(a)).collect();
                let eps = self.push(N::Seq(vec![]));
                if *greedy {
                    v.push(eps)
                } else {
                    v.insert(0, eps)
                }
                self.push(N::Choice(Some(*decision), v))
            }
            C::Star { decision, blk_decision, alts, greedy, .. } => {
                let v = alts.iter().map(|a| self.seq(a)).collect();
                let b = self.push(N::Choice(*blk_decision, v));
                self.push(N::Star(*decision, b, *greedy, lr))
            }
            C::Plus { decision, blk_decision, alts, greedy, .. } => {
                let v = alts.iter().map(|a| self.seq(a)).collect();
                let b = self.push(N::Choice(*blk_decision, v));
                let s = self.push(N::Star(*decision, b, *greedy, false));
                self.push(N::Seq(vec![b, s]))
            }
        }
    }
}

pub fn el_matches(el: &El, t: i32, max: i32) -> bool {
    let inn = |s: &Vec<(i32, i32)>| s.iter().any(|(a, b)| *a <= t && t <= *b);
    match el {
        El::Tok(x) => *x == t,
        El::Range(a, b) => *a <= t && t <= *b,
        El::Set(s) => inn(s),
        El::NotSet(s) => t >= 1 && t <= max && !inn(s),
        El::Wild => t >= 1 && t <= max,
        _ => false,
    }
}

pub enum Cont {
    Nil,
    /// node, precedence of its rule invocation, number of that invocation
    Cons(usize, i32, usize, Rc<Cont>),
}

pub struct Ref<'a> {
    pub g: &'a RProg,
    /// input followed by EOF
    pub toks: Vec<i32>,
    pub preds: u64,
    /// predicate k looks at the next token instead: true unless its type is k + 1
    pub next_not: bool,
    /// actions toggle the predicates' values
    pub flags: bool,
    /// predicates at other positions count as true (what a decision at this position sees)
    pub pred_at: Option<usize>,
    /// precedences count only for a decision's own rule invocation, before the next token
    pub relax: bool,
    /// the rule invocation whose decision looks ahead
    frame: usize,
    frames: usize,
    memo: HashMap<(usize, i32, usize, bool), u64>,
    reach_m: usize,
    rmemo: HashMap<(usize, i32, usize), bool>,
    pub decs: Vec<Dec>,
    /// number of evaluated (node, position) pairs: the states of the reference model
    pub states: usize,
}

/// the position a decision looks from, after an action: predicates are not seen any more
const SHADED: usize = 63;

impl<'a> Ref<'a> {
    pub fn new(g: &'a RProg, input: &[i32]) -> Ref<'a> {
        let mut toks = input.to_vec();
        toks.push(EOF);
        Ref { g, toks, preds: !0, next_not: false, flags: false, pred_at: None, relax: false, frame: 0, frames: 0, memo: HashMap::new(), reach_m: 0, rmemo: HashMap::new(), decs: vec![], states: 0 }
    }
    fn m(&self, el: &El, i: usize) -> bool {
        i < self.toks.len() && el_matches(el, self.toks[i], self.g.max_token)
    }
    /// set of positions at which the node can end when started at i (bit mask)
    pub fn ends(&mut self, id: usize, p: i32, i: usize) -> u64 {
        self.ends_in(id, p, i, true)
    }
    /// `own`: in the rule invocation of the decision that looks ahead
    fn ends_in(&mut self, id: usize, p: i32, i: usize, own: bool) -> u64 {
        if let Some(v) = self.memo.get(&(id, p, i, own)) {
            return *v;
        }
        let g = self.g;
        let r = match &g.nodes[id] {
            N::M(el) => {
                let i = if i == SHADED { self.pred_at.unwrap() } else { i };
                if self.m(el, i) {
                    1 << (i + 1)
                } else {
                    0
                }
            }
            N::Seq(v) => {
                let mut s = 1u64 << i;
                for x in v {
                    s = self.ends_from(*x, p, s, own);
                    if s == 0 {
                        break;
                    }
                }
                s
            }
            N::Choice(_, v) => v.iter().fold(0, |a, x| a | self.ends_in(*x, p, i, own)),
            N::Star(_, b, _, _) => {
                let mut all = 1u64 << i;
                loop {
                    let n = all | self.ends_from(*b, p, all, own);
                    if n == all {
                        break all;
                    }
                    all = n;
                }
            }
            N::Call(r, q) => self.ends_in(g.rules[*r], *q, i, false),
            N::Pred(k, local) => {
                let unseen = self.pred_at.map(|a| a != i || (*local && !own)).unwrap_or(false);
                if unseen || self.pred_value(*k, i) {
                    1 << i
                } else {
                    0
                }
            }
            N::Prec(q) => {
                let unseen = self.relax && !(own && self.pred_at == Some(i));
                if unseen || *q >= p {
                    1 << i
                } else {
                    0
                }
            }
            N::Act(_) if self.pred_at == Some(i) => 1 << SHADED,
            N::Act(_) => 1 << i,
        };
        self.states += 1;
        self.memo.insert((id, p, i, own), r);
        r
    }
    fn ends_from(&mut self, id: usize, p: i32, s: u64, own: bool) -> u64 {
        let mut r = 0;
        for i in 0..64 {
            if (s >> i) & 1 == 1 {
                r |= self.ends_in(id, p, i, own);
            }
        }
        r
    }
    fn can(&mut self, cont: &Rc<Cont>, s: u64) -> bool {
        let mut s = s;
        let mut c = cont.clone();
        loop {
            if s == 0 {
                return false;
            }
            let n = match &*c {
                Cont::Nil => {
                    let shaded = self.pred_at == Some(self.toks.len()) && (s >> SHADED) & 1 == 1;
                    return (s >> self.toks.len()) & 1 == 1 || shaded;
                }
                Cont::Cons(id, p, f, n) => {
                    s = self.ends_from(*id, *p, s, *f == self.frame);
                    n.clone()
                }
            };
            c = n;
        }
    }
    pub fn accepts(&mut self, rule: usize) -> bool {
        let id = self.g.rules[rule];
        (self.ends(id, 0, 0) >> self.toks.len()) & 1 == 1
    }
    /// the derivation that takes, at every decision, the lowest viable alternative
    pub fn derive(&mut self, rule: usize) -> Option<T> {
        if !self.accepts(rule) {
            return None;
        }
        self.decs.clear();
        let mut kids = vec![];
        let nil = Rc::new(Cont::Nil);
        self.call(rule, 0, 0, &nil, &mut kids);
        kids.pop()
    }
    fn call(&mut self, rule: usize, p: i32, i: usize, cont: &Rc<Cont>, out: &mut Vec<T>) -> usize {
        let mut kids = vec![];
        let e = self.go(self.g.rules[rule], p, i, cont, &mut kids, (rule, i));
        out.push(mk(rule, i, e, kids, self.toks.len()));
        e
    }
    fn go(&mut self, id: usize, p: i32, i: usize, cont: &Rc<Cont>, kids: &mut Vec<T>, cur: (usize, usize)) -> usize {
        let g = self.g;
        match &g.nodes[id] {
            N::M(el) => {
                debug_assert!(self.m(el, i));
                kids.push(T::Tok(i as isize, self.toks[i] as isize));
                i + 1
            }
            N::Seq(v) => {
                let mut conts = vec![cont.clone()];
                for x in v.iter().skip(1).rev() {
                    let c = conts.last().unwrap().clone();
                    conts.push(Rc::new(Cont::Cons(*x, p, self.frame, c)));
                }
                let mut i = i;
                for x in v {
                    let c = conts.pop().unwrap();
                    i = self.go(*x, p, i, &c, kids, cur);
                }
                i
            }
            N::Choice(d, v) => {
                for (k, a) in v.iter().enumerate() {
                    let s = self.ends(*a, p, i);
                    if self.can(cont, s) {
                        if let Some(d) = d {
                            self.decs.push((*d, i as isize, k as isize + 1));
                        }
                        return self.go(*a, p, i, cont, kids, cur);
                    }
                }
                unreachable!("no viable alternative in the reference derivation")
            }
            N::Star(d, b, greedy, lr) => {
                let again = Rc::new(Cont::Cons(id, p, self.frame, cont.clone()));
                let mut i = i;
                loop {
                    let s = self.ends(*b, p, i) & !(1 << i);
                    let enter = self.can(&again, s);
                    let exit = self.can(cont, 1 << i);
                    let take = if *greedy { enter } else { enter && !exit };
                    let alt = if take == *greedy { 1 } else { 2 };
                    self.decs.push((*d, i as isize, alt));
                    if !take {
                        return i;
                    }
                    if *lr {
                        let k = std::mem::take(kids);
                        kids.push(mk(cur.0, cur.1, i, k, self.toks.len()));
                    }
                    i = self.go(*b, p, i, &again, kids, cur);
                }
            }
            N::Call(r, q) => self.call(*r, *q, i, cont, kids),
            N::Pred(..) | N::Prec(_) | N::Act(_) => i,
        }
    }
    pub fn pred_value(&self, k: i32, i: usize) -> bool {
        if self.next_not {
            self.toks.get(i).copied().unwrap_or(EOF) != k + 1
        } else {
            (self.preds >> k) & 1 == 1
        }
    }
    fn focus(&mut self, i: usize) {
        if self.pred_at != Some(i) {
            self.pred_at = Some(i);
            self.memo.clear();
        }
    }
    /// Derivation with semantic predicates: a decision sees the values of the predicates
    /// that stand before the next token, then takes the lowest viable alternative.
    /// Err: a decision without viable alternative, or a predicate that fails.
    pub fn derive_pred(&mut self, rule: usize) -> Result<T, String> {
        self.decs.clear();
        let nil = Rc::new(Cont::Nil);
        let mut kids = vec![];
        let e = self.try_call(rule, 0, 0, &nil, &mut kids)?;
        if e != self.toks.len() {
            return Err(format!("input left at {}", e));
        }
        Ok(kids.pop().unwrap())
    }
    fn try_call(&mut self, rule: usize, p: i32, i: usize, cont: &Rc<Cont>, out: &mut Vec<T>) -> Result<usize, String> {
        let mut kids = vec![];
        self.frames += 1;
        let caller = std::mem::replace(&mut self.frame, self.frames);
        let e = self.try_go(self.g.rules[rule], p, i, cont, &mut kids, (rule, i));
        self.frame = caller;
        let e = e?;
        out.push(mk(rule, i, e, kids, self.toks.len()));
        Ok(e)
    }
    fn try_go(&mut self, id: usize, p: i32, i: usize, cont: &Rc<Cont>, kids: &mut Vec<T>, cur: (usize, usize)) -> Result<usize, String> {
        let g = self.g;
        Ok(match &g.nodes[id] {
            N::M(el) => {
                if !self.m(el, i) {
                    return Err(format!("mismatch at {}", i));
                }
                kids.push(T::Tok(i as isize, self.toks[i] as isize));
                i + 1
            }
            N::Seq(v) => {
                let mut conts = vec![cont.clone()];
                for x in v.iter().skip(1).rev() {
                    let c = conts.last().unwrap().clone();
                    conts.push(Rc::new(Cont::Cons(*x, p, self.frame, c)));
                }
                let mut i = i;
                for x in v {
                    let c = conts.pop().unwrap();
                    i = self.try_go(*x, p, i, &c, kids, cur)?;
                }
                i
            }
            N::Choice(None, v) => self.try_go(v[0], p, i, cont, kids, cur)?,
            N::Choice(Some(d), v) => {
                self.focus(i);
                for (k, a) in v.iter().enumerate() {
                    let s = self.ends(*a, p, i);
                    if self.can(cont, s) {
                        self.decs.push((*d, i as isize, k as isize + 1));
                        return self.try_go(*a, p, i, cont, kids, cur);
                    }
                }
                return Err(format!("no viable alternative at {}", i));
            }
            N::Star(d, b, greedy, lr) => {
                let again = Rc::new(Cont::Cons(id, p, self.frame, cont.clone()));
                let mut i = i;
                loop {
                    self.focus(i);
                    let s = self.ends(*b, p, i) & !(1 << i);
                    let enter = self.can(&again, s);
                    let exit = self.can(cont, 1 << i);
                    if !enter && !exit {
                        return Err(format!("no viable alternative at {}", i));
                    }
                    let take = if *greedy { enter } else { enter && !exit };
                    self.decs.push((*d, i as isize, if take == *greedy { 1 } else { 2 }));
                    if !take {
                        return Ok(i);
                    }
                    if *lr {
                        let k = std::mem::take(kids);
                        kids.push(mk(cur.0, cur.1, i, k, self.toks.len()));
                    }
                    i = self.try_go(*b, p, i, &again, kids, cur)?;
                }
            }
            N::Call(r, q) => self.try_call(*r, *q, i, cont, kids)?,
            N::Pred(k, _) => {
                if !self.pred_value(*k, i) {
                    return Err(format!("predicate {} fails at {}", k, i));
                }
                i
            }
            N::Prec(q) => {
                if *q < p {
                    return Err(format!("precedence predicate fails at {}", i));
                }
                i
            }
            N::Act(k) => {
                if self.flags {
                    self.preds ^= 1 << k;
                    self.memo.clear();
                }
                i
            }
        })
    }
    /// can the tokens before position m be extended to a sentence?
    pub fn viable(&mut self, rule: usize, m: usize) -> bool {
        self.reach_m = m;
        self.rmemo.clear();
        let id = self.g.rules[rule];
        self.reach(id, 0, 0)
    }
    fn reach(&mut self, id: usize, p: i32, i: usize) -> bool {
        if i == self.reach_m {
            return true;
        }
        if let Some(v) = self.rmemo.get(&(id, p, i)) {
            return *v;
        }
        let m = self.reach_m;
        let g = self.g;
        let r = match &g.nodes[id] {
            N::M(el) => i + 1 == m && self.m(el, i),
            N::Seq(v) => {
                let mut s = 1u64 << i;
                let mut ok = false;
                for x in v {
                    for j in 0..=m {
                        if (s >> j) & 1 == 1 && self.reach(*x, p, j) {
                            ok = true;
                        }
                    }
                    if ok || s == 0 {
                        break;
                    }
                    s = self.ends_from(*x, p, s, true);
                }
                ok || (s >> m) & 1 == 1
            }
            N::Choice(_, v) => v.iter().any(|x| self.reach(*x, p, i)),
            N::Star(_, b, _, _) => {
                let s = self.ends(id, p, i);
                (0..=m).any(|j| (s >> j) & 1 == 1 && self.reach(*b, p, j)) || (s >> m) & 1 == 1
            }
            N::Call(r, q) => self.reach(g.rules[*r], *q, i),
            N::Pred(..) | N::Prec(_) | N::Act(_) => false,
        };
        self.rmemo.insert((id, p, i), r);
        r
    }
    /// index of the first token (EOF has index n) that cannot continue any sentence;
    /// n + 1 for a sentence
    pub fn first_bad(&mut self, rule: usize) -> usize {
        if self.accepts(rule) {
            return self.toks.len();
        }
        let mut m = 0;
        while m < self.toks.len() && self.viable(rule, m + 1) {
            m += 1;
        }
        m
    }
}
fn mk(rule: usize, start: usize, end: usize, kids: Vec<T>, ntoks: usize) -> T {
    let stop = if end == ntoks { ntoks as isize - 1 } else { end as isize - 1 };
    T::Rule { rule, start: start as isize, stop, kids }
}

// ------------------------------------------------------------- grammar well-formedness

pub struct Facts {
    pub nullable: Vec<bool>,
    pub productive: bool,
    pub left_recursive: bool,
    pub nullable_loop: bool,
    pub reachable: bool,
    /// an alternative list with duplicate alternatives that can never be taken is fine,
    /// but optional blocks over nullable bodies are ambiguous on every input
    pub nullable_opt: bool,
}
fn nul_seq(g: &Grammar, n: &[bool], s: &[El]) -> bool {
    s.iter().all(|e| nul_el(g, n, e))
}
fn nul_el(g: &Grammar, n: &[bool], e: &El) -> bool {
    match e {
        El::Tok(_) | El::Range(..) | El::Set(_) | El::NotSet(_) | El::Wild => false,
        El::Rule(r, _) => n[*r],
        El::Block(a) | El::Plus(a, _) => a.iter().any(|s| nul_seq(g, n, s)),
        El::Opt(..) | El::Star(..) => true,
        El::Pred(..) | El::Prec(_) | El::Action(_) => true,
    }
}
fn walk(alts: &[Vec<El>], f: &mut dyn FnMut(&El)) {
    for a in alts {
        for e in a {
            f(e);
            match e {
                El::Block(a) | El::Opt(a, _) | El::Star(a, _) | El::Plus(a, _) => walk(a, f),
                _ => {}
            }
        }
    }
}
fn left_refs(g: &Grammar, n: &[bool], alts: &[Vec<El>], out: &mut Vec<usize>) {
    for a in alts {
        for e in a {
            match e {
                El::Rule(r, _) => out.push(*r),
                El::Block(b) | El::Opt(b, _) | El::Star(b, _) | El::Plus(b, _) => left_refs(g, n, b, out),
                _ => {}
            }
            if !nul_el(g, n, e) {
                break;
            }
        }
    }
}
fn all_alts(r: &Rule) -> Vec<Vec<El>> {
    let mut v = r.alts.clone();
    if let Some(o) = &r.ops {
        v.extend(o.clone());
    }
    v
}
pub fn facts(g: &Grammar) -> Facts {
    let nr = g.rules.len();
    let mut nullable = vec![false; nr];
    loop {
        let n2: Vec<bool> = g.rules.iter().map(|r| r.alts.iter().any(|s| nul_seq(g, &nullable, s))).collect();
        if n2 == nullable {
            break;
        }
        nullable = n2;
    }
    let mut prod = vec![false; nr];
    fn pe(p: &[bool], e: &El) -> bool {
        match e {
            El::Rule(r, _) => p[*r],
            El::Block(a) | El::Plus(a, _) => a.iter().any(|s| s.iter().all(|e| pe(p, e))),
            _ => true,
        }
    }
    loop {
        let n2: Vec<bool> = g.rules.iter().map(|r| r.alts.iter().any(|s| s.iter().all(|e| pe(&prod, e)))).collect();
        if n2 == prod {
            break;
        }
        prod = n2;
    }
    // every alternative must be productive too, so that every prefix it consumes is viable
    let mut productive = prod.iter().all(|x| *x);
    let mut nullable_loop = false;
    let mut nullable_opt = false;
    let mut reach = vec![false; nr];
    for r in &g.rules {
        walk(&all_alts(r), &mut |e| match e {
            El::Star(a, _) | El::Plus(a, _) if a.iter().any(|s| nul_seq(g, &nullable, s)) => nullable_loop = true,
            El::Opt(a, _) if a.iter().any(|s| nul_seq(g, &nullable, s)) => nullable_opt = true,
            El::Rule(r, _) if !prod[*r] => productive = false,
            _ => {}
        });
    }
    let mut todo = vec![0];
    while let Some(r) = todo.pop() {
        if reach[r] {
            continue;
        }
        reach[r] = true;
        walk(&all_alts(&g.rules[r]), &mut |e| {
            if let El::Rule(q, _) = e {
                todo.push(*q)
            }
        });
    }
    let lrefs: Vec<Vec<usize>> = g
        .rules
        .iter()
        .map(|r| {
            let mut v = vec![];
            left_refs(g, &nullable, &r.alts, &mut v);
            if let Some(o) = &r.ops {
                if r.alts.iter().any(|s| nul_seq(g, &nullable, s)) {
                    left_refs(g, &nullable, o, &mut v);
                }
            }
            v
        })
        .collect();
    let mut left_recursive = false;
    for r in 0..nr {
        let mut seen = vec![false; nr];
        let mut todo = lrefs[r].clone();
        while let Some(x) = todo.pop() {
            if x == r {
                left_recursive = true;
                break;
            }
            if !seen[x] {
                seen[x] = true;
                todo.extend(lrefs[x].iter());
            }
        }
    }
    Facts { nullable, productive, left_recursive, nullable_loop, reachable: reach.iter().all(|x| *x), nullable_opt }
}
