//! C08: left-recursive rules against operator-precedence parsing.
use crate::grammar::*;
use crate::interp::*;
use crate::enumg::strings;
use crate::p_core::key;
use crate::refp::*;
use crate::run::*;
use std::collections::BTreeSet;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    BinL,
    BinR,
    Prefix,
    Suffix,
    /// e op e : e
    TernL,
    TernR,
    /// e op x : postfix with an operand that is not recursive
    Call,
}
pub const X: i32 = 1;
pub const LP: i32 = 7;
pub const RP: i32 = 8;
pub const COLON: i32 = 6;

/// One alternative of the rule: kind and operator token; order gives precedence.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Spec {
    pub ops: Vec<(Kind, i32)>,
    pub parens: bool,
}
impl Spec {
    pub fn prec(&self, i: usize) -> i32 {
        // alternatives are numbered 1..n, the primaries come last
        let n = self.ops.len() + 1 + self.parens as usize;
        (n - i) as i32
    }
    pub fn rule(&self, me: usize, name: &str) -> Rule {
        let mut prim = vec![];
        let mut suf = vec![];
        for (i, (k, t)) in self.ops.iter().enumerate() {
            let p = self.prec(i);
            let t = El::Tok(*t);
            let e = |q: i32| El::Rule(me, q);
            match k {
                Kind::Prefix => prim.push(vec![t, e(p)]),
                Kind::BinL => suf.push(vec![El::Prec(p), t, e(p + 1)]),
                Kind::BinR => suf.push(vec![El::Prec(p), t, e(p)]),
                Kind::Suffix => suf.push(vec![El::Prec(p), t]),
                Kind::TernL => suf.push(vec![El::Prec(p), t, e(0), El::Tok(COLON), e(p + 1)]),
                Kind::TernR => suf.push(vec![El::Prec(p), t, e(0), El::Tok(COLON), e(p)]),
                Kind::Call => suf.push(vec![El::Prec(p), t, El::Opt(vec![vec![El::Tok(X)]], true), El::Tok(COLON)]),
            }
        }
        prim.push(vec![El::Tok(X)]);
        if self.parens {
            prim.push(vec![El::Tok(LP), El::Rule(me, 0), El::Tok(RP)]);
        }
        Rule { ops: Some(suf), ..prule(name, prim) }
    }
    pub fn grammar(&self) -> Grammar {
        parser_grammar(vec![prule("r0", vec![vec![El::Rule(1, 0), El::Tok(EOF)]]), self.rule(1, "r1")], self.ops.iter().map(|o| o.1).max().unwrap_or(0).max(8))
    }
}

/// Operator-precedence ("precedence climbing") parser written from the rule's declaration;
/// the tree it builds is the specification.
pub struct Climb<'a> {
    s: &'a Spec,
    t: &'a [i32],
    i: usize,
}
impl<'a> Climb<'a> {
    pub fn run(s: &'a Spec, t: &'a [i32]) -> Option<T> {
        let mut c = Climb { s, t, i: 0 };
        let r = c.expr(0)?;
        if c.i == t.len() {
            Some(r)
        } else {
            None
        }
    }
    fn la(&self) -> i32 {
        self.t.get(self.i).copied().unwrap_or(EOF)
    }
    fn leaf(&mut self) -> T {
        self.i += 1;
        T::Tok(self.i as isize - 1, self.t[self.i - 1] as isize)
    }
    fn node(&self, start: usize, kids: Vec<T>) -> T {
        T::Rule { rule: 1, start: start as isize, stop: self.i as isize - 1, kids }
    }
    fn expr(&mut self, min: i32) -> Option<T> {
        let start = self.i;
        let mut left = if self.la() == X {
            let k = self.leaf();
            self.node(start, vec![k])
        } else if self.s.parens && self.la() == LP {
            let a = self.leaf();
            let b = self.expr(0)?;
            if self.la() != RP {
                return None;
            }
            let c = self.leaf();
            self.node(start, vec![a, b, c])
        } else {
            let i = (0..self.s.ops.len()).find(|i| self.s.ops[*i] == (Kind::Prefix, self.la()))?;
            let a = self.leaf();
            let b = self.expr(self.s.prec(i))?;
            self.node(start, vec![a, b])
        };
        loop {
            let i = match (0..self.s.ops.len())
                .find(|i| self.s.ops[*i].0 != Kind::Prefix && self.s.ops[*i].1 == self.la() && self.s.prec(*i) >= min)
            {
                Some(i) => i,
                None => return Some(left),
            };
            let p = self.s.prec(i);
            let mut kids = vec![left, self.leaf()];
            match self.s.ops[i].0 {
                Kind::BinL => kids.push(self.expr(p + 1)?),
                Kind::BinR => kids.push(self.expr(p)?),
                Kind::Suffix => {}
                k @ (Kind::TernL | Kind::TernR) => {
                    kids.push(self.expr(0)?);
                    if self.la() != COLON {
                        return None;
                    }
                    kids.push(self.leaf());
                    kids.push(self.expr(if k == Kind::TernL { p + 1 } else { p })?);
                }
                Kind::Call => {
                    if self.la() == X {
                        kids.push(self.leaf())
                    }
                    if self.la() != COLON {
                        return None;
                    }
                    kids.push(self.leaf());
                }
                Kind::Prefix => unreachable!(),
            }
            left = self.node(start, kids);
        }
    }
}

/// all sentences of the (ambiguous) expression language up to n tokens
pub fn sentences(s: &Spec, n: usize) -> Vec<Vec<i32>> {
    // by[k]: sentences of exactly k tokens
    let mut by: Vec<BTreeSet<Vec<i32>>> = vec![BTreeSet::new(); n + 1];
    for k in 1..=n {
        let mut cur = BTreeSet::new();
        if k == 1 {
            cur.insert(vec![X]);
        }
        if s.parens && k >= 3 {
            for e in &by[k - 2] {
                let mut v = vec![LP];
                v.extend(e);
                v.push(RP);
                cur.insert(v);
            }
        }
        for (kind, t) in &s.ops {
            match kind {
                Kind::Prefix => {
                    for e in &by[k - 1] {
                        let mut v = vec![*t];
                        v.extend(e);
                        cur.insert(v);
                    }
                }
                Kind::Suffix => {
                    for e in &by[k - 1] {
                        let mut v = e.clone();
                        v.push(*t);
                        cur.insert(v);
                    }
                }
                Kind::BinL | Kind::BinR => {
                    for a in 1..k.saturating_sub(1) {
                        for l in &by[a] {
                            for r in &by[k - 1 - a] {
                                let mut v = l.clone();
                                v.push(*t);
                                v.extend(r);
                                cur.insert(v);
                            }
                        }
                    }
                }
                Kind::TernL | Kind::TernR => {
                    for a in 1..k {
                        for b in 1..k {
                            if a + b + 3 > k {
                                break;
                            }
                            let c = k - 2 - a - b;
                            for x in &by[a] {
                                for y in &by[b] {
                                    for z in &by[c] {
                                        let mut v = x.clone();
                                        v.push(*t);
                                        v.extend(y);
                                        v.push(COLON);
                                        v.extend(z);
                                        cur.insert(v);
                                    }
                                }
                            }
                        }
                    }
                }
                Kind::Call => {
                    for d in [2, 3] {
                        if k > d {
                            for e in &by[k - d] {
                                let mut v = e.clone();
                                v.push(*t);
                                if d == 3 {
                                    v.push(X)
                                }
                                v.push(COLON);
                                cur.insert(v);
                            }
                        }
                    }
                }
            }
        }
        by[k] = cur;
    }
    by.into_iter().flatten().collect()
}

pub fn specs(max_ops: usize) -> Vec<Spec> {
    use Kind::*;
    let kinds = [BinL, BinR, Prefix, Suffix, TernL, TernR, Call];
    let mut v: Vec<Vec<(Kind, i32)>> = vec![vec![]];
    let mut out = vec![];
    for n in 0..max_ops {
        let mut nx = vec![];
        for s in &v {
            for k in kinds {
                let mut t = s.clone();
                t.push((k, 2 + n as i32));
                nx.push(t);
                // the same token as prefix and as binary operator
                if k == Prefix || matches!(k, BinL | BinR) {
                    for (k2, t2) in s {
                        let both = (k == Prefix) != (*k2 == Prefix) && matches!(k2, Prefix | BinL | BinR);
                        if both && !s.iter().any(|(k3, t3)| t3 == t2 && k3 != k2) {
                            let mut t = s.clone();
                            t.push((k, *t2));
                            nx.push(t);
                        }
                    }
                }
            }
        }
        out.extend(nx.iter().cloned());
        v = nx;
    }
    let mut r = vec![];
    for ops in out {
        if ops.iter().all(|(k, _)| *k == Prefix) {
            continue;
        }
        // a ternary and a call in one rule would share the colon ambiguously; keep them apart
        if ops.iter().any(|(k, _)| *k == Call) && ops.iter().any(|(k, _)| matches!(k, TernL | TernR)) {
            continue;
        }
        if ops.len() <= 2 {
            r.push(Spec { ops: ops.clone(), parens: true });
        }
        r.push(Spec { ops, parens: false });
    }
    r
}

fn check(s: &Spec, n: usize, cap: usize, st: &mut Stats) {
    let g = s.grammar();
    let prog = compile(&g);
    let rp = RProg::new(&prog);
    let warm = Loaded::new(prog);
    let mut sent = sentences(s, n);
    if sent.len() > cap {
        // shortest first; the cut is reported
        st.count("sentences beyond the per-grammar cap", (sent.len() - cap) as u64);
        sent.truncate(cap);
    }
    let mut forward = true;
    for pass in 0..2 {
        // second pass over the same warm caches in reverse order
        if pass == 1 {
            sent.reverse();
            forward = false;
        }
        for e in &sent {
            let want = match Climb::run(s, e) {
                Some(t) => t,
                None => {
                    // derivable in the ambiguous language, but not under the precedences
                    // (e.g. a lower operator after a tighter prefix operand has no reading);
                    // the rewritten grammar must agree
                    let mut r = Ref::new(&rp, e);
                    if r.accepts(0) {
                        st.count("sentences precedence climbing cannot read in one pass", 1);
                    }
                    continue;
                }
            };
            let mut r = Ref::new(&rp, e);
            let rt = r.derive(0);
            st.states += r.states as u64;
            let want0 = T::Rule { rule: 0, start: 0, stop: e.len() as isize, kids: vec![want.clone(), T::Tok(e.len() as isize, -1)] };
            if rt.as_ref() != Some(&want0) {
                st.count("model disagreements", 1);
                st.fail(format!("model {}", key(&g, e)), format!("the two reference parsers disagree on {:?} {:?}: {} vs {}", s, e, want0.show(), rt.map(|t| t.show()).unwrap_or_default()));
                continue;
            }
            let toks = stoks(e);
            let cold = warm.fresh();
            let mut runs: Vec<(&Loaded, usize, Mode, &str)> = vec![(&warm, 0, Mode::LL, "warm"), (&warm, 1, Mode::LL, "warm, as start rule")];
            if forward {
                runs.push((&cold, 0, Mode::LL, "cold"));
                runs.push((&cold, 0, Mode::Sll, "SLL"));
                runs.push((&cold, 1, Mode::Exact, "exact, as start rule"));
            }
            for (l, start, mode, what) in runs {
                let o = match guard(|| parse(l, &toks, &Cfg::new(mode).start(start))) {
                    Ok(o) => o,
                    Err(x) => {
                        st.fail(key(&g, e), format!("{:?}\n{}\n{:?} ({}): panic {}", s, g.show(), e, what, x));
                        continue;
                    }
                };
                st.traces += 1;
                st.transitions += o.decs.len() as u64;
                let w = if start == 0 { &want0 } else { &want };
                if !o.errors.is_empty() || o.tree.as_ref() != Some(w) {
                    if mode == Mode::Sll && !o.errors.is_empty() {
                        st.count("SLL errors", 1);
                        continue;
                    }
                    st.fail(
                        key(&g, e),
                        format!("{:?}\n{}\n{:?} ({}): tree {} instead of {}; errors {:?}", s, g.show(), e, what, o.tree.map(|t| t.show()).unwrap_or_default(), w.show(), o.errors),
                    );
                } else {
                    st.outcome(&o.tree);
                    st.sample(|| format!("{:?} {:?} -> {}", s, e, w.show()));
                }
            }
            if st.failed() {
                return;
            }
        }
    }
}

/// Rules whose operator alternatives overlap: the same token in several of them, operators
/// that are rules of their own, operands that are not recursive; and callers that go on with
/// the same tokens. (rules with only a start rule above come with true)
pub fn overlapping(max_ops: usize) -> Vec<(Grammar, bool)> {
    let t = El::Tok;
    let e = |q: i32| El::Rule(1, q);
    let r = |i: usize| El::Rule(i, 0);
    // tokens 1: operand; 2, 3: operators; r2: one of the operators, r3: the operand
    let form = |f: usize, p: i32| -> Vec<El> {
        let mut v = vec![El::Prec(p)];
        v.extend(match f {
            0 => vec![t(2), e(p + 1)],
            1 => vec![t(2), t(1)],
            2 => vec![t(2), r(3)],
            3 => vec![r(2), e(p + 1)],
            4 => vec![r(2), e(p)],
            5 => vec![t(3), e(p)],
            6 => vec![t(2), t(3)],
            7 => vec![r(2)],
            8 => vec![t(2), e(p + 1), t(3), e(p + 1)],
            9 => vec![t(2), El::Opt(vec![vec![t(1)]], true)],
            _ => vec![El::Block(vec![vec![t(2)], vec![t(3), t(3)]]), e(p + 1)],
        });
        v
    };
    let nf = 11;
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    let mut all = vec![];
    for _ in 0..max_ops {
        let mut nx = vec![];
        for l in &lists {
            for f in 0..nf {
                let mut l = l.clone();
                l.push(f);
                nx.push(l);
            }
        }
        all.extend(nx.iter().cloned());
        lists = nx;
    }
    let eof = || t(EOF);
    let tops: Vec<Vec<Vec<El>>> = vec![
        vec![vec![r(1), eof()]],
        vec![vec![r(1), r(2), eof()], vec![r(1), eof()]],
        vec![vec![r(1), r(2), r(1), eof()]],
        vec![vec![El::Star(vec![vec![r(1)]], true), eof()]],
        vec![vec![r(1), El::Opt(vec![vec![t(3)]], true), eof()]],
    ];
    let mut v = vec![];
    for l in &all {
        for prefix in [false, true] {
            if prefix && l.len() > 2 {
                continue;
            }
            let n = l.len() as i32 + 1 + prefix as i32;
            let ops: Vec<Vec<El>> = l.iter().enumerate().map(|(i, f)| form(*f, n - i as i32)).collect();
            let mut prim = vec![vec![t(1)]];
            if prefix {
                prim.push(vec![t(3), e(1)]);
            }
            for (k, top) in tops.iter().enumerate() {
                let rules = vec![
                    prule("r0", top.clone()),
                    Rule { ops: Some(ops.clone()), ..prule("r1", prim.clone()) },
                    prule("r2", vec![vec![t(2)], vec![t(3)]]),
                    prule("r3", vec![vec![t(1)]]),
                ];
                v.push((parser_grammar(rules, 3), k == 0));
            }
        }
    }
    v
}
/// Left-recursive rules whose operands contain the rule itself, in parentheses, optional
/// blocks, loops and choices, and share prefixes, so that deciding between them means looking
/// through the nested expression. (only a start rule above; tokens 1: operand, 2: operator,
/// 3 and 4: brackets)
pub fn operands() -> Vec<Grammar> {
    let t = El::Tok;
    let e = |q: i32| El::Rule(1, q);
    let prims: Vec<Vec<El>> = vec![
        vec![t(3), e(0), t(4)],
        vec![t(3), e(0), t(2)],
        vec![t(3), El::Block(vec![vec![e(0)], vec![t(2)]]), t(4)],
        vec![t(3), El::Block(vec![vec![e(0)], vec![t(4)]]), t(3)],
        vec![t(3), El::Opt(vec![vec![e(0)]], true), t(4)],
        vec![t(3), El::Opt(vec![vec![e(0)]], true), t(2), t(4)],
        vec![t(3), El::Star(vec![vec![e(0)]], true), t(4)],
        vec![t(3), El::Plus(vec![vec![e(0)]], true), t(3), t(4)],
        vec![t(3), El::Plus(vec![vec![e(0), t(4)]], true)],
        vec![t(3), e(0), El::Star(vec![vec![t(4), e(0)]], true), t(4)],
        vec![t(3), El::Block(vec![vec![t(4), e(0)], vec![e(0), t(4)]])],
        vec![t(3), El::Rule(2, 0), t(4)],
        vec![t(3), e(1)],
    ];
    let ops: Vec<Vec<Vec<El>>> = vec![
        vec![vec![t(2), e(3)]],
        vec![vec![t(2), e(2)]],
        vec![vec![t(2)]],
        vec![vec![t(2), e(0), t(4)]],
        vec![vec![t(3), El::Opt(vec![vec![e(0)]], true), t(4)]],
        vec![vec![t(2), El::Block(vec![vec![e(0)], vec![t(2)]]), t(4)]],
        vec![vec![t(2), e(3)], vec![t(3), e(0), t(4)]],
    ];
    let mut v = vec![];
    for a in 0..prims.len() {
        for b in 0..=a {
            for o in &ops {
                let mut p = vec![vec![t(1)], prims[a].clone()];
                if a != b {
                    p.push(prims[b].clone());
                }
                let n = o.len() as i32 + 1;
                let suf: Vec<Vec<El>> = o
                    .iter()
                    .enumerate()
                    .map(|(i, x)| {
                        let mut w = vec![El::Prec(n - i as i32)];
                        w.extend(x.iter().cloned());
                        w
                    })
                    .collect();
                v.push(parser_grammar(
                    vec![prule("r0", vec![vec![El::Rule(1, 0), t(EOF)]]), Rule { ops: Some(suf), ..prule("r1", p) }, prule("r2", vec![vec![El::Rule(1, 0)], vec![El::Rule(1, 0), t(2)]])],
                    4,
                ));
            }
        }
    }
    v
}
fn check_overlap(g: &Grammar, plain: bool, inputs: &[Vec<i32>], st: &mut Stats) {
    let prog = compile(g);
    let rp = RProg::new(&prog);
    let warm = Loaded::new(prog);
    for i in inputs {
        let mut r = Ref::new(&rp, i);
        let want = match r.derive(0) {
            Some(t) => t,
            None => continue,
        };
        st.states += r.states as u64;
        // prediction does not look at the precedences of other rule invocations (nor does
        // ANTLR's): where that matters, nothing is required
        let mut x = Ref::new(&rp, i);
        x.relax = true;
        if x.derive_pred(0).as_ref() != Ok(&want) {
            st.count("sentences that only nested precedences tell apart", 1);
            continue;
        }
        let sub = match &want {
            T::Rule { kids, .. } if plain => kids.first().cloned(),
            _ => None,
        };
        let toks = stoks(i);
        let cold = warm.fresh();
        let mut runs = vec![(&warm, 0, Mode::LL, "warm"), (&cold, 0, Mode::Exact, "cold, exact")];
        if sub.is_some() {
            runs.push((&warm, 1, Mode::LL, "warm, as start rule"));
            runs.push((&cold, 1, Mode::LL, "cold, as start rule"));
        }
        for (l, start, mode, what) in runs {
            st.traces += 1;
            let w = if start == 0 { &want } else { sub.as_ref().unwrap() };
            match guard(|| parse(l, &toks, &Cfg::new(mode).start(start))) {
                Err(x) => st.fail(key(g, i), format!("{}\n{:?} ({}): panic {}", g.show(), i, what, x)),
                Ok(o) => {
                    st.transitions += o.decs.len() as u64;
                    st.outcome(&o.tree);
                    if !o.errors.is_empty() || o.tree.as_ref() != Some(w) {
                        st.fail(
                            key(g, i),
                            format!("{}\n{:?} ({}): tree {} instead of {}; errors {:?}", g.show(), i, what, o.tree.map(|t| t.show()).unwrap_or_default(), w.show(), o.errors),
                        )
                    }
                }
            }
        }
        if st.failed() {
            return;
        }
    }
}

pub fn c08(tier: Tier) -> Vec<Plan> {
    let (n2, n3, cap) = tier.pick((8, 7, 2500), (9, 8, 20000));
    let a: Arc<Vec<Spec>> = Arc::new(specs(3));
    let all = a.len();
    let mut v = vec![plan(
        "operators",
        format!(
            "{} rules with 1-3 operator alternatives (binary left/right, prefix, suffix, ternary left/right, call-like suffix; parentheses; shared prefix/binary tokens); all sentences up to {} tokens (3 operators: {}), first {} per rule",
            all, n2, n3, cap
        ),
        all,
        move |i, st| {
            let s = &a[i];
            check(s, if s.ops.len() <= 2 { n2 } else { n3 }, cap, st)
        },
    )];
    // many levels of precedence
    let mut ladders = vec![];
    for n in [5usize, 6, 7, 8, 10, 13] {
        for pat in 0..5 {
            let kind = |i: usize| match pat {
                0 => Kind::BinL,
                1 => Kind::BinR,
                2 => [Kind::BinL, Kind::BinR][i % 2],
                3 => [Kind::BinR, Kind::Suffix, Kind::BinL][i % 3],
                _ => [Kind::Prefix, Kind::BinL, Kind::BinL][i % 3],
            };
            ladders.push(Spec { ops: (0..n).map(|i| (kind(i), 10 + i as i32)).collect(), parens: false });
        }
    }
    let (nl, cl) = tier.pick((5, 3000), (7, 20000));
    v.push(plan(
        "ladders",
        format!("{} rules with 5 to 13 operators of different precedence, all left or right associative or mixed, with prefix and suffix operators; all sentences up to {} tokens (with prefix or suffix operators: 5), first {} per rule", ladders.len(), nl, cl),
        ladders.len(),
        move |i, st| check(&ladders[i], if ladders[i].ops.iter().any(|o| matches!(o.0, Kind::Prefix | Kind::Suffix)) { 5 } else { nl }, cl, st),
    ));
    let o = Arc::new(overlapping(tier.pick(2, 3)));
    let n = tier.pick(6, 7);
    let inputs = strings(3, n);
    v.push(plan(
        "overlapping operators",
        format!("{} grammars: 1-{} operator alternatives out of 11 that share tokens, with operators and operands in rules of their own, below 5 start rules going on with the same tokens, and as start rules; all strings over 3 tokens up to length {}", o.len(), tier.pick(2, 3), n),
        o.len(),
        move |i, st| check_overlap(&o[i].0, o[i].1, &inputs, st),
    ));
    let o = Arc::new(operands());
    let n = tier.pick(6, 7);
    let inputs = strings(4, n);
    v.push(plan(
        "nested operands",
        format!("{} grammars: 1-2 operands out of 13 that contain the rule itself in brackets, blocks and loops and share prefixes, 1-2 operators out of 7; also as start rules; all strings over 4 tokens up to length {}", o.len(), n),
        o.len(),
        move |i, st| check_overlap(&o[i], true, &inputs, st),
    ));
    if tier == Tier::Thorough {
        let b: Arc<Vec<Spec>> = Arc::new(specs(4).into_iter().filter(|s| s.ops.len() == 4).collect());
        let n = b.len();
        v.push(plan("four operators", format!("{} rules with 4 operator alternatives; all sentences up to 6 tokens", n), n, move |i, st| check(&b[i], 6, 3000, st)));
    }
    v
}
