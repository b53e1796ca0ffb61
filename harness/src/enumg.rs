//! Exhaustive enumeration of small grammars and inputs.
use crate::grammar::*;
use crate::refp::{facts, Facts};
use std::collections::HashSet;

/// all strings over 1..=k of length 0..=n, shortest first
pub fn strings(k: i32, n: usize) -> Vec<Vec<i32>> {
    strings_of(&(1..=k).collect::<Vec<_>>(), n)
}
pub fn strings_of(alpha: &[i32], n: usize) -> Vec<Vec<i32>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n {
        let mut nx = vec![];
        for s in &last {
            for a in alpha {
                let mut t: Vec<i32> = s.clone();
                t.push(*a);
                nx.push(t);
            }
        }
        all.extend(nx.iter().cloned());
        last = nx;
    }
    all
}

#[derive(Clone)]
pub struct Shape {
    /// weight-one elements
    pub atoms: Vec<El>,
    pub opt: bool,
    pub star: bool,
    pub plus: bool,
    pub block: bool,
    /// also non-greedy variants
    pub nongreedy: bool,
    pub empty_alts: bool,
}
impl Shape {
    pub fn toks(k: i32) -> Shape {
        Shape { atoms: (1..=k).map(El::Tok).collect(), opt: true, star: true, plus: true, block: true, nongreedy: false, empty_alts: true }
    }
    pub fn with(mut self, e: El) -> Shape {
        self.atoms.push(e);
        self
    }
}

/// element, sequence and alternative-list enumeration by weight
pub struct Enum {
    sh: Shape,
    els: Vec<Vec<El>>,
    seqs: Vec<Vec<Vec<El>>>,
    alts: Vec<Vec<Vec<Vec<El>>>>,
}
impl Enum {
    pub fn new(sh: Shape, max: usize) -> Enum {
        let mut e = Enum { sh, els: vec![vec![]], seqs: vec![vec![vec![]]], alts: vec![] };
        // alternative lists of weight 0: a single empty sequence
        e.alts.push(vec![vec![vec![]]]);
        for n in 1..=max {
            e.grow(n);
        }
        e
    }
    fn grow(&mut self, n: usize) {
        let mut els: Vec<El> = vec![];
        if n == 1 {
            els.extend(self.sh.atoms.iter().cloned());
        } else {
            for a in &self.alts[n - 1] {
                if a.iter().any(|s| s.is_empty()) {
                    continue;
                }
                if a.len() == 1 && a[0].len() == 1 && matches!(a[0][0], El::Block(_) | El::Opt(..) | El::Star(..) | El::Plus(..)) {
                    continue;
                }
                let g: &[bool] = if self.sh.nongreedy { &[true, false] } else { &[true] };
                for gr in g {
                    if self.sh.opt {
                        els.push(El::Opt(a.clone(), *gr));
                    }
                    if self.sh.star {
                        els.push(El::Star(a.clone(), *gr));
                    }
                    if self.sh.plus {
                        els.push(El::Plus(a.clone(), *gr));
                    }
                }
            }
        }
        // sequences without new blocks of weight n first (a block of weight n holds
        // alternatives that are sequences of smaller weight)
        self.els.push(els);
        let multi = self.multi(n);
        if self.sh.block {
            for a in &multi {
                self.els[n].push(El::Block(a.clone()));
            }
        }
        let mut seqs = vec![];
        for k in 1..=n {
            for e in &self.els[k] {
                for r in &self.seqs[n - k] {
                    let mut s = vec![e.clone()];
                    s.extend(r.iter().cloned());
                    seqs.push(s);
                }
            }
        }
        self.seqs.push(seqs);
        let mut alts: Vec<Vec<Vec<El>>> = self.seqs[n]
            .iter()
            .filter(|s| !(s.len() == 1 && matches!(s[0], El::Block(_))))
            .map(|s| vec![s.clone()])
            .collect();
        alts.extend(multi);
        self.alts.push(alts);
    }
    /// alternative lists of weight n with at least two alternatives
    fn multi(&self, n: usize) -> Vec<Vec<Vec<El>>> {
        let mut out = vec![];
        // first alternative of weight k, the remaining list of weight n-1-k
        for k in 0..n {
            if k == 0 && !self.sh.empty_alts {
                continue;
            }
            let rest = &self.alts[n - 1 - k];
            for s in &self.seqs[k] {
                if s.len() == 1 && matches!(s[0], El::Block(_)) {
                    continue;
                }
                for r in rest {
                    if !self.sh.empty_alts && r.iter().any(|x| x.is_empty()) {
                        continue;
                    }
                    if s.is_empty() && r.iter().any(|x| x.is_empty()) {
                        continue;
                    }
                    if r.contains(s) {
                        // an identical alternative: keep it, it is the simplest ambiguity
                    }
                    let mut a = vec![s.clone()];
                    a.extend(r.iter().cloned());
                    out.push(a);
                }
            }
        }
        out
    }
    pub fn alts_upto(&self, n: usize) -> Vec<Vec<Vec<El>>> {
        (1..=n).flat_map(|k| self.alts[k].iter().cloned()).collect()
    }
    pub fn seqs_upto(&self, n: usize) -> Vec<Vec<El>> {
        (1..=n).flat_map(|k| self.seqs[k].iter().cloned()).collect()
    }
}

fn map_alts(alts: &[Vec<El>], f: &dyn Fn(&El) -> El) -> Vec<Vec<El>> {
    alts.iter()
        .map(|s| {
            s.iter()
                .map(|e| match e {
                    El::Block(a) => El::Block(map_alts(a, f)),
                    El::Opt(a, g) => El::Opt(map_alts(a, f), *g),
                    El::Star(a, g) => El::Star(map_alts(a, f), *g),
                    El::Plus(a, g) => El::Plus(map_alts(a, f), *g),
                    e => f(e),
                })
                .collect()
        })
        .collect()
}
fn toks_in_order(alts: &[Vec<El>], out: &mut Vec<i32>) {
    for s in alts {
        for e in s {
            match e {
                El::Tok(t) if *t > 0 && !out.contains(t) => out.push(*t),
                El::Block(a) | El::Opt(a, _) | El::Star(a, _) | El::Plus(a, _) => toks_in_order(a, out),
                _ => {}
            }
        }
    }
}
/// renames tokens so that they appear in order 1, 2, ...; token names carry no meaning
pub fn canonical(g: &Grammar) -> bool {
    let mut o = vec![];
    for r in &g.rules {
        toks_in_order(&r.alts, &mut o);
        if let Some(a) = &r.ops {
            toks_in_order(a, &mut o);
        }
    }
    o.iter().enumerate().all(|(i, t)| *t == i as i32 + 1)
}
pub fn well_formed(g: &Grammar) -> bool {
    let f: Facts = facts(g);
    f.productive && !f.left_recursive && !f.nullable_loop && f.reachable
}
pub fn uses(alts: &[Vec<El>], p: &dyn Fn(&El) -> bool) -> usize {
    let mut n = 0;
    for s in alts {
        for e in s {
            if p(e) {
                n += 1
            }
            match e {
                El::Block(a) | El::Opt(a, _) | El::Star(a, _) | El::Plus(a, _) => n += uses(a, p),
                _ => {}
            }
        }
    }
    n
}
pub fn dedup(v: Vec<Grammar>) -> Vec<Grammar> {
    let mut seen = HashSet::new();
    v.into_iter().filter(|g| seen.insert(g.rules.clone())).collect()
}

fn finish(v: Vec<Grammar>) -> Vec<Grammar> {
    dedup(v.into_iter().filter(|g| canonical(g) && well_formed(g)).collect())
}

/// r0: <sequence of weight <= w> EOF
pub fn fam_single(sh: Shape, w: usize, max_token: i32) -> Vec<Grammar> {
    let e = Enum::new(sh, w);
    finish(
        e.alts_upto(w)
            .into_iter()
            .map(|a| {
                let body = if a.len() == 1 { a[0].clone() } else { vec![El::Block(a)] };
                let mut s = body;
                s.push(El::Tok(EOF));
                parser_grammar(vec![prule("r0", vec![s])], max_token)
            })
            .collect(),
    )
}
/// r0: alternatives that each end with EOF
pub fn fam_rule_alts(sh: Shape, w: usize, max_token: i32) -> Vec<Grammar> {
    let e = Enum::new(sh, w);
    finish(
        e.alts_upto(w)
            .into_iter()
            .filter(|a| a.len() > 1)
            .map(|mut a| {
                a.iter_mut().for_each(|s| s.push(El::Tok(EOF)));
                parser_grammar(vec![prule("r0", a)], max_token)
            })
            .collect(),
    )
}
/// r0: body over tokens and calls of r1 (at least `calls`) EOF;  r1: body
pub fn fam_two(sh0: Shape, w0: usize, sh1: Shape, w1: usize, calls: usize, max_token: i32) -> Vec<Grammar> {
    let e0 = Enum::new(sh0.with(El::Rule(1, 0)), w0);
    let e1 = Enum::new(sh1, w1);
    let is_call = |e: &El| matches!(e, El::Rule(1, _));
    let tops: Vec<Vec<El>> = e0
        .alts_upto(w0)
        .into_iter()
        .filter(|a| uses(a, &is_call) >= calls)
        .map(|a| {
            let mut s = if a.len() == 1 { a[0].clone() } else { vec![El::Block(a)] };
            s.push(El::Tok(EOF));
            s
        })
        .collect();
    let subs = e1.alts_upto(w1);
    let mut v = vec![];
    for t in &tops {
        for s in &subs {
            let g = parser_grammar(vec![prule("r0", vec![t.clone()]), prule("r1", s.clone())], max_token);
            if canonical(&g) && well_formed(&g) {
                v.push(g);
            }
        }
    }
    dedup(v)
}
