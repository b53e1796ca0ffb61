//! The grammar families the parser checks share.
use crate::enumg::*;
use crate::grammar::*;

fn small(k: i32, opt: bool, star: bool, plus: bool, block: bool) -> Shape {
    Shape { atoms: (1..=k).map(El::Tok).collect(), opt, star, plus, block, nongreedy: false, empty_alts: true }
}
pub struct Fam {
    pub name: &'static str,
    pub desc: String,
    pub gs: Vec<Grammar>,
    /// tokens that occur in inputs
    pub alpha: i32,
}
fn fam(name: &'static str, desc: impl Into<String>, gs: Vec<Grammar>, alpha: i32) -> Fam {
    Fam { name, desc: desc.into(), gs, alpha }
}
/// `lvl` 0: smallest (for expensive checks) ... 3: largest
pub fn families(lvl: usize) -> Vec<Fam> {
    let w = |a: usize, b: usize, c: usize, d: usize| [a, b, c, d][lvl];
    let full = small(2, true, true, true, true);
    let ng = Shape { nongreedy: true, ..full.clone() };
    let rec1 = small(2, true, true, false, false).with(El::Rule(1, 0));
    let mut v = vec![];
    let n = w(3, 5, 5, 6);
    v.push(fam("single", format!("r0: body EOF, body weight <= {} over 2 tokens, choices, ?, *, +", n), fam_single(full.clone(), n, 2), 2));
    let n = w(3, 5, 5, 5);
    v.push(fam("nongreedy", format!("as `single` with greedy and non-greedy subrules, weight <= {}", n), fam_single(ng, n, 2).into_iter().filter(has_nongreedy).collect(), 2));
    let n = w(4, 6, 6, 7);
    v.push(fam("alts", format!("r0: alternatives ending in EOF, weight <= {}", n), fam_rule_alts(small(2, true, false, false, false), n, 2), 2));
    let (a, b) = [(3, 2), (4, 3), (5, 3), (5, 4)][lvl];
    v.push(fam(
        "two",
        format!("r0 with >= 2 calls of r1, weights <= {} / {}", a, b),
        fam_two(small(2, true, true, false, true), a, small(2, true, true, true, false), b, 2, 2),
        2,
    ));
    let (a, b) = [(2, 3), (3, 4), (3, 5), (4, 5)][lvl];
    v.push(fam(
        "rec",
        format!("r0 calling a rule r1 that may call itself (not left recursive), weights <= {} / {}", a, b),
        fam_two(small(2, true, false, false, false), a, rec1, b, 1, 2).into_iter().filter(|g| uses(&g.rules[1].alts, &|e| matches!(e, El::Rule(1, _))) > 0).collect(),
        2,
    ));
    v.push(fam("many", format!("r0: (a1|..|an) tail EOF with n = 3 or 4 alternatives and a tail that are token strings of length <= 2, also looped, level {}", lvl), many(lvl), 2));
    v.push(fam("sets", "two-element bodies over token ranges, sets, complements and the wildcard, 4 tokens", sets(w(2, 3, 3, 4)), 4));
    v.push(fam("chain", "three rules: r0 calls r1 and r2 in differing contexts, r1 calls r2", chain(w(2, 2, 3, 3)), 2));
    v.push(fam("expr", "left-recursive rule r1 with 1-2 operators (binary left/right, prefix, suffix, ternary) over 2 operator tokens, called alone, in a loop, before tokens that are also operators, and through another rule", exprs(w(1, 2, 2, 2)), 3));
    v.push(fam("classic", "hand-picked grammars: dangling else, nested brackets, long and cyclic lookahead, context-sensitive lookahead, lists, optional prefixes", classic(), 3));
    v
}
/// grammars whose decisions need long, cyclic or context-dependent lookahead (3 tokens)
pub fn classic() -> Vec<Grammar> {
    use El::*;
    let (a, b, c) = (Tok(1), Tok(2), Tok(3));
    let e = || Tok(EOF);
    let r = |i: usize| Rule(i, 0);
    let opt = |s: Vec<El>| Opt(vec![s], true);
    let star = |s: Vec<El>| Star(vec![s], true);
    let plus = |s: Vec<El>| Plus(vec![s], true);
    let g = |rs: Vec<Vec<Vec<El>>>| {
        parser_grammar(rs.into_iter().enumerate().map(|(i, alts)| prule(&format!("r{}", i), alts)).collect(), 3)
    };
    let (a, b, c) = (|| a.clone(), || b.clone(), || c.clone());
    vec![
        // dangling else: a=if b=else c=statement
        g(vec![vec![vec![r(1), e()]], vec![vec![a(), r(1), opt(vec![b(), r(1)])], vec![c()]]]),
        g(vec![vec![vec![r(1), e()]], vec![vec![a(), r(1)], vec![a(), r(1), b(), r(1)], vec![c()]]]),
        // nested brackets with lists
        g(vec![vec![vec![r(1), e()]], vec![vec![a(), star(vec![r(1)]), b()], vec![c()]]]),
        g(vec![vec![vec![star(vec![r(1)]), e()]], vec![vec![a(), opt(vec![r(1), star(vec![c(), r(1)])]), b()]]]),
        // cyclic lookahead: a* b | a* c
        g(vec![vec![vec![r(1), e()], vec![r(2), e()]], vec![vec![star(vec![a()]), b()]], vec![vec![star(vec![a()]), c()]]]),
        g(vec![vec![vec![r(1), b(), e()], vec![r(1), c(), e()]], vec![vec![a(), r(1)], vec![]]]),
        // non-regular lookahead
        g(vec![vec![vec![r(1), b(), e()], vec![r(1), e()]], vec![vec![a(), r(1), c()], vec![b()]]]),
        // SLL conflict resolved by context (strong LL versus LL)
        g(vec![vec![vec![a(), r(1), a(), e()], vec![b(), r(1), b(), a(), e()]], vec![vec![b()], vec![]]]),
        g(vec![vec![vec![a(), r(1), c(), e()], vec![b(), r(1), a(), c(), e()]], vec![vec![a()], vec![a(), a()], vec![]]]),
        g(vec![
            vec![vec![r(1), c(), e()], vec![b(), r(1), a(), c(), e()]],
            vec![vec![a(), r(2)]],
            vec![vec![opt(vec![a()])]],
        ]),
        // ambiguous adjacency
        g(vec![vec![vec![star(vec![a()]), star(vec![a()]), b(), e()]]]),
        g(vec![vec![vec![plus(vec![r(1)]), e()]], vec![vec![a()], vec![a(), a()], vec![b()]]]),
        g(vec![vec![vec![r(1), r(1), e()]], vec![vec![opt(vec![a()]), opt(vec![b()]), opt(vec![a()])]]]),
        // statements and expressions
        g(vec![vec![vec![star(vec![r(1)]), e()]], vec![vec![r(2), c()], vec![a(), b(), r(2), c()]], vec![vec![a()], vec![a(), b(), a()]]]),
        // palindromes
        g(vec![vec![vec![r(1), e()]], vec![vec![a(), r(1), a()], vec![b(), r(1), b()], vec![c()]]]),
        g(vec![vec![vec![r(1), e()]], vec![vec![a(), r(1), a()], vec![b(), r(1), b()], vec![]]]),
        // mutual recursion
        g(vec![vec![vec![r(1), e()]], vec![vec![a(), r(2)], vec![c()]], vec![vec![b(), r(1)], vec![b()]]]),
        g(vec![vec![vec![r(1), opt(vec![b()]), e()]], vec![vec![a(), opt(vec![r(2)])]], vec![vec![b(), opt(vec![r(1)])]]]),
        // non-greedy until terminator
        g(vec![vec![vec![star(vec![r(1)]), e()]], vec![vec![a(), Star(vec![vec![Wild]], false), b()]]]),
        g(vec![vec![vec![a(), Plus(vec![vec![a()], vec![b()]], false), b(), c(), e()]]]),
        // two loops sharing a rule
        g(vec![vec![vec![star(vec![r(1), b()]), star(vec![r(1), c()]), e()]], vec![vec![a()], vec![a(), a()]]]),
        g(vec![vec![vec![opt(vec![r(1), b()]), r(1), c(), e()]], vec![vec![star(vec![a()])]]]),
        // unary tower: right recursion through three rules
        g(vec![vec![vec![r(1), e()]], vec![vec![r(2), star(vec![b(), r(2)])]], vec![vec![r(3), star(vec![c(), r(3)])]], vec![vec![a()], vec![b(), r(3)]]]),
    ]
}
/// choices among several plain token strings, which converge at different places of what follows
fn many(lvl: usize) -> Vec<Grammar> {
    let strs = |max: usize, min: usize| {
        let mut v: Vec<Vec<El>> = vec![];
        let mut cur: Vec<Vec<El>> = vec![vec![]];
        for l in 0..=max {
            if l >= min {
                v.extend(cur.iter().cloned());
            }
            cur = cur.iter().flat_map(|s| (1..=2).map(move |t| [s.clone(), vec![El::Tok(t)]].concat())).collect();
        }
        v
    };
    let pick = |from: &[Vec<El>], n: usize| {
        let mut v: Vec<Vec<Vec<El>>> = vec![vec![]];
        for _ in 0..n {
            v = v.iter().flat_map(|a| from.iter().map(move |s| [a.clone(), vec![s.clone()]].concat())).collect();
        }
        v
    };
    let t = El::Tok;
    let few = vec![vec![t(1)], vec![t(2)], vec![t(1), t(1)], vec![t(1), t(2)]];
    let mut heads: Vec<El> = vec![];
    if lvl > 0 {
        heads.extend(pick(&strs(2, 0), 3).into_iter().map(El::Block));
        heads.extend(pick(&few, 4).into_iter().map(El::Block));
    } else {
        heads.extend(pick(&few, 3).into_iter().map(El::Block));
    }
    if lvl > 0 {
        heads.extend(pick(&few, 3).into_iter().map(|a| El::Star(a, true)));
    }
    if lvl > 1 {
        heads.extend(pick(&strs(2, 0), 4).into_iter().map(El::Block));
        heads.extend(pick(&strs(2, 1), 3).into_iter().map(|a| El::Star(a, true)));
        heads.extend(pick(&strs(2, 1), 3).into_iter().map(|a| El::Plus(a, true)));
    }
    let mut v = vec![];
    for h in heads {
        for tail in strs(2, 0) {
            let mut s = vec![h.clone()];
            s.extend(tail);
            s.push(t(EOF));
            let g = parser_grammar(vec![prule("r0", vec![s])], 2);
            if well_formed(&g) {
                v.push(g);
            }
        }
    }
    dedup(v)
}
fn has_nongreedy(g: &Grammar) -> bool {
    g.rules.iter().any(|r| uses(&r.alts, &|e| matches!(e, El::Opt(_, false) | El::Star(_, false) | El::Plus(_, false))) > 0)
}
/// full-context prediction: r2's ending depends on who called r1
fn chain(w: usize) -> Vec<Grammar> {
    let e1 = Enum::new(small(2, true, false, false, false).with(El::Rule(2, 0)), w);
    let e2 = Enum::new(small(2, true, true, false, false), w);
    let tops: Vec<Vec<Vec<El>>> = {
        let (a, b) = (El::Tok(1), El::Tok(2));
        let c = || El::Rule(1, 0);
        let d = || El::Rule(2, 0);
        vec![
            vec![vec![a.clone(), c(), b.clone()], vec![b.clone(), c(), a.clone()]],
            vec![vec![a.clone(), c(), b.clone()], vec![b.clone(), d(), b.clone()]],
            vec![vec![c(), b.clone()], vec![d(), a.clone()]],
            vec![vec![c(), c()], vec![d(), b.clone()]],
            vec![vec![c(), d()], vec![a.clone(), c()]],
            vec![vec![d(), c(), a.clone()]],
        ]
    };
    let mut v = vec![];
    for t in &tops {
        for r1 in e1.alts_upto(w) {
            if uses(&r1, &|e| matches!(e, El::Rule(2, _))) == 0 {
                continue;
            }
            for r2 in e2.alts_upto(w) {
                let mut t = t.clone();
                t.iter_mut().for_each(|s| s.push(El::Tok(EOF)));
                let g = parser_grammar(vec![prule("r0", t), prule("r1", r1.clone()), prule("r2", r2.clone())], 2);
                if well_formed(&g) {
                    v.push(g)
                }
            }
        }
    }
    dedup(v)
}
fn sets(w: usize) -> Vec<Grammar> {
    let atoms = vec![
        El::Tok(1),
        El::Tok(3),
        El::Range(2, 4),
        El::Set(vec![(1, 1), (3, 3)]),
        El::NotSet(vec![(2, 2)]),
        El::NotSet(vec![(1, 2), (4, 4)]),
        El::Wild,
    ];
    let sh = Shape { atoms, opt: true, star: true, plus: false, block: false, nongreedy: false, empty_alts: false };
    let e = Enum::new(sh, w);
    let mut v = vec![];
    for a in e.alts_upto(w) {
        let mut a = a;
        a.iter_mut().for_each(|s| s.push(El::Tok(EOF)));
        let g = parser_grammar(vec![prule("r0", a)], 4);
        if well_formed(&g) {
            v.push(g)
        }
    }
    dedup(v)
}

/// left-recursive rules in contexts whose tokens are operators too
pub fn exprs(max_ops: usize) -> Vec<Grammar> {
    use crate::p_lr::{Kind, Kind::*, Spec};
    let mut ops: Vec<Vec<(Kind, i32)>> = vec![];
    let kinds = [BinL, BinR, Prefix, Suffix];
    for k in kinds {
        ops.push(vec![(k, 2)]);
        if max_ops > 1 {
            for k2 in kinds {
                ops.push(vec![(k, 2), (k2, 3)]);
                if (k == Prefix) != (k2 == Prefix) && k != Suffix && k2 != Suffix {
                    ops.push(vec![(k, 2), (k2, 2)]);
                }
            }
        }
    }
    ops.retain(|o| o.iter().any(|(k, _)| *k != Prefix));
    let r = |i: usize| El::Rule(i, 0);
    let t = El::Tok;
    let e = || El::Tok(EOF);
    let tops: Vec<(Vec<Vec<El>>, Option<Vec<Vec<El>>>)> = vec![
        (vec![vec![r(1), e()]], None),
        (vec![vec![El::Star(vec![vec![r(1)]], true), e()]], None),
        (vec![vec![r(1), t(2), r(1), e()]], None),
        (vec![vec![r(1), El::Opt(vec![vec![t(3)]], true), e()]], None),
        (vec![vec![r(1), t(3), e()], vec![r(1), e()]], None),
        (vec![vec![r(2), t(2), t(2), e()], vec![r(2), e()]], Some(vec![vec![r(1)], vec![t(3), r(1), t(3)]])),
    ];
    let mut v = vec![];
    for o in &ops {
        for (top, r2) in &tops {
            let spec = Spec { ops: o.clone(), parens: false };
            let mut rules = vec![prule("r0", top.clone()), spec.rule(1, "r1")];
            if let Some(x) = r2 {
                rules.push(prule("r2", x.clone()));
            }
            v.push(parser_grammar(rules, 3));
        }
    }
    v
}
