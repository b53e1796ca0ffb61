//! C09: semantic predicates against the reference derivation with predicates.
use crate::enumg::strings;
use crate::fam::*;
use crate::grammar::*;
use crate::interp::*;
use crate::p_hist::{explore, Letter};
use crate::refp::*;
use crate::run::*;

/// all ways to put predicate `k` at the start of an alternative (or not), numbering the
/// alternatives in order; `sel` says for each alternative which predicate it gets
fn place(alts: &[Vec<El>], n: &mut usize, sel: &dyn Fn(usize) -> Vec<El>, multi_only: bool) -> Vec<Vec<El>> {
    alts.iter()
        .map(|a| {
            let mine = *n;
            if !multi_only || alts.len() > 1 {
                *n += 1;
            }
            let mut v: Vec<El> = vec![];
            if !multi_only || alts.len() > 1 {
                v.extend(sel(mine));
            }
            for e in a {
                v.push(match e {
                    El::Block(x) => El::Block(place(x, n, sel, multi_only)),
                    El::Opt(x, g) => El::Opt(place(x, n, sel, false), *g),
                    El::Star(x, g) => El::Star(place(x, n, sel, false), *g),
                    El::Plus(x, g) => El::Plus(place(x, n, sel, multi_only), *g),
                    e => e.clone(),
                })
            }
            v
        })
        .collect()
}
pub fn place_g(g: &Grammar, sel: &dyn Fn(usize) -> Vec<El>) -> (Grammar, usize) {
    let mut g = g.clone();
    let mut n = 0;
    for r in g.rules.iter_mut() {
        r.alts = place(&r.alts, &mut n, sel, true);
        if let Some(o) = &mut r.ops {
            // after the precedence predicate
            let w: Vec<Vec<El>> = o
                .iter()
                .map(|a| {
                    let mut v = vec![a[0].clone()];
                    v.extend(sel(n));
                    n += 1;
                    v.extend(a[1..].iter().cloned());
                    v
                })
                .collect();
            *o = w;
        }
    }
    (g, n)
}
/// every grammar with every choice of up to `k` guarded alternatives
pub fn guarded(g: &Grammar, k: usize) -> Vec<Grammar> {
    let (_, n) = place_g(g, &|_| vec![]);
    let mut out = vec![];
    for m in 1u32..1 << n.min(10) {
        if m.count_ones() as usize > k {
            continue;
        }
        let nth = |i: usize| (m & ((1 << i) - 1)).count_ones() as i32;
        let mut put = |f: &dyn Fn(i32) -> Vec<El>| out.push(place_g(g, &|i| if m >> i & 1 == 1 { f(nth(i)) } else { vec![] }).0);
        put(&|k| vec![El::Pred(k, false)]);
        if m.count_ones() >= 2 {
            // the same predicate everywhere
            put(&|_| vec![El::Pred(0, false)]);
            // one that depends on its context
            put(&|k| vec![El::Pred(k, k == 0)]);
            put(&|k| vec![El::Pred(k, k == 1)]);
            // one behind an action
            put(&|k| if k == 0 { vec![El::Action(0), El::Pred(k, false)] } else { vec![El::Pred(k, false)] });
            put(&|k| if k == 1 { vec![El::Action(0), El::Pred(k, false)] } else { vec![El::Pred(k, false)] });
        }
    }
    out
}
pub fn npreds(g: &Grammar) -> usize {
    let mut k = 0;
    fn walk(a: &[Vec<El>], k: &mut usize) {
        for e in a.iter().flatten() {
            match e {
                El::Pred(i, _) => *k = (*k).max(*i as usize + 1),
                El::Block(x) | El::Opt(x, _) | El::Star(x, _) | El::Plus(x, _) => walk(x, k),
                _ => {}
            }
        }
    }
    for r in &g.rules {
        walk(&r.alts, &mut k);
        if let Some(o) = &r.ops {
            walk(o, &mut k);
        }
    }
    k
}

fn check(g: &Grammar, rp: &RProg, l: &Loaded, input: &[i32], cfg: &Cfg, st: &mut Stats) {
    let mut r = Ref::new(rp, input);
    match cfg.preds {
        Preds::Mask(m) => r.preds = m,
        Preds::Flag => {
            r.preds = 0;
            r.flags = true
        }
        Preds::NextNot => r.next_not = true,
    }
    let want = r.derive_pred(cfg.start);
    st.states += r.states as u64;
    let o = guard(|| parse(l, &stoks(input), cfg));
    st.traces += 1;
    st.transitions += input.len() as u64 + 1;
    let fail = |what: String, st: &mut Stats| {
        st.fail(format!("{}| {:?} {:?}", g.show(), input, cfg.preds), format!("{}\ninput {:?}, {:?} {:?}: {}", g.show(), input, cfg.preds, cfg.mode, what));
    };
    match (want, o) {
        (_, Err(e)) => fail(format!("panic {}", e), st),
        (Ok(t), Ok(o)) => {
            if cfg.mode == Mode::Sll && !o.errors.is_empty() {
                return;
            }
            if !o.errors.is_empty() || o.tree.as_ref() != Some(&t) || o.decs != r.decs {
                fail(format!("expected {} decisions {:?}\ngot {} decisions {:?} errors {:?}", t.show(), r.decs, o.tree.map(|t| t.show()).unwrap_or_default(), o.decs, o.errors.iter().map(|e| &e.msg).collect::<Vec<_>>()), st)
            } else {
                st.outcome(&(o.tree, o.decs));
                st.count("inputs derived", 1);
            }
        }
        (Err(e), Ok(o)) => {
            if o.errors.is_empty() && o.err.is_none() {
                fail(format!("no error reported although {}; tree {} decisions {:?}", e, o.tree.map(|t| t.show()).unwrap_or_default(), o.decs), st)
            }
            st.count("inputs ruled out", 1);
        }
    }
}

/// grammars with actions that change what predicates see, and nested, hoisted and
/// context-dependent predicates (tokens 1..=3)
pub fn special() -> Vec<Grammar> {
    use El::*;
    let (a, b, c) = (|| Tok(1), || Tok(2), || Tok(3));
    let e = || Tok(EOF);
    let r = |i: usize| Rule(i, 0);
    let p = |i: i32| Pred(i, false);
    let pc = |i: i32| Pred(i, true);
    let star = |s: Vec<El>| Star(vec![s], true);
    let opt = |s: Vec<El>| Opt(vec![s], true);
    let g = |rs: Vec<Vec<Vec<El>>>| {
        parser_grammar(rs.into_iter().enumerate().map(|(i, alts)| prule(&format!("r{}", i), alts)).collect(), 3)
    };
    vec![
        // hoisted through rule calls, possibly several levels
        g(vec![vec![vec![r(1), e()], vec![a(), b(), e()]], vec![vec![p(0), a(), b()]]]),
        g(vec![vec![vec![r(1), b(), e()], vec![r(2), b(), e()]], vec![vec![p(0), a()], vec![p(1), c()]], vec![vec![p(2), a()], vec![c()]]]),
        g(vec![vec![vec![r(1), e()], vec![r(1), c(), e()]], vec![vec![r(2), b()]], vec![vec![p(0), a()], vec![p(1), a(), a()]]]),
        // hoisted from the caller's continuation
        g(vec![vec![vec![r(1), p(0), b(), e()], vec![r(1), p(1), c(), e()]], vec![vec![opt(vec![a()])]]]),
        g(vec![vec![vec![r(1), r(2), e()]], vec![vec![star(vec![a()])]], vec![vec![p(0), a(), b()], vec![p(1), b()], vec![c()]]]),
        g(vec![vec![vec![a(), r(1), p(0), b(), e()], vec![b(), r(1), p(1), b(), e()]], vec![vec![opt(vec![c()])], vec![p(2), b()]]]),
        // loops guarded per iteration, flags toggled by actions inside
        g(vec![vec![vec![star(vec![p(0), a(), Action(0), b()]), star(vec![a()]), star(vec![b()]), e()]]]),
        g(vec![vec![vec![b(), Action(0), star(vec![p(0), a(), Action(1)]), star(vec![p(1), a()]), e()]]]),
        g(vec![vec![vec![star(vec![r(1)]), e()]], vec![vec![p(0), a(), Action(0)], vec![a(), Action(0), c()], vec![b(), Action(0)]]]),
        g(vec![vec![vec![star(vec![c(), Action(0)]), r(1), e()]], vec![vec![p(0), a()], vec![a()], vec![b(), Action(0), r(1)]]]),
        g(vec![vec![vec![star(vec![c(), Action(0)]), r(1), r(1), e()]], vec![vec![p(0), a(), b()], vec![a()], vec![b()]]]),
        // several predicates in front of one alternative
        g(vec![vec![vec![p(0), p(1), a(), e()], vec![p(2), a(), e()], vec![p(0), a(), e()]]]),
        g(vec![vec![vec![p(0), r(1), e()], vec![p(1), r(1), e()], vec![r(1), e()]], vec![vec![p(2), a()], vec![b()]]]),
        // one alternative reachable with and without predicate
        g(vec![vec![vec![Block(vec![vec![p(0), a()], vec![a()]]), e()], vec![p(1), a(), e()]]]),
        g(vec![vec![vec![Block(vec![vec![p(0), a()], vec![p(1), a()]]), e()], vec![a(), e()]]]),
        g(vec![vec![vec![Block(vec![vec![p(0), a()], vec![p(1), b()]]), c(), e()], vec![Block(vec![vec![a()], vec![p(2), b()]]), c(), e()]]]),
        // predicate after a token: not seen by the decision
        g(vec![vec![vec![a(), p(0), b(), e()], vec![a(), b(), e()], vec![a(), c(), e()]]]),
        // context dependent predicates of the deciding rule itself
        g(vec![vec![vec![pc(0), a(), e()], vec![pc(1), a(), b(), e()], vec![a(), e()]]]),
        g(vec![vec![vec![star(vec![pc(0), a()]), star(vec![pc(1), a(), b()]), e()]]]),
        g(vec![vec![vec![c(), r(1), e()]], vec![vec![pc(0), a()], vec![pc(1), a(), b()], vec![a(), b()]]]),
        // an action hides the predicates behind it
        g(vec![vec![vec![Action(0), p(0), a(), e()], vec![p(1), a(), e()], vec![a(), b(), e()]]]),
        g(vec![vec![vec![p(0), Action(0), p(1), a(), e()], vec![Action(1), a(), e()], vec![a(), e()]]]),
        g(vec![vec![vec![r(1), a(), e()], vec![p(2), a(), e()], vec![b(), e()]], vec![vec![Action(0), p(0)], vec![p(1), b()]]]),
        g(vec![vec![vec![Block(vec![vec![p(0)], vec![Action(0)]]), p(1), a(), e()], vec![a(), b(), e()]]]),
        g(vec![vec![vec![star(vec![Action(0), p(0), a()]), star(vec![p(1), a()]), b(), e()]]]),
        g(vec![vec![vec![opt(vec![r(1), a()]), p(0), opt(vec![a()]), e()]], vec![vec![Action(1)], vec![p(1), b()]]]),
        // ... up to the end of the input
        g(vec![vec![vec![a(), Block(vec![vec![Action(0), p(0), e()], vec![p(1), e()], vec![b(), e()]])]]]),
        // context-dependent predicates of other rule invocations are not seen
        g(vec![vec![vec![r(1), e()], vec![p(1), a(), e()]], vec![vec![pc(0), a()], vec![b()]]]),
        g(vec![vec![vec![r(1), pc(0), a(), e()]], vec![vec![star(vec![a()])], vec![pc(1), b()]]]),
        g(vec![vec![vec![r(1), pc(0), a(), e()], vec![pc(1), a(), b(), e()]], vec![vec![opt(vec![p(2), b()])], vec![c()]]]),
        g(vec![vec![vec![r(1), e()]], vec![vec![a(), r(1), opt(vec![pc(0), b()])], vec![c(), opt(vec![p(1), b()])], vec![pc(1), b(), r(1)], vec![b()]]]),
        g(vec![vec![vec![r(1), opt(vec![pc(0), a()]), opt(vec![a()]), e()]], vec![vec![opt(vec![pc(1), a()]), opt(vec![pc(2), b()])]]]),
        // ambiguous and context sensitive with predicates
        g(vec![vec![vec![a(), r(1), b(), e()], vec![b(), r(1), a(), b(), e()]], vec![vec![p(0), a()], vec![p(1)], vec![p(2), a(), a()]]]),
        g(vec![vec![vec![r(1), r(1), e()]], vec![vec![p(0), a()], vec![p(1), a(), a()], vec![p(2), a(), b()]]]),
        // dangling else with a guarded else
        g(vec![vec![vec![r(1), e()]], vec![vec![a(), r(1), opt(vec![p(0), b(), r(1)])], vec![c()]]]),
        g(vec![vec![vec![r(1), e()]], vec![vec![p(0), a(), r(1)], vec![p(1), a(), r(1), b(), r(1)], vec![c()]]]),
    ]
}

pub fn c09(tier: Tier) -> Vec<Plan> {
    let mut v = vec![];
    let k = tier.pick(2, 3);
    for f in families(tier.pick(0, 1)) {
        if matches!(f.name, "classic" | "sets") {
            continue;
        }
        let n = match (f.alpha, tier) {
            (2, Tier::Quick) => 4,
            (2, _) => 5,
            _ => 3,
        };
        let inputs = strings(f.alpha, n);
        let short = strings(f.alpha, tier.pick(2, 2));
        let gs = f.gs;
        let b = format!("{} ({} grammars), every choice of up to {} alternatives guarded by predicates: distinct, equal, one depending on its context, one behind an action; all truth assignments and next-token predicates; all strings over {} tokens up to length {}; histories of (string up to length {}, truth assignment) to depth 2", f.desc, gs.len(), k, f.alpha, n, 2);
        v.push(plan(f.name, b, gs.len(), move |i, st| {
            for (gi, g) in guarded(&gs[i], k).into_iter().enumerate() {
                let prog = compile(&g);
                let rp = RProg::new(&prog);
                let l = Loaded::new(prog);
                let np = npreds(&g);
                for input in &inputs {
                    for m in 0..1u64 << np {
                        check(&g, &rp, &l, input, &Cfg::new(Mode::LL).preds(Preds::Mask(m)), st);
                    }
                    check(&g, &rp, &l, input, &Cfg::new(Mode::LL).preds(Preds::NextNot), st);
                    check(&g, &rp, &l, input, &Cfg::new(Mode::Exact).preds(Preds::Mask(1)), st);
                    if st.failed() {
                        return;
                    }
                }
                if gi % tier.pick(3, 1) == 0 {
                    let mut letters = vec![];
                    for s in &short {
                        for m in 0..1u64 << np {
                            letters.push(Letter { input: s.clone(), cfg: Cfg::new(Mode::LL).preds(Preds::Mask(m)) });
                        }
                    }
                    explore(&g, &l, &letters, tier.pick(1, 2), tier.pick(30, 100), st);
                    if st.failed() {
                        return;
                    }
                }
            }
        }));
    }
    let gs = special();
    let n = tier.pick(5, 7);
    let inputs = strings(3, n);
    let short = strings(3, tier.pick(2, 3));
    let b = format!("{} hand-picked grammars: hoisting through calls and continuations, several predicates, predicates after tokens, context-dependent predicates, predicates over state changed by actions; all truth assignments, all strings over 3 tokens up to length {}; histories to depth 2", gs.len(), n);
    v.push(plan("special", b, gs.len(), move |i, st| {
        let g = &gs[i];
        let prog = compile(g);
        let rp = RProg::new(&prog);
        let l = Loaded::new(prog);
        let np = npreds(g);
        for input in &inputs {
            for m in 0..1u64 << np {
                check(g, &rp, &l, input, &Cfg::new(Mode::LL).preds(Preds::Mask(m)), st);
                check(g, &rp, &l, input, &Cfg::new(Mode::Exact).preds(Preds::Mask(m)), st);
            }
            check(g, &rp, &l, input, &Cfg::new(Mode::LL).preds(Preds::NextNot), st);
            check(g, &rp, &l, input, &Cfg::new(Mode::LL).preds(Preds::Flag), st);
            if st.failed() {
                return;
            }
        }
        let mut letters = vec![];
        for s in &short {
            for m in 0..1u64 << np {
                letters.push(Letter { input: s.clone(), cfg: Cfg::new(Mode::LL).preds(Preds::Mask(m)) });
            }
        }
        explore(g, &l, &letters, 2, tier.pick(60, 300), st);
    }));
    v
}
