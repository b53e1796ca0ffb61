//! C26: the parser's rule context is the chain of calls made. C27: a parser serves again.
use crate::enumg::strings;
use crate::fam::*;
use crate::grammar::*;
use crate::interp::*;
use crate::p_core::{key, over_families};
use crate::run::*;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::int_stream::IntStream;

fn lens(f: &Fam, tier: Tier) -> usize {
    match (f.alpha, tier) {
        (2, Tier::Quick) => 4,
        (2, _) => 6,
        (3, Tier::Quick) => 4,
        (3, _) => 6,
        (_, Tier::Quick) => 2,
        _ => 3,
    }
}
pub fn c26(tier: Tier) -> Vec<Plan> {
    over_families(
        tier.pick(1, 2),
        move |f| lens(f, tier),
        move |g, inputs, st| {
            let l = Loaded::new(compile(g));
            let mut cfgs = vec![Cfg::new(Mode::LL), Cfg::new(Mode::LL).labels().listening(), Cfg::new(Mode::Sll).bail(), Cfg::new(Mode::LL)];
            cfgs[3].build_tree = false;
            cfgs[3].unbuffered = true;
            for c in &mut cfgs {
                c.watch = true;
            }
            for input in inputs {
                for start in 0..g.rules.len() {
                    for (k, cfg) in cfgs.iter_mut().enumerate() {
                        if start > 0 && k > 1 {
                            continue;
                        }
                        cfg.start = start;
                        st.traces += 1;
                        let r = match guard(|| parse(&l, &stoks(input), cfg)) {
                            Err(e) => Some(format!("panic {}", e)),
                            Ok(o) => {
                                st.transitions += o.decs.len() as u64;
                                st.states += o.watched;
                                st.outcome(&o.tree);
                                o.lost
                            }
                        };
                        if let Some(e) = r {
                            st.fail(key(g, input), format!("{}\ninput {:?} from r{}, {:?}: {}", g.show(), input, start, cfg, e));
                            if st.failed() {
                                return;
                            }
                        }
                    }
                }
            }
        },
    )
}

/// what one call of a rule did; the expected tokens of a message can include those of a place
/// passed before the call, since the last matched token (C22 judges them)
fn result(o: &Out) -> String {
    let t = o.tree.as_ref().map(|t| format!("{:?}", t));
    let e: Vec<_> = o.errors.iter().map(|e| (e.msg.split(" expecting ").next().unwrap_or("").to_string(), e.tok, e.line, e.col, e.at, e.state, e.stack.clone())).collect();
    format!("tree {:?}, decisions {:?}, errors {:?}, {:?}, events {:?}, index {}", t, o.decs, e, o.err, o.events, o.end_index)
}

fn again(g: &Grammar, inputs: &[Vec<i32>], tier: Tier, st: &mut Stats) {
    let l = Loaded::new(compile(g));
    let n = g.rules.len();
    let far = tier.pick(3, 5);
    for input in inputs {
        let ts = stoks(input);
        let back: Vec<i32> = input.iter().rev().cloned().collect();
        let other = stoks(&back);
        for first in 0..n {
            for second in 0..n {
                for (ci, mut cfg) in vec![Cfg::new(Mode::LL).listening(), Cfg::new(Mode::LL).labels(), Cfg::new(Mode::LL).bail().listening()].into_iter().enumerate() {
                    if first + second > 0 && !cfg.listen {
                        continue;
                    }
                for then in [Then::On, Then::Rewind, Then::Other] {
                    if then != Then::On && (input.len() > far || (then == Then::Rewind) != (ci == 0)) {
                        continue;
                    }
                    cfg.start = first;
                    st.traces += 1;
                    let r = guard(|| {
                        let mut mid = 0;
                        let both = parse_twice(&l, CommonTokenStream::new(ListSource::new(&ts)), &cfg, second, &mut |o, s| {
                            mid = o.end_index;
                            match then {
                                Then::On => {}
                                Then::Rewind => {
                                    mid = 0;
                                    s.seek(0)
                                }
                                Then::Other => {
                                    mid = 0;
                                    *s = CommonTokenStream::new(ListSource::new(&other))
                                }
                            }
                        });
                        let mut s = CommonTokenStream::new(ListSource::new(if then == Then::Other { &other } else { &ts }));
                        s.la(mid + 1);
                        s.seek(mid);
                        cfg.start = second;
                        let alone = parse_with(&l, s, &cfg, &mut |_, _| {});
                        (both, alone, mid)
                    });
                    let bad = match &r {
                        Err(e) => Some(format!("panic {}", e)),
                        Ok((both, alone, mid)) => {
                            st.transitions += both.decs.len() as u64;
                            st.states += 2;
                            st.outcome(both);
                            let (a, b) = (result(both), result(alone));
                            if a != b {
                                Some(format!("r{} from token {} on gives\n{}\nafter r{} with the same parser ({:?}), and\n{}\nwith a new one", second, mid, a, first, then, b))
                            } else {
                                None
                            }
                        }
                    };
                    if let Some(e) = bad {
                        st.fail(key(g, input), format!("{}\ninput {:?} {:?}: {}", g.show(), input, cfg, e));
                        if st.failed() {
                            return;
                        }
                    }
                }
                }
            }
        }
    }
}

/// where the second call starts
#[derive(Clone, Copy, PartialEq, Debug)]
enum Then {
    /// where the first one ended
    On,
    /// at the first token again
    Rewind,
    /// at the first token of another stream
    Other,
}
pub fn c27(tier: Tier) -> Vec<Plan> {
    let mut v = over_families(
        tier.pick(1, 2),
        move |f| match (f.alpha, tier) {
            (2 | 3, Tier::Quick) => 4,
            (2 | 3, _) => 6,
            (_, Tier::Quick) => 2,
            _ => 3,
        },
        move |g, inputs, st| again(g, inputs, tier, st),
    );
    let gs: Vec<Grammar> = exprs(tier.pick(1, 2)).into_iter().map(operand_rule).collect();
    let inputs = strings(3, tier.pick(3, 4));
    v.push(plan("expr with an operand rule", format!("as `expr`, the operand being a rule of its own ({} grammars); all {} token strings over 3 tokens up to length {}", gs.len(), inputs.len(), tier.pick(3, 4)), gs.len(), move |i, st| again(&gs[i], &inputs, tier, st)));
    v
}

/// the operand of the left-recursive rule becomes a rule of its own
fn operand_rule(mut g: Grammar) -> Grammar {
    fn put(e: &mut El, atom: usize) {
        match e {
            El::Tok(1) => *e = El::Rule(atom, 0),
            El::Block(a) | El::Opt(a, _) | El::Star(a, _) | El::Plus(a, _) => a.iter_mut().flatten().for_each(|e| put(e, atom)),
            _ => {}
        }
    }
    let atom = g.rules.len();
    g.rules[1].alts.iter_mut().flatten().for_each(|e| put(e, atom));
    g.rules.push(prule("atom", vec![vec![El::Tok(1)]]));
    g
}

