//! C25: every error listener is told of everything, and messages quote what they are about.
use crate::fam::*;
use crate::grammar::*;
use crate::interp::*;
use crate::lexi;
use crate::p_core::{key, over_families};
use crate::p_lex;
use crate::reflex::esc;
use crate::refp::*;
use crate::run::*;

/// texts with characters that a message must not contain as they are
fn odd_text(t: i32) -> String {
    match t {
        1 => "a".into(),
        2 => "b\n\t".into(),
        3 => "\r c".into(),
        t => tok_text(t),
    }
}
fn toks(i: &[i32], hidden: u32) -> Vec<STok> {
    let mut v = vec![];
    for k in 0..=i.len() {
        if hidden >> k & 1 == 1 {
            v.push(STok { ty: 1, ch: 1, text: "#\n".into() });
        }
        if k < i.len() {
            v.push(STok { ty: i[k], ch: 0, text: odd_text(i[k]) });
        }
    }
    v
}
fn check(g: &Grammar, a: &Atn, ts: &[STok], o: &Out) -> Result<(), String> {
    if let Some(t) = &o.twin {
        return Err(t.clone());
    }
    let _ = g;
    let text = |i: isize| match ts.get(i as usize) {
        Some(t) => t.text.clone(),
        None => "<EOF>".into(),
    };
    for e in &o.errors {
        let ti = match e.tok {
            Some(t) => t.0,
            None => return Err(format!("no offending token with \"{}\"", e.msg)),
        };
        if ti < 0 || ti > ts.len() as isize || ts.get(ti as usize).map(|t| t.ch != 0).unwrap_or(false) {
            return Err(format!("token {} given with \"{}\" is none the parser sees", ti, e.msg));
        }
        if (e.line, e.col) != (line_of(ti), ti) {
            return Err(format!("line {} column {} given with \"{}\", but the offending token is at {}:{}", e.line, e.col, e.msg, line_of(ti), ti));
        }
        let quoted = format!("'{}'", esc(&text(ti)));
        let ok = match &e.kind {
            EKind::NoAlt { start, off } => {
                let span: String = if *start == ts.len() as isize {
                    "<EOF>".into()
                } else {
                    (*start..=*off).take_while(|k| *k < ts.len() as isize).map(text).collect()
                };
                *off == ti && e.msg == format!("no viable alternative at input '{}'", esc(&span))
            }
            EKind::Mismatch { off } => *off == ti && e.msg.starts_with(&format!("mismatched input {} expecting ", quoted)),
            EKind::Pred { off } => {
                let rule = a.states[e.state as usize].rule;
                let p: String = e.msg.chars().skip_while(|c| *c != ' ').skip(1).skip_while(|c| *c != ' ').collect();
                *off == ti && e.msg.starts_with(&format!("rule {} failed predicate: ", RULE_NAMES[rule as usize])) && p.len() > 18
            }
            EKind::Inline => e.msg.starts_with(&format!("extraneous input {} expecting ", quoted)) || e.msg.starts_with("missing ") && e.msg.ends_with(&format!(" at {}", quoted)),
            EKind::Other(x) => return Err(format!("error {}", x)),
        };
        if !ok {
            return Err(format!("message {:?} does not fit the error {:?} at token {} of {:?}", e.msg, e.kind, ti, ts.iter().map(|t| t.text.as_str()).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

pub fn c25(tier: Tier) -> Vec<Plan> {
    let mut v = over_families(
        tier.pick(1, 2),
        move |f| match (f.alpha, tier) {
            (2, Tier::Quick) => 4,
            (2, _) => 6,
            (3, Tier::Quick) => 4,
            (3, _) => 5,
            (_, Tier::Quick) => 2,
            _ => 3,
        },
        move |g, inputs, st| {
            let prog = compile(g);
            let mut l = Loaded::new(prog.clone());
            let rp = RProg::new(&prog);
            for input in inputs {
                let valid = Ref::new(&rp, input).accepts(0);
                let full = (1u32 << (input.len() + 1)) - 1;
                for (mode, hidden) in [(Mode::LL, 0), (Mode::LL, full), (Mode::Exact, full & 0xaaaa)] {
                    if valid && mode == Mode::LL && hidden != 0 {
                        continue;
                    }
                    let mut cfg = Cfg::new(mode);
                    cfg.twin = true;
                    if hidden & 1 == 1 {
                        cfg = cfg.preds(Preds::Mask(0));
                    }
                    let ts = toks(input, hidden);
                    // predicates change with the configuration, so the caches are dropped
                    // only for what C07 looks at, not here
                    let r = match guard(|| parse(&l, &ts, &cfg)) {
                        Err(e) => Err(format!("panic {}", e)),
                        Ok(o) => {
                            st.transitions += o.decs.len() as u64;
                            st.states += o.errors.len() as u64;
                            st.outcome(&o.errors.iter().map(|e| (e.msg.clone(), e.tok)).collect::<Vec<_>>());
                            if !o.errors.is_empty() {
                                st.sample(|| format!("{} on {:?}: {:?}", g.show(), input, o.errors[0].msg));
                            }
                            check(g, &prog.atn, &ts, &o)
                        }
                    };
                    st.traces += 1;
                    if let Err(e) = r {
                        st.fail(key(g, input), format!("{}\ninput {:?}, hidden tokens before {:b}, {:?}: {}", g.show(), input, hidden, mode, e));
                        l.reset();
                        if st.failed() {
                            return;
                        }
                    }
                }
            }
        },
    );
    v.extend(lexer_messages(tier));
    v
}

/// two listeners on a lexer, texts of many kinds dropped
fn lexer_messages(t: Tier) -> Vec<Plan> {
    let al: Vec<i32> = "a\n\r\té😀".chars().map(|c| c as i32).collect();
    let ins = p_lex::inputs(&al, t.pick(4, 6));
    let c = |x: char| El::Tok(x as i32);
    let gs = vec![
        vec![vec![vec![c('a'), c('\n'), c('\t'), c('a')]]],
        vec![vec![vec![c('a')]], vec![vec![c('\r'), c('\n'), c('\n')]]],
        vec![vec![vec![El::Plus(vec![vec![El::NotSet(vec![(9, 10), (233, 233)])]], true), c('é')]]],
    ];
    gs.into_iter()
        .enumerate()
        .map(|(k, rs)| {
            let g = p_lex::plain_lexer(rs);
            let ins = ins.clone();
            plan(format!("lexer{}", k), format!("{}; all {} inputs over letters, tabs and line ends", g.show(), ins.len()), 16, move |i, st| {
                let l = Loaded::new(compile(&g));
                let r = crate::reflex::RLex::new(&g);
                for (sy, tx) in ins.iter().skip(i).step_by(16) {
                    let mut steps = 0;
                    let m = r.lex(sy, &lexi::Script::default(), &mut steps);
                    st.states += steps;
                    st.traces += 1;
                    let want: Vec<(isize, isize, String)> = m.errs.iter().map(|e| (e.line, e.col, e.msg.clone())).collect();
                    let res = match guard(|| lexi::lex_twin(&l, tx)) {
                        Err(e) => Err(format!("panic {}", e)),
                        Ok((a, b, late)) => {
                            let f = |v: &[lexi::LErr]| v.iter().map(|e| (e.line, e.col, e.msg.clone())).collect::<Vec<_>>();
                            st.outcome(&f(&a));
                            if f(&a) != want {
                                Err(format!("the listener is told {:?} instead of {:?}", f(&a), want))
                            } else if a != b {
                                Err(format!("the second listener is told {:?} and the first {:?}", b, a))
                            } else if !late.is_empty() {
                                Err(format!("a removed listener is told {:?}", late))
                            } else {
                                Ok(())
                            }
                        }
                    };
                    if let Err(e) = res {
                        st.fail(format!("{}| {:?}", g.show(), tx), format!("{}\ninput {:?}: {}", g.show(), tx, e));
                        if st.failed() {
                            return;
                        }
                    }
                }
            })
        })
        .collect()
}
