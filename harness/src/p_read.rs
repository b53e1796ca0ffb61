//! C35: how far ahead the lexer reads, against the reference lexer.
use crate::grammar::*;
use crate::enumg::Shape;
use crate::interp::Loaded;
use crate::lexi::*;
use crate::p_lex::*;
use crate::reflex::*;
use crate::run::*;
use std::sync::Arc;

fn check(g: &Grammar, ins: &[(Vec<i32>, String)], sc: &Script, st: &mut Stats) {
    let mut cold = Loaded::new(compile(g));
    let warm = cold.fresh();
    let r = RLex::new(g);
    for (sy, tx) in ins {
        let mut steps = 0;
        let want = r.lex(sy, sc, &mut steps);
        let mut off: Vec<isize> = tx.char_indices().map(|x| x.0 as isize).collect();
        off.push(tx.len() as isize);
        let lim: Vec<isize> = r.reach.borrow().iter().map(|x| off[(*x).min(sy.len())]).collect();
        st.states += steps;
        st.outcome(&lim);
        cold.reset();
        for (l, what) in [(&cold, "cold cache"), (&warm, "warm cache"), (&cold, "the same again")] {
            st.traces += 1;
            st.transitions += sy.len() as u64;
            let e = match guard(|| lex_far(l, tx, sc)) {
                Err(e) => format!("panic {}", e),
                Ok((o, far)) if o.toks.len() == want.toks.len() => match (0..far.len()).find(|i| far[*i] > lim[*i]) {
                    Some(i) => format!("offset {} has been looked at by the end of token {} ({:?}), {} is enough", far[i], i, o.toks[i], lim[i]),
                    None => {
                        st.count("tokens", far.len() as u64);
                        st.count("tokens that need a look beyond the symbol after them", (0..far.len()).filter(|i| lim[*i] > o.toks[*i].stop + 1).count() as u64);
                        continue;
                    }
                },
                Ok((o, _)) => format!("{} tokens instead of {}", o.toks.len(), want.toks.len()),
            };
            st.fail(format!("{} {:?}| {:?}", g.show(), sc, tx), format!("{}{:?}\ninput {:?} ({}): {}", g.show(), sc, tx, what, e));
        }
        if st.failed() {
            return;
        }
    }
}

pub fn c35(t: Tier) -> Vec<Plan> {
    let abc = [A, B, 'c' as i32];
    let mut v = vec![];
    let mut add = |name: &'static str, desc: String, gs: Vec<Grammar>, ins: Arc<Vec<(Vec<i32>, String)>>, scripts: Vec<Script>| {
        let n = gs.len();
        let b = format!("{} ({} grammars); {} inputs; {} settings; cold cache, warm cache, the same input again", desc, n, ins.len(), scripts.len());
        v.push(plan(name, b, n, move |i, st| {
            for sc in &scripts {
                check(&gs[i], &ins, sc, st);
                if st.failed() {
                    return;
                }
            }
        }));
    };
    let w = t.pick(4, 5);
    add("one", format!("one rule of weight <= {} over a, b", w), tuples(1, w, shape(false, true)), inputs(&abc, t.pick(6, 7)), plain());
    let w = t.pick(3, 4);
    add("two", format!("two rules of weight <= {}", w), tuples(2, w, Shape { block: t.pick(true, false), ..shape(false, true) }), inputs(&abc, t.pick(4, 5)), plain());
    add("three", "three rules of weight <= 2".into(), tuples(3, 2, shape(false, true)), inputs(&abc, t.pick(5, 6)), plain());
    add("non-greedy", format!("a rule of weight <= {} with non-greedy loops and options against another rule", w), lazy_grammars(w), inputs(&abc, t.pick(5, 6)), plain());
    add("eof", "rules that end in or consist of EOF".into(), eofs(), inputs(&abc[..2], t.pick(5, 7)), plain());
    let n = t.pick(8, 12);
    add("commands", format!("four rules in two modes, each with one of {} command lists", n), command_grammars(n), inputs(&abc, t.pick(5, 6)), plain());
    let scr = |a: Act| Script { acts: vec![a.clone(), Act::Log, a], ..Default::default() };
    add("actions", format!("a rule of weight <= {} with embedded actions against two others", w), action_grammars(w), inputs(&abc, t.pick(5, 6)), vec![scr(Act::Log), scr(Act::More), scr(Act::Skip)]);
    let pr = |a, b| Script { preds: vec![a, b], ..Default::default() };
    add(
        "predicates",
        format!("a rule of weight <= {} with predicates against another", w),
        pred_grammars(w),
        inputs(&abc, t.pick(5, 6)),
        vec![pr(LPred::Const(false), LPred::Const(true)), pr(LPred::Even, LPred::Const(false)), pr(LPred::Flag, LPred::Even), pr(LPred::At, LPred::Flag)],
    );
    for (g, al) in real_lexers() {
        add("texts", "comments, strings with escapes, nested comments, islands".into(), vec![g], inputs(&al, t.pick(7, 8)), plain());
    }
    v
}
