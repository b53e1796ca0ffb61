//! C21: a serialized grammar loads into exactly the graph it describes.
use crate::enumg::*;
use crate::fam;
use crate::grammar::*;
use crate::lexi::*;
use crate::p_lex;
use crate::run::*;
use antlr_rust::atn::ATN;
use antlr_rust::atn_deserializer::ATNDeserializer;
use antlr_rust::atn_state::*;
use antlr_rust::interval_set::IntervalSet;
use antlr_rust::transition::*;
use std::sync::Arc;

/// one outgoing edge as plain text
fn edge(t: &dyn Transition, from_stop: bool) -> String {
    use TransitionType::*;
    match t.get_serialization_type() {
        TRANSITION_EPSILON => {
            let e = t.cast::<EpsilonTransition>();
            if from_stop {
                format!("return to {} (outermost precedence return {})", e.target, e.outermost_precedence_return)
            } else {
                format!("eps to {}", e.target)
            }
        }
        TRANSITION_RANGE => {
            let e = t.cast::<RangeTransition>();
            format!("{}..{} to {}", e.start, e.stop, e.target)
        }
        TRANSITION_RULE => {
            let e = t.cast::<RuleTransition>();
            format!("call {} at {} prec {} then {}", e.rule_index, e.target, e.precedence, e.follow_state)
        }
        TRANSITION_PREDICATE => {
            let e = t.cast::<PredicateTransition>();
            format!("pred {}:{} ctx {} to {}", e.rule_index, e.pred_index, e.is_ctx_dependent, e.target)
        }
        TRANSITION_ATOM => {
            let e = t.cast::<AtomTransition>();
            format!("{} to {}", e.label, e.target)
        }
        TRANSITION_ACTION => {
            let e = t.cast::<ActionTransition>();
            format!("action {}:{} ctx {} to {}", e.rule_index, e.action_index, e.is_ctx_dependent, e.target)
        }
        TRANSITION_SET => {
            let e = t.cast::<SetTransition>();
            format!("{} to {}", probe(&e.set), e.target)
        }
        TRANSITION_NOTSET => {
            let e = t.cast::<NotSetTransition>();
            format!("not {} to {}", probe(&e.set), e.target)
        }
        TRANSITION_WILDCARD => format!("any to {}", t.cast::<WildcardTransition>().target),
        TRANSITION_PRECEDENCE => {
            let e = t.cast::<PrecedencePredicateTransition>();
            format!("prec {} to {}", e.precedence, e.target)
        }
    }
}
/// points at which sets are compared: every symbol in use and all borders
fn points() -> &'static Vec<i32> {
    static P: std::sync::OnceLock<Vec<i32>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut v: Vec<i32> = (-2..300).collect();
        for x in EDGE16.iter().chain(EDGE32.iter()) {
            v.extend([x - 1, *x, x + 1]);
        }
        v.extend((0..0x110).map(|x| x * 0x1000 + 0x777));
        v.sort();
        v.dedup();
        v
    })
}
/// runs of consecutive points for which `f` holds
fn runs(f: impl Fn(i32) -> bool) -> String {
    let mut o: Vec<(i32, i32)> = vec![];
    let mut on = false;
    for p in points() {
        if f(*p) {
            if on {
                o.last_mut().unwrap().1 = *p;
            } else {
                o.push((*p, *p));
            }
            on = true;
        } else {
            on = false;
        }
    }
    format!("{:?}", o)
}
fn probe(s: &IntervalSet) -> String {
    runs(|p| s.contains(p as isize))
}
fn ivs(it: impl Iterator<Item = (i32, i32)>) -> String {
    let v: Vec<(i32, i32)> = it.collect();
    runs(|p| v.iter().any(|x| x.0 <= p && p <= x.1))
}
#[derive(Clone, Debug, PartialEq)]
struct Flat {
    head: String,
    states: Vec<(String, Vec<String>, bool)>,
}
fn loaded(a: &ATN, legacy: bool) -> Flat {
    let mut states = vec![];
    for (i, s) in a.states.iter().enumerate() {
        let mut d = format!("{} type {} rule {}", s.get_state_number(), s.get_state_type_id(), s.get_rule_index() as isize);
        if s.get_state_number() != i {
            d.push_str(&format!(" stored at {}", i));
        }
        match s.get_state_type() {
            ATNStateType::RuleStartState { stop_state, is_left_recursive } => d.push_str(&format!(" rule start, stop {} lr {}", stop_state, is_left_recursive)),
            ATNStateType::RuleStopState => d.push_str(" rule stop"),
            ATNStateType::BlockEndState(_) => d.push_str(" block end"),
            ATNStateType::LoopEndState(l) => d.push_str(&format!(" loop end of {}", l)),
            ATNStateType::StarLoopbackState => d.push_str(" loop back"),
            ATNStateType::BasicState => d.push_str(" basic"),
            ATNStateType::InvalidState => d.push_str(" invalid"),
            ATNStateType::DecisionState { decision, nongreedy, state } => {
                d.push_str(&format!(" decision {} nongreedy {}", decision, nongreedy));
                match state {
                    ATNDecisionState::StarLoopEntry { is_precedence, .. } => d.push_str(&format!(" loop entry prec {}", is_precedence)),
                    ATNDecisionState::TokenStartState => d.push_str(" token start"),
                    ATNDecisionState::PlusLoopBack => d.push_str(" plus loop back"),
                    ATNDecisionState::BlockStartState { end_state, en } => d.push_str(&format!(
                        " {} end {}",
                        match en {
                            ATNBlockStart::BasicBlockStart => "block",
                            ATNBlockStart::StarBlockStart => "star block",
                            ATNBlockStart::PlusBlockStart(_) => "plus block",
                        },
                        end_state
                    )),
                }
            }
        }
        let stop = matches!(s.get_state_type(), ATNStateType::RuleStopState);
        let mut e: Vec<String> = s
            .get_transitions()
            .iter()
            .map(|t| {
                if legacy && t.get_serialization_type() == TransitionType::TRANSITION_ACTION {
                    format!("action to {}", t.get_target())
                } else {
                    edge(t.as_ref(), stop)
                }
            })
            .collect();
        if stop {
            e.sort();
        }
        states.push((d, e, s.has_epsilon_only_transitions()));
    }
    Flat {
        head: format!(
            "lexer {} max token {} decisions {:?} starts {:?} stops {:?} types {:?} modes {:?}",
            format!("{:?}", a.grammar_type) == "LEXER",
            a.max_token_type,
            a.decision_to_state,
            a.rule_to_start_state,
            a.rule_to_stop_state,
            a.rule_to_token_type,
            a.mode_to_start_state
        ),
        states,
    }
}
fn model(m: &Atn, level: usize) -> Flat {
    let legacy = m.lexer && level < 2;
    let lr = |r: i32| r >= 0 && level >= 1 && m.lr_rules[r as usize];
    let mut out: Vec<Vec<String>> = vec![vec![]; m.states.len()];
    let mut eps: Vec<Vec<bool>> = vec![vec![]; m.states.len()];
    let mut raw: Vec<Vec<usize>> = vec![vec![]; m.states.len()];
    for (s, t, tr) in &m.edges {
        raw[*s].push(*t);
        eps[*s].push(matches!(tr, Tr::Eps | Tr::Rule(..) | Tr::Pred(..) | Tr::Prec(_) | Tr::Action(..)));
        out[*s].push(match tr {
            Tr::Eps => format!("eps to {}", t),
            // symbols beyond 16 bits, and all of them if asked for, are written as sets
            Tr::Atom(x) if *x > 0xFFFF || (m.force_sets && *x >= 0) => format!("{} to {}", ivs([(*x, *x)].into_iter()), t),
            Tr::Range(a, b) if *b > 0xFFFF => format!("{} to {}", ivs([(*a, *b)].into_iter()), t),
            Tr::Atom(x) => format!("{} to {}", x, t),
            Tr::Range(a, b) => format!("{}..{} to {}", a, b, t),
            Tr::Set(v) => format!("{} to {}", ivs(v.iter().cloned()), t),
            Tr::NotSet(v) => format!("not {} to {}", ivs(v.iter().cloned()), t),
            Tr::Wild => format!("any to {}", t),
            Tr::Rule(st, r, p) => format!("call {} at {} prec {} then {}", r, st, p, t),
            Tr::Pred(r, i, c) => format!("pred {}:{} ctx {} to {}", r, i, c, t),
            Tr::Prec(p) => format!("prec {} to {}", p, t),
            Tr::Action(..) if legacy => format!("action to {}", t),
            Tr::Action(r, i, c) => format!("action {}:{} ctx {} to {}", r, i, c, t),
        });
    }
    for (_, t, tr) in &m.edges {
        if let Tr::Rule(_, r, p) = tr {
            let stop = m.rule_stop[*r];
            out[stop].push(format!("return to {} (outermost precedence return {})", t, if lr(*r as i32) && *p == 0 { *r as i32 } else { -1 }));
            eps[stop].push(true);
        }
    }
    let mut states = vec![];
    for (i, s) in m.states.iter().enumerate() {
        let mut d = format!("{} type {} rule {}", i, s.ty as u8, s.rule);
        let dec = || format!(" decision {} nongreedy {}", m.decisions.iter().position(|x| *x == i).map(|x| x as isize).unwrap_or(-1), s.nongreedy);
        match s.ty {
            St::Basic => d.push_str(" basic"),
            St::RuleStart => d.push_str(&format!(" rule start, stop {} lr {}", m.rule_stop[s.rule as usize], lr(s.rule))),
            St::RuleStop => d.push_str(" rule stop"),
            St::BlockEnd => d.push_str(" block end"),
            St::LoopEnd => d.push_str(&format!(" loop end of {}", s.link)),
            St::StarLoopBack => d.push_str(" loop back"),
            St::TokenStart => d.push_str(&format!("{} token start", dec())),
            St::PlusLoopBack => d.push_str(&format!("{} plus loop back", dec())),
            St::BlockStart => d.push_str(&format!("{} block end {}", dec(), s.link)),
            St::StarBlockStart => d.push_str(&format!("{} star block end {}", dec(), s.link)),
            St::PlusBlockStart => d.push_str(&format!("{} plus block end {}", dec(), s.link)),
            St::StarLoopEntry => {
                let prec = lr(s.rule) && {
                    let x = *raw[i].last().unwrap();
                    m.states[x].ty == St::LoopEnd && eps[x].iter().all(|b| *b) && m.states[raw[x][0]].ty == St::RuleStop
                };
                d.push_str(&format!("{} loop entry prec {}", dec(), prec))
            }
        }
        if s.ty == St::RuleStop {
            out[i].sort();
        }
        let e = !eps[i].is_empty() && eps[i].iter().all(|b| *b);
        states.push((d, out[i].clone(), e));
    }
    Flat {
        head: format!(
            "lexer {} max token {} decisions {:?} starts {:?} stops {:?} types {:?} modes {:?}",
            m.lexer,
            m.max_token,
            m.decisions,
            m.rule_start,
            m.rule_stop,
            if m.lexer { m.rule_tt.clone() } else { vec![] },
            m.modes
        ),
        states,
    }
}
fn check(name: &str, m: &Atn, level: usize, st: &mut Stats) {
    let data = m.serialize_as(level);
    let want = model(m, level);
    st.traces += 1;
    st.states += m.states.len() as u64;
    st.transitions += m.edges.len() as u64;
    st.outcome(&(&want.head, want.states.len(), hash(&want.states)));
    match guard(|| loaded(&ATNDeserializer::new(None).deserialize(data.chars()), m.lexer && level < 2)) {
        Err(e) => st.fail(format!("{} format {}", name, level), format!("{}\nformat {}: not loaded: {}", name, level, e)),
        Ok(got) => {
            if got != want {
                let d = if got.head != want.head {
                    format!("{}\ninstead of {}", got.head, want.head)
                } else {
                    match got.states.iter().zip(&want.states).find(|(a, b)| a != b) {
                        Some((a, b)) => format!("state {:?}\ninstead of {:?}", a, b),
                        None => format!("{} states instead of {}", got.states.len(), want.states.len()),
                    }
                };
                st.fail(format!("{} format {}", name, level), format!("{}\nformat {}: loads as {}", name, level, d));
            } else {
                st.sample(|| format!("{}: {} states, {} edges", name, m.states.len(), m.edges.len()));
            }
        }
    }
}
/// every format the grammar can be written in
fn levels(m: &Atn) -> Vec<usize> {
    let large = m.edges.iter().any(|e| match &e.2 {
        Tr::Atom(x) => *x > 0xFFFF,
        Tr::Range(_, x) => *x > 0xFFFF,
        Tr::Set(v) | Tr::NotSet(v) => v.iter().any(|x| x.1 > 0xFFFF),
        _ => false,
    });
    let lr = m.lr_rules.iter().any(|x| *x) || m.edges.iter().any(|e| matches!(e.2, Tr::Prec(_)));
    let acts = m.lexer && m.actions.iter().any(|a| a.0 != 1);
    (0..4).filter(|l| !(large && *l < 3 || lr && *l < 1 || acts && *l < 2)).collect()
}
/// format 0 and 1 lexers name custom actions directly
fn legacy(m: &Atn) -> Atn {
    let mut m = m.clone();
    for e in &mut m.edges {
        if let Tr::Action(r, i, _) = &mut e.2 {
            let (_, a, b) = m.actions[*i as usize];
            *r = a;
            *i = b;
        }
    }
    m
}
fn check_all(name: &str, m: &Atn, st: &mut Stats) {
    for l in levels(m) {
        if m.lexer && l < 2 {
            check(name, &legacy(m), l, st);
        } else {
            check(name, m, l, st);
        }
    }
}
fn grammars(name: String, gs: Vec<Grammar>) -> Plan {
    let per = 64;
    let n = (gs.len() + per - 1) / per;
    plan(name, format!("{} grammars, each in every format of the serialized data that can express it", gs.len()), n, move |i, st| {
        for g in &gs[i * per..((i + 1) * per).min(gs.len())] {
            for force in [false, true] {
                let mut c = compile(g);
                c.atn.force_sets = force;
                if force && !g.lexer {
                    continue;
                }
                check_all(&g.show(), &c.atn, st);
            }
        }
    })
}

const EDGE16: [i32; 14] = [0, 1, 2, 0x7F, 0xFFFC - 0x2800, 0xD7FD, 0xD7FE, 0xD7FF, 0xD800, 0xDFFD, 0xDFFE, 0xFFFD, 0xFFFE, 0xFFFF];
const EDGE32: [i32; 10] = [0, 0x41, 0xD7FE, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFE, 0x1D7FF, 0x10FFFE, 0x10FFFF];

/// a two-rule graph with one edge of interest between two basic states
fn with_edge(lexer: bool, tr: Tr) -> Atn {
    let mut g = if lexer {
        Grammar { lexer: true, rules: vec![lrule("A", 1, vec![vec![El::Tok(97), El::Tok(98)]]), lrule("B", 2, vec![vec![El::Tok(99)]])], max_token: 2, modes: 1, actions: vec![(1, 0, 0)] }
    } else {
        parser_grammar(vec![prule("a", vec![vec![El::Tok(1), El::Rule(1, 0), El::Tok(2)]]), prule("b", vec![vec![El::Tok(2)]])], 3)
    };
    g.max_token = 3;
    let mut c = compile(&g).atn;
    let k = c.edges.iter().position(|e| matches!(e.2, Tr::Atom(97 | 1))).unwrap();
    c.edges[k].2 = tr;
    c
}
fn edges_plan() -> Plan {
    let mut v: Vec<(bool, Tr)> = vec![];
    for lexer in [false, true] {
        v.push((lexer, Tr::Eps));
        v.push((lexer, Tr::Wild));
        v.push((lexer, Tr::Atom(EOF)));
        for x in EDGE16 {
            v.push((lexer, Tr::Atom(x)));
            if !lexer && x < 0xFFFE {
                v.push((lexer, Tr::Prec(x)));
                for i in EDGE16 {
                    if i < 0xFFFE {
                        for c in [false, true] {
                            v.push((lexer, Tr::Pred(x, i, c)));
                            v.push((lexer, Tr::Action(x, i, c)));
                        }
                    }
                }
                v.push((lexer, Tr::Action(x, -1, false)));
            }
        }
        for (i, x) in EDGE16.iter().enumerate() {
            for y in &EDGE16[i..] {
                v.push((lexer, Tr::Range(*x, *y)));
            }
            v.push((lexer, Tr::Range(EOF, *x)));
        }
        // sets: every pair of intervals with ends from the list, with and without EOF
        for list in [&EDGE16[..], &EDGE32[..]] {
            let mut iv = vec![];
            for (i, x) in list.iter().enumerate() {
                for y in &list[i..] {
                    iv.push((*x, *y));
                }
            }
            let mut ss: Vec<Vec<(i32, i32)>> = vec![vec![]];
            for a in &iv {
                ss.push(vec![*a]);
                for b in &iv {
                    if a.1 + 1 < b.0 {
                        ss.push(vec![*a, *b]);
                    }
                }
            }
            for s in ss {
                for eof in [false, true] {
                    if s.is_empty() && !eof {
                        continue;
                    }
                    let mut s = s.clone();
                    if eof {
                        s.insert(0, (EOF, EOF));
                    }
                    v.push((lexer, Tr::Set(s.clone())));
                    v.push((lexer, Tr::NotSet(s)));
                }
            }
        }
    }
    let per = 200;
    let n = (v.len() + per - 1) / per;
    plan("edge values", format!("{} edges: every kind with every combination of arguments at the borders of 7, 16 and 32 bit values and of the surrogate range", v.len()), n, move |i, st| {
        for (lexer, tr) in &v[i * per..((i + 1) * per).min(v.len())] {
            check_all(&format!("{} edge {:?}", if *lexer { "lexer" } else { "parser" }, tr), &with_edge(*lexer, tr.clone()), st);
        }
    })
}
/// calls of a left-recursive and of another rule, with every precedence at the borders
fn calls_plan() -> Plan {
    let gs: Vec<Grammar> = fam::exprs(3).into_iter().take(12).chain([with_two_calls()]).collect();
    plan("rule calls", format!("{} grammars, every rule call in them with every precedence of 0..=12 and at the borders of 7 and 16 bit values", gs.len()), gs.len(), move |i, st| {
        let a = compile(&gs[i]).atn;
        for k in 0..a.edges.len() {
            if let Tr::Rule(s, r, _) = a.edges[k].2 {
                for p in (0..=12).chain(EDGE16.into_iter().filter(|x| *x < 0xFFFE)) {
                    let mut a = a.clone();
                    a.edges[k].2 = Tr::Rule(s, r, p);
                    check_all(&format!("{} with edge {} of precedence {}", gs[i].show(), k, p), &a, st);
                }
            }
        }
    })
}
fn with_two_calls() -> Grammar {
    parser_grammar(vec![prule("a", vec![vec![El::Rule(1, 0), El::Rule(1, 0), El::Tok(EOF)]]), prule("b", vec![vec![El::Tok(2)], vec![El::Rule(0, 0)]])], 3)
}
/// several sets in both tables: the numbering runs through the first into the second
fn tables_plan() -> Plan {
    let pool: Vec<Vec<(i32, i32)>> = vec![vec![(1, 1)], vec![(1, 2), (5, 9)], vec![(EOF, EOF), (3, 3)], vec![(0x10000, 0x10001)], vec![(EOF, EOF), (4, 0x10FFFF)], vec![(7, 7), (0xFFFF, 0x1FFFF)]];
    let n = pool.len();
    plan("set tables", "all ordered choices of 1 to 4 sets out of 6 (three of them beyond 16 bits), each as a positive or a negated edge", n * n * n * n, move |i, st| {
        let pick = [i % n, i / n % n, i / n / n % n, i / n / n / n];
        for len in 1..=4 {
            if len < 4 && pick[len..].iter().any(|x| *x != 0) {
                continue;
            }
            for neg in 0..1 << len {
                let els: Vec<El> = (0..len)
                    .map(|k| {
                        let s = pool[pick[k]].clone();
                        if neg >> k & 1 == 1 {
                            El::NotSet(s)
                        } else {
                            El::Set(s)
                        }
                    })
                    .collect();
                let g = Grammar { lexer: true, rules: vec![lrule("A", 1, vec![els])], max_token: 1, modes: 1, actions: vec![] };
                check_all(&g.show(), &compile(&g).atn, st);
            }
        }
    })
}
/// header values: token types, modes, rule types, and large state and edge counts
fn sizes_plan(tier: Tier) -> Plan {
    let sizes: Vec<usize> = tier.pick(vec![0, 100, 0xD7F0, 0xE010, 0xFFF1, 0xFFF2], vec![0, 100, 0x7FFF, 0xD7F0, 0xD7FA, 0xD800, 0xDFFF, 0xE010, 0xFFF0, 0xFFF1, 0xFFF2]);
    plan("sizes", "maximal token types, rule token types, mode counts and state and edge counts at the borders of the encoding", 3 + sizes.len(), move |i, st| match i {
        0 => {
            for lexer in [false, true] {
                for m in EDGE16 {
                    let mut a = with_edge(lexer, Tr::Atom(1));
                    a.max_token = m;
                    if m != 0xFFFF {
                        check_all(&format!("max token {:#x}", m), &a, st);
                    }
                }
            }
        }
        1 => {
            for x in EDGE16.iter().chain([-1].iter()) {
                for y in EDGE16 {
                    if *x == 0xFFFF || y == 0xFFFF {
                        continue;
                    }
                    let mut a = with_edge(true, Tr::Atom(97));
                    a.rule_tt = vec![*x, y];
                    check_all(&format!("token types {} {}", x, y), &a, st);
                }
            }
        }
        2 => {
            for modes in 1..=6 {
                for used in 0..modes {
                    let mut r = lrule("B", 2, vec![vec![El::Tok(99)]]);
                    r.mode = used;
                    let g = Grammar { lexer: true, rules: vec![lrule("A", 1, vec![vec![El::Tok(97)]]), r], max_token: 2, modes, actions: vec![] };
                    check_all(&g.show(), &compile(&g).atn, st);
                }
            }
        }
        _ => {
            // a chain of n more states in front of the second rule's end
            let n = sizes[i - 3];
            let mut a = with_edge(false, Tr::Atom(1));
            let k = a.edges.iter().position(|e| matches!(e.2, Tr::Atom(2))).unwrap();
            let (s, t, tr) = a.edges.remove(k);
            let mut from = s;
            for _ in 0..n {
                a.states.push(State { ty: St::Basic, rule: a.states[s].rule, link: 0, nongreedy: false });
                let to = a.states.len() - 1;
                a.edges.push((from, to, Tr::Wild));
                from = to;
            }
            a.edges.push((from, t, tr));
            // a block far behind: its end state number is large too
            if n > 0 {
                let r = a.states[s].rule;
                a.states.push(State { ty: St::BlockEnd, rule: r, link: 0, nongreedy: false });
                let e = a.states.len() - 1;
                a.states.push(State { ty: St::BlockStart, rule: r, link: e, nongreedy: true });
                let b = a.states.len() - 1;
                a.decisions.push(b);
                a.edges.push((b, e, Tr::Eps));
            }
            check(&format!("{} states, {} edges", a.states.len(), a.edges.len()), &a, 3, st);
        }
    })
}
/// lexer actions are not visible in the graph: each is executed and its effect observed
fn actions_plan() -> Plan {
    let vals = [0i32, 1, 2, 0xFF, 0xD7FD, 0xD7FE, 0xDFFD, 0xDFFE, 0xFFFD, 0xFFFE];
    let mut kinds: Vec<(i32, i32, i32)> = vec![(3, 0, 0), (4, 0, 0), (6, 0, 0)];
    for v in vals {
        kinds.push((0, v, 0));
        kinds.push((7, v, 0));
        if v < 3 {
            kinds.push((2, v, 0));
            kinds.push((5, v, 0));
            kinds.push((1, v, v + 1));
            kinds.push((1, v, -1));
        }
    }
    let n = kinds.len();
    plan("lexer actions", format!("all ordered pairs of {} actions (every kind, data at the borders of the encoding), each executed and compared with the reference lexer", n), n * n, move |i, st| {
        let acts = vec![kinds[i % n], kinds[i / n]];
        let mut rules = vec![lrule("A", 1, vec![vec![El::Tok(97), El::Action(0)]]), lrule("B", 2, vec![vec![El::Tok(98), El::Action(1)]]), lrule("C", 3, vec![vec![El::Tok(99)]])];
        for m in 1..3 {
            let mut r = lrule(if m == 1 { "D" } else { "E" }, 3 + m as i32, vec![vec![El::Set(vec![(97, 99)])]]);
            r.mode = m;
            rules.push(r);
        }
        let g = Grammar { lexer: true, rules, max_token: 5, modes: 3, actions: acts };
        let ins = p_lex::inputs(&[97, 98, 99], 3);
        let sc = Script { acts: vec![Act::Log, Act::Type(9), Act::Channel(7), Act::Text("t".into())], ..Default::default() };
        p_lex::compare(&g, &ins, &sc, st);
    })
}
/// the custom actions of a lexer written in one of the old formats
fn legacy_actions_plan(w: usize) -> Plan {
    let gs = p_lex::action_grammars(w);
    plan("custom actions in the old formats", format!("{} lexer grammars with embedded actions loaded from both formats without an action table, run on all inputs and compared with the current format", gs.len()), gs.len(), move |i, st| {
        let g = &gs[i];
        let c = compile(g);
        let sc = Script { acts: vec![Act::Log, Act::Type(9), Act::Channel(7)], ..Default::default() };
        let ins = p_lex::inputs(&[97, 98], 4);
        let mut now = crate::interp::Loaded::new(c.clone());
        for level in 0..2 {
            let data = legacy(&c.atn).serialize_as(level);
            let atn = match guard(|| ATNDeserializer::new(None).deserialize(data.chars())) {
                Ok(a) => Arc::new(a),
                Err(e) => {
                    st.fail(format!("{} format {}", g.show(), level), format!("{} format {}: not loaded: {}", g.show(), level, e));
                    return;
                }
            };
            let mut old = crate::interp::Loaded { prog: c.clone(), dfas: crate::interp::fresh_dfas(&atn), atn, cache: Arc::new(antlr_rust::PredictionContextCache::new()), look: Default::default() };
            for (_, tx) in ins.iter() {
                now.reset();
                old.reset();
                let want = guard(|| lex(&now, tx, &sc));
                let got = guard(|| lex(&old, tx, &sc));
                st.traces += 1;
                st.transitions += tx.len() as u64;
                if want != got {
                    st.fail(format!("{} format {} {:?}", g.show(), level, tx), format!("{} format {} input {:?}: {:?}\ninstead of {:?}", g.show(), level, tx, got, want));
                    if st.failed() {
                        return;
                    }
                }
            }
        }
    })
}
fn rejected(data: &str) -> bool {
    guard(|| ATNDeserializer::new(None).deserialize(data.chars())).is_err()
}
fn reject_plan() -> Plan {
    plan("rejection", "every version up to U+10FFFF but the supported one, every one-bit change of every supported identifier, every unknown grammar, state, edge and action kind up to 300", 4 + 4 + 4, move |i, st| {
        let g = parser_grammar(vec![prule("a", vec![vec![El::Tok(1), El::Star(vec![vec![El::Tok(2)]], true), El::Tok(2)]])], 3);
        let lx = with_edge(true, Tr::Atom(97));
        let a = compile(&g).atn;
        let bad = |what: String, data: &str, st: &mut Stats| {
            st.traces += 1;
            st.states += 1;
            st.transitions += 1;
            if !rejected(data) {
                st.fail(what.clone(), format!("{}: loaded instead of rejected", what));
            }
        };
        match i {
            0..=3 => {
                let vals = a.values(UUIDS[3], 3);
                for v in (0..=0x10FFFFu32).filter(|v| *v % 4 == i as u32 && *v != 3 && char::from_u32(*v).is_some()) {
                    let d = Atn::encode(v, &vals);
                    bad(format!("version {}", v), &d, st);
                }
            }
            4..=7 => {
                let l = i - 4;
                for bit in 0..128 {
                    let mut u = UUIDS[l];
                    u[bit / 32] ^= 1 << (bit % 32);
                    bad(format!("identifier {:x?}", u), &Atn::encode(3, &a.values(u, l)), st);
                }
                for u in [[0; 4], [u32::MAX; 4]] {
                    bad(format!("identifier {:x?}", u), &Atn::encode(3, &a.values(u, l)), st);
                }
                // words of two identifiers mixed
                for k in 0..4 {
                    for m in 1..15 {
                        if k != l {
                            let u: Vec<u32> = (0..4).map(|w| if m >> w & 1 == 1 { UUIDS[l][w] } else { UUIDS[k][w] }).collect();
                            bad(format!("identifier {:x?}", u), &Atn::encode(3, &a.values([u[0], u[1], u[2], u[3]], l)), st);
                        }
                    }
                }
            }
            8 => {
                let vals = a.values(UUIDS[3], 3);
                for k in 2..300 {
                    let mut v = vals.clone();
                    v[8] = k;
                    bad(format!("grammar kind {}", k), &Atn::encode(3, &v), st);
                }
            }
            9 => {
                // states follow the header: 8 identifier words, kind, max token, count
                let vals = a.values(UUIDS[3], 3);
                for k in 13..300 {
                    let mut v = vals.clone();
                    v[11] = k;
                    bad(format!("state kind {}", k), &Atn::encode(3, &v), st);
                }
            }
            10 => {
                // the last edge's kind, from the end: decisions, their count, then six words an edge
                let vals = a.values(UUIDS[3], 3);
                let at = vals.len() - a.decisions.len() - 1 - 4;
                for k in 11..300 {
                    let mut v = vals.clone();
                    v[at] = k;
                    bad(format!("edge kind {}", k), &Atn::encode(3, &v), st);
                }
                let mut v = vals.clone();
                v[at] = 0;
                bad("edge kind 0".into(), &Atn::encode(3, &v), st);
            }
            _ => {
                let vals = lx.values(UUIDS[3], 3);
                let at = vals.len() - 3;
                for k in 8..300 {
                    let mut v = vals.clone();
                    v[at] = k;
                    bad(format!("action kind {}", k), &Atn::encode(3, &v), st);
                }
            }
        }
    })
}

pub fn c21(t: Tier) -> Vec<Plan> {
    let mut v = vec![];
    for f in fam::families(t.pick(1, 2)) {
        v.push(grammars(format!("parser grammars: {}", f.name), f.gs));
    }
    v.push(grammars("operator grammars".into(), fam::exprs(t.pick(3, 4))));
    v.push(grammars("lexer grammars: rules".into(), p_lex::tuples(2, t.pick(3, 4), p_lex::shape(true, true))));
    v.push(grammars("lexer grammars: commands".into(), p_lex::command_grammars(t.pick(6, 9))));
    v.push(grammars("lexer grammars: actions".into(), p_lex::action_grammars(t.pick(4, 5))));
    v.push(grammars("lexer grammars: predicates".into(), p_lex::pred_grammars(t.pick(4, 5))));
    v.push(grammars("lexer grammars: lazy loops".into(), p_lex::lazy_grammars(t.pick(3, 4))));
    v.push(grammars("lexer grammars: classic".into(), p_lex::real_lexers().into_iter().map(|x| x.0).collect()));
    v.push(edges_plan());
    v.push(calls_plan());
    v.push(tables_plan());
    v.push(sizes_plan(t));
    v.push(actions_plan());
    v.push(legacy_actions_plan(t.pick(3, 4)));
    v.push(reject_plan());
    v
}
