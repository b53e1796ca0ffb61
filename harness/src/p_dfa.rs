//! C30: the tables prediction learns. After a parse the tables alone give the decisions that
//! were taken; parsing again adds nothing; the order of the inputs does not matter; the dump
//! shows exactly the tables.
use crate::enumg::strings;
use crate::fam::*;
use crate::grammar::*;
use crate::interp::*;
use crate::lexi::*;
use crate::p_hist::cache_key;
use crate::p_lex::{inputs, lazy_grammars, plain, real_lexers, shape, tuples};
use crate::p_pred::{guarded, npreds};
use crate::run::*;
use antlr_rust::vocabulary::Vocabulary;
use std::sync::Arc;

/// exact content of the tables, numbering included
fn content(l: &Loaded) -> Vec<(Option<usize>, Vec<(usize, Vec<usize>, bool, isize, bool, usize)>)> {
    l.dfas
        .iter()
        .map(|d| {
            let d = d.read();
            (d.s0, d.states.iter().map(|s| (s.state_number, s.edges.clone(), s.is_accept_state, s.prediction, s.requires_full_context, s.configs.get_items().count())).collect())
        })
        .collect()
}
fn size(l: &Loaded) -> u64 {
    l.dfas.iter().map(|d| d.read().states.len() as u64).sum()
}

/// the tables are graphs: numbered states, edges to states, every state reached from the start
fn well_formed(l: &Loaded, lexer: bool) -> Result<(), String> {
    for (k, d) in l.dfas.iter().enumerate() {
        let d = d.read();
        let n = d.states.len();
        let mut seen = vec![false; n];
        let mut work: Vec<usize> = d.s0.into_iter().collect();
        while let Some(x) = work.pop() {
            if x == 0 || x >= n {
                return Err(format!("table {}: reference to state {} of {}", k, x, n));
            }
            if seen[x] {
                continue;
            }
            seen[x] = true;
            for e in &d.states[x].edges {
                if *e != 0 && *e != usize::MAX {
                    work.push(*e);
                }
            }
        }
        for i in 1..n {
            if (1..i).any(|j| d.states[i] == d.states[j]) {
                return Err(format!("table {}: state {} has been learned before", k, i));
            }
        }
        let alts = if lexer { isize::MAX } else { l.atn.states[d.atn_start_state].get_transitions().len() as isize };
        for i in 1..n {
            let s = &d.states[i];
            if s.state_number != i {
                return Err(format!("table {}: state {} is numbered {}", k, i, s.state_number));
            }
            if !seen[i] {
                return Err(format!("table {}: state {} cannot be reached", k, i));
            }
            if s.is_accept_state && !s.requires_full_context && s.predicates.is_empty() && (s.prediction < 1 || s.prediction > alts) {
                return Err(format!("table {}: state {} predicts {}", k, i, s.prediction));
            }
            if s.requires_full_context && !s.is_accept_state {
                return Err(format!("table {}: state {} asks for the full context but is not final", k, i));
            }
            if !lexer && s.is_accept_state && s.edges.iter().any(|e| *e != 0) {
                return Err(format!("table {}: state {} decides and still looks further", k, i));
            }
        }
    }
    Ok(())
}

/// the dump has a line for every edge
fn dump(l: &Loaded, lexer: bool) -> Result<u64, String> {
    let mut lines = 0;
    for (k, d) in l.dfas.iter().enumerate() {
        let d = d.read();
        let base = 1 + d.is_precedence_dfa() as usize;
        let name = |i: usize| {
            let s = &d.states[i];
            let mut r = format!("{}s{}{}", if s.is_accept_state { ":" } else { "" }, i - base, if s.requires_full_context { "^" } else { "" });
            if s.is_accept_state {
                r += "=>";
                if s.predicates.is_empty() {
                    r += &s.prediction.to_string();
                } else {
                    r += &format!("[{}]", s.predicates.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(", "));
                }
            }
            r
        };
        let mut want = String::new();
        for i in base..d.states.len() {
            for (x, e) in d.states[i].edges.iter().enumerate() {
                if *e != 0 && *e != usize::MAX {
                    let label = if lexer { format!("'{}'", char::from_u32(x as u32).unwrap()) } else { vocab().get_display_name(x as isize - 1).into_owned() };
                    want += &format!("{}-{}->{}\n", name(i), label, name(*e));
                    lines += 1;
                }
            }
        }
        let got = if lexer { d.to_lexer_string() } else { d.to_string(vocab()) };
        if got != want {
            return Err(format!("table {} is printed as\n{}instead of\n{}", k, got, want));
        }
    }
    Ok(lines)
}

enum Said {
    Alt(isize),
    Asks,
    Fails,
}
/// follows the table of a decision along the tokens
fn follow(l: &Loaded, d: usize, prec: isize, ahead: &[i32], sll: bool) -> Result<Said, String> {
    let t = l.dfas[d].read();
    let s0 = if t.is_precedence_dfa() { t.get_precedence_start_state(prec) } else { t.s0 };
    let mut s = s0.ok_or("the table has no start")?;
    for (i, x) in ahead.iter().chain(std::iter::repeat(&EOF)).enumerate() {
        if i > ahead.len() + 50 {
            return Err("the table does not decide at the end of the input".into());
        }
        let e = t.states[s].edges.get((*x + 1) as usize).copied().unwrap_or(0);
        if e == 0 {
            if *x as isize > l.atn.max_token_type {
                return Ok(Said::Asks);
            }
            return Err(format!("token {} of the lookahead is not in the table", i));
        }
        if e == usize::MAX {
            return Ok(Said::Fails);
        }
        s = e;
        let q = &t.states[s];
        if q.requires_full_context && !sll {
            return Ok(Said::Asks);
        }
        if q.is_accept_state {
            return Ok(if q.predicates.is_empty() { Said::Alt(q.prediction) } else { Said::Asks });
        }
    }
    unreachable!()
}

fn parser_tables(g: &Grammar, base: &Loaded, ins: &[Vec<i32>], cfgs: &[Cfg], st: &mut Stats) {
    let bad = |st: &mut Stats, cfg: &Cfg, what: String, input: &dyn std::fmt::Debug| {
        st.fail(format!("{}| {:?} {:?}", g.show(), cfg.mode, input), format!("{}\n{:?} {:?} input {:?}: {}", g.show(), cfg.mode, cfg.preds, input, what));
    };
    for (ci, cfg) in cfgs.iter().enumerate() {
        let l = base.fresh();
        let back = base.fresh();
        for input in ins {
            let toks = stoks(input);
            let o = match guard(|| parse(&l, &toks, cfg)) {
                Ok(o) => o,
                Err(_) => continue, // other properties
            };
            st.traces += 1;
            for (k, (d, at, alt)) in o.decs.iter().enumerate() {
                st.transitions += 1;
                let ahead = &input[(*at as usize).min(input.len())..];
                match guard(|| follow(&l, *d, o.precs[k], ahead, cfg.mode == Mode::Sll)) {
                    Ok(Ok(Said::Alt(a))) if a != *alt => bad(st, cfg, format!("decision {} at {} chose {}, the table says {}", d, at, alt, a), input),
                    Ok(Ok(_)) => {}
                    Ok(Err(e)) | Err(e) => bad(st, cfg, format!("decision {} at {} chose {}, but {}", d, at, alt, e), input),
                }
                if st.failed() {
                    return;
                }
            }
            let before = content(&l);
            let _ = guard(|| parse(&l, &toks, cfg));
            if content(&l) != before {
                bad(st, cfg, "the tables change when the input is parsed again".into(), input);
            }
            st.traces += 1;
        }
        for input in ins.iter().rev() {
            let _ = guard(|| parse(&back, &stoks(input), cfg));
            st.traces += 1;
        }
        st.states += size(&l);
        st.outcome(&cache_key(&l));
        if cache_key(&l) != cache_key(&back) {
            bad(st, cfg, format!("the tables depend on the order of the inputs: {} and {} states\n{:?}\n{:?}", size(&l), size(&back), content(&l), content(&back)), &"all");
        }
        for (what, x) in [("", &l), ("reverse order: ", &back)] {
            match guard(|| well_formed(x, false).and_then(|_| dump(x, false))) {
                Ok(Ok(n)) => st.count("lines of dumps", n),
                Ok(Err(e)) | Err(e) => bad(st, cfg, format!("{}{}", what, e), &"all"),
            }
        }
        // both modes and everything else share tables
        if ci == 0 {
            for c in cfgs {
                for input in ins {
                    let _ = guard(|| parse(&l, &stoks(input), c));
                }
            }
            match guard(|| well_formed(&l, false).and_then(|_| dump(&l, false))) {
                Ok(Ok(n)) => st.count("lines of dumps", n),
                Ok(Err(e)) | Err(e) => bad(st, cfg, format!("after all modes: {}", e), &"all"),
            }
        }
        if st.failed() {
            return;
        }
    }
    st.count("grammars", 1);
    st.sample(|| g.show());
}

/// the tokens the tables alone give: type, start, stop; None where they do not reach
fn decode(l: &Loaded, input: &[i32]) -> Result<Option<Vec<(isize, isize, isize)>>, String> {
    let t = l.dfas[0].read();
    let s0 = t.s0.ok_or("the table has no start")?;
    let mut out = vec![];
    let mut p = 0;
    while p < input.len() {
        let mut s = s0;
        let mut best = None;
        let mut i = p;
        while i < input.len() {
            let c = input[i];
            if c > 127 {
                return Ok(None);
            }
            let e = t.states[s].edges.get(c as usize).copied().unwrap_or(0);
            if e == 0 {
                return Err(format!("character {} is not in the table", i));
            }
            if e == usize::MAX {
                break;
            }
            s = e;
            i += 1;
            if t.states[s].is_accept_state {
                best = Some((t.states[s].prediction, i));
            }
        }
        match best {
            Some((ty, e)) => {
                out.push((ty, p as isize, e as isize - 1));
                p = e;
            }
            // an error: the characters looked at are dropped up to the one that cannot follow
            None => return Ok(None),
        }
    }
    Ok(Some(out))
}
fn lexer_tables(g: &Grammar, ins: &[(Vec<i32>, String)], sc: &Script, st: &mut Stats) {
    let base = Loaded::new(compile(g));
    let l = base.fresh();
    let back = base.fresh();
    let plain = base.prog.atn.actions.is_empty() && l.dfas.len() == 1;
    let bad = |st: &mut Stats, what: String, input: &dyn std::fmt::Debug| {
        st.fail(format!("{}| {:?}", g.show(), input), format!("{}\ninput {:?}: {}", g.show(), input, what));
    };
    for (chars, text) in ins {
        let o = match guard(|| lex(&l, text, sc)) {
            Ok(o) => o,
            Err(_) => continue,
        };
        st.traces += 2;
        st.transitions += o.toks.len() as u64;
        if plain {
            match guard(|| decode(&l, chars)) {
                Ok(Ok(Some(w))) => {
                    let got: Vec<_> = o.toks.iter().filter(|t| t.ty != -1).map(|t| (t.ty as isize, t.start, t.stop)).collect();
                    st.count("inputs decoded with the tables", 1);
                    if got != w {
                        bad(st, format!("the tokens are {:?}, the tables say {:?}", got, w), text);
                    }
                }
                Ok(Ok(None)) => {}
                Ok(Err(e)) | Err(e) => bad(st, e, text),
            }
        }
        let before = content(&l);
        let _ = guard(|| lex(&l, text, sc));
        if content(&l) != before {
            bad(st, "the tables change when the input is read again".into(), text);
        }
        if st.failed() {
            return;
        }
    }
    for (_, text) in ins.iter().rev() {
        let _ = guard(|| lex(&back, text, sc));
        st.traces += 1;
    }
    st.states += size(&l);
    st.outcome(&cache_key(&l));
    if cache_key(&l) != cache_key(&back) {
        bad(st, format!("the tables depend on the order of the inputs: {} and {} states", size(&l), size(&back)), &"all");
    }
    match guard(|| well_formed(&l, true).and_then(|_| dump(&l, true))) {
        Ok(Ok(n)) => st.count("lines of dumps", n),
        Ok(Err(e)) | Err(e) => bad(st, e, &"all"),
    }
    st.count("grammars", 1);
    st.sample(|| g.show());
}

pub fn c30(t: Tier) -> Vec<Plan> {
    let mut v = vec![];
    for f in families(t.pick(1, 2)) {
        let n = match (f.alpha, t) {
            (2, Tier::Quick) => 4,
            (2, _) => 6,
            (3, Tier::Quick) => 3,
            (3, _) => 4,
            (_, Tier::Quick) => 2,
            _ => 3,
        };
        let ins = Arc::new(strings(f.alpha, n));
        let gs = f.gs;
        let b = format!("{} ({} grammars); LL, SLL and exact, from every rule; all strings over {} tokens up to length {} in both orders, each parsed twice", f.desc, gs.len(), f.alpha, n);
        v.push(plan(f.name, b, gs.len(), move |i, st| {
            let g = &gs[i];
            let l = Loaded::new(compile(g));
            let mut cfgs = vec![Cfg::new(Mode::LL), Cfg::new(Mode::Sll), Cfg::new(Mode::Exact)];
            for r in 1..g.rules.len() {
                cfgs.push(Cfg::new(Mode::LL).start(r));
            }
            parser_tables(g, &l, &ins, &cfgs, st);
        }));
    }
    for f in families(0) {
        if !matches!(f.name, "one" | "two" | "lr" | "leftrec" | "expr") && f.alpha != 2 {
            continue;
        }
        let n = t.pick(3, 4);
        let ins = Arc::new(strings(f.alpha, n));
        let gs = f.gs;
        let b = format!("{} ({} grammars) with one predicate, true or false; all strings over {} tokens up to length {}", f.desc, gs.len(), f.alpha, n);
        v.push(plan(format!("{} with predicates", f.name), b, gs.len(), move |i, st| {
            for g in guarded(&gs[i], 1) {
                let l = Loaded::new(compile(&g));
                let k = npreds(&g);
                let cfgs: Vec<Cfg> = (0..1u64 << k).flat_map(|m| [Mode::LL, Mode::Sll].map(|x| Cfg::new(x).preds(Preds::Mask(m)))).collect();
                parser_tables(&g, &l, &ins, &cfgs, st);
                if st.failed() {
                    return;
                }
            }
        }));
    }
    let abc = ['a' as i32, 'b' as i32, 'c' as i32];
    let mut lp = |name: &str, desc: String, gs: Vec<Grammar>, ins: Arc<Vec<(Vec<i32>, String)>>| {
        let b = format!("{} ({} grammars); {} inputs in both orders, each read twice", desc, gs.len(), ins.len());
        v.push(plan(format!("lexer: {}", name), b, gs.len(), move |i, st| lexer_tables(&gs[i], &ins, &plain()[0], st)));
    };
    lp("plain", format!("two rules of weight <= {}", t.pick(2, 3)), tuples(2, t.pick(2, 3), shape(false, true)), inputs(&abc, t.pick(4, 5)));
    lp("nongreedy", format!("non-greedy rules of weight <= {}", t.pick(3, 4)), lazy_grammars(t.pick(3, 4)), inputs(&abc[..2], t.pick(4, 5)));
    for (k, (g, al)) in real_lexers().into_iter().enumerate() {
        lp(&format!("real{}", k), g.show(), vec![g.clone()], inputs(&al, t.pick(3, 4)));
    }
    v
}
