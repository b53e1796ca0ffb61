//! C24: ambiguity diagnostics against a plain full-context simulation with explicit stacks.
use crate::fam::*;
use crate::grammar::*;
use crate::interp::*;
use crate::enumg::strings;
use crate::p_core::{key, lens1, over_families};
use crate::p_dec::open_end;
use crate::p_exp::Firsts;
use crate::p_pred::{guarded, npreds, special};
use crate::refp::*;
use crate::run::*;
use std::collections::{BTreeMap, BTreeSet};

thread_local! {
    /// configurations of the first stage
    pub static CONFS: std::cell::Cell<u64> = std::cell::Cell::new(0);
}
type Cf = (usize, Vec<usize>, usize);

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    Unique { alt: usize, stop: usize },
    Ambiguous { alts: Vec<usize>, stop: usize },
    Dead { at: usize },
}

/// `edge`: at the left edge, where the decision sees predicates
fn closure(f: &Firsts, from: Vec<(Cf, i32)>, prec: Option<i32>, edge: bool, preds: u64) -> BTreeSet<Cf> {
    // depth: Some(0) while in the deciding rule itself (precedence predicates count)
    let mut seen: BTreeSet<(Cf, i32, bool)> = BTreeSet::new();
    let mut work: Vec<(Cf, i32, bool)> = from.into_iter().map(|(c, d)| (c, d, edge)).collect();
    while let Some((c, depth, edge)) = work.pop() {
        if c.1.len() > 64 || !seen.insert((c.clone(), depth, edge)) {
            continue;
        }
        let (s, st, alt) = c;
        if f.a.states[s].ty == St::RuleStop {
            let mut st = st;
            if let Some(x) = st.pop() {
                work.push(((x, st, alt), depth - 1, edge));
            }
            continue;
        }
        for (t, tr) in &f.out[s] {
            match tr {
                Tr::Rule(start, _, _) => {
                    let mut st = st.clone();
                    st.push(*t);
                    work.push(((*start, st, alt), if depth >= 0 { depth + 1 } else { depth }, edge));
                }
                Tr::Prec(p) => {
                    if let (Some(q), 0) = (prec, depth) {
                        if *p < q {
                            continue;
                        }
                    }
                    work.push(((*t, st.clone(), alt), depth, edge))
                }
                Tr::Pred(_, k, local) => {
                    if !edge || (*local && depth != 0) || (preds >> k) & 1 == 1 {
                        work.push(((*t, st.clone(), alt), depth, edge))
                    }
                }
                Tr::Eps => work.push(((*t, st.clone(), alt), depth, edge)),
                Tr::Action(..) => work.push(((*t, st.clone(), alt), depth, false)),
                _ => {}
            }
        }
    }
    // only places where a symbol is matched, or where the start rule has ended, are kept
    seen.into_iter().map(|(c, _, _)| c).filter(|c| ended(f, c) || f.out[c.0].iter().any(|(_, tr)| !matches!(tr, Tr::Rule(..) | Tr::Prec(_) | Tr::Eps | Tr::Pred(..) | Tr::Action(..)))).collect()
}
fn ended(f: &Firsts, c: &Cf) -> bool {
    f.a.states[c.0].ty == St::RuleStop && c.1.is_empty()
}

fn moves(f: &Firsts, tr: &Tr, t: i32) -> bool {
    match tr {
        Tr::Atom(x) => *x == t,
        Tr::Range(x, y) => *x <= t && t <= *y,
        Tr::Set(v) => v.iter().any(|(x, y)| *x <= t && t <= *y),
        Tr::NotSet(v) => t >= 1 && t <= f.a.max_token && !v.iter().any(|(x, y)| *x <= t && t <= *y),
        Tr::Wild => t >= 1 && t <= f.a.max_token,
        _ => false,
    }
}
/// what full-context lookahead from a decision says; `stack` innermost first
pub fn simulate(f: &Firsts, dec: usize, stack: &[isize], toks: &[i32], at: usize, preds: u64, exact: bool) -> (Verdict, usize) {
    let mut st = f.follow(stack);
    st.reverse();
    let d = f.a.decisions[dec];
    let start: Vec<(Cf, i32)> = f.out[d].iter().enumerate().map(|(i, (t, _))| ((*t, st.clone(), i + 1), 0)).collect();
    let mut cur = closure(f, start, Some(0), true, preds);
    let mut n = cur.len();
    let mut i = at;
    loop {
        let t = toks[i];
        let mut next = vec![];
        for (s, st, alt) in &cur {
            for (to, tr) in &f.out[*s] {
                if moves(f, tr, t) {
                    next.push(((*to, st.clone(), *alt), -1));
                }
            }
        }
        // alternatives that ended the start rule earlier stay while none ends it here
        let skipped: Vec<Cf> = cur.iter().filter(|c| ended(f, c)).cloned().collect();
        cur = closure(f, next, None, false, preds);
        if !cur.iter().any(|c| ended(f, c)) {
            cur.extend(skipped);
        }
        if cur.is_empty() {
            return (Verdict::Dead { at: i }, n);
        }
        n += cur.len();
        let alts: BTreeSet<usize> = cur.iter().map(|c| c.2).collect();
        if alts.len() == 1 {
            return (Verdict::Unique { alt: *alts.iter().next().unwrap(), stop: i }, n);
        }
        if t == EOF {
            // only configurations that ended the start rule count
            let e: BTreeSet<usize> = cur.iter().filter(|c| c.1.is_empty() && f.a.states[c.0].ty == St::RuleStop).map(|c| c.2).collect();
            return match e.len() {
                0 => (Verdict::Dead { at: i }, n),
                1 => (Verdict::Unique { alt: *e.iter().next().unwrap(), stop: i }, n),
                _ => (Verdict::Ambiguous { alts: e.into_iter().collect(), stop: i }, n),
            };
        }
        if !exact {
            // enough that the lowest alternative would win at every position, a position being a
            // state with everything that may follow
            let mut follow: BTreeMap<(usize, usize), BTreeSet<&Vec<usize>>> = BTreeMap::new();
            for c in &cur {
                follow.entry((c.0, c.2)).or_default().insert(&c.1);
            }
            let mut low: BTreeMap<(usize, &BTreeSet<&Vec<usize>>), usize> = BTreeMap::new();
            for ((s, alt), w) in &follow {
                low.entry((*s, w)).or_insert(*alt);
            }
            if low.values().collect::<BTreeSet<_>>().len() == 1 {
                return (Verdict::Ambiguous { alts: alts.into_iter().collect(), stop: i }, n);
            }
            i += 1;
            continue;
        }
        // configurations that can still move or have ended
        let mut groups: BTreeMap<(usize, &Vec<usize>), BTreeSet<usize>> = BTreeMap::new();
        for c in &cur {
            groups.entry((c.0, &c.1)).or_default().insert(c.2);
        }
        if groups.values().all(|g| g.len() > 1) && groups.values().all(|g| *g == alts) {
            return (Verdict::Ambiguous { alts: alts.into_iter().collect(), stop: i }, n);
        }
        i += 1;
    }
}

/// what lookahead says that knows nothing of the deciding rule's callers
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum First {
    /// one alternative, or none, is left after this token
    Done { stop: usize },
    /// alternatives that cannot be told apart, and those of them whose predicates hold
    Conflict { stop: usize, alts: Vec<usize>, viable: Vec<usize> },
}
/// predicates seen on the way: rule, index
type Sem = BTreeSet<(i32, i32)>;
/// state, what follows within known callers (innermost last; any caller below), alternative
type Wf = (usize, Vec<usize>, usize, Sem);

fn wide(f: &Firsts, sites: &[Vec<usize>], from: Vec<(Wf, i32)>, edge: bool) -> BTreeSet<Wf> {
    let mut seen: BTreeSet<(Wf, i32, bool)> = BTreeSet::new();
    let mut work: Vec<(Wf, i32, bool)> = from.into_iter().map(|(c, d)| (c, d, edge)).collect();
    let mut out = BTreeSet::new();
    while let Some((c, depth, edge)) = work.pop() {
        if c.1.len() > 64 || !seen.insert((c.clone(), depth, edge)) {
            continue;
        }
        let (s, st, alt, sem) = &c;
        if f.a.states[*s].ty == St::RuleStop {
            let mut st = st.clone();
            if let Some(x) = st.pop() {
                work.push(((x, st, *alt, sem.clone()), (depth - 1).max(-1), edge));
                continue;
            }
            let to = &sites[f.a.states[*s].rule as usize];
            for x in to {
                work.push(((*x, vec![], *alt, sem.clone()), -1, edge));
            }
            if to.is_empty() {
                out.insert(c);
            }
            continue;
        }
        for (t, tr) in &f.out[*s] {
            match tr {
                Tr::Rule(start, _, _) => {
                    let mut st = st.clone();
                    st.push(*t);
                    work.push(((*start, st, *alt, sem.clone()), if depth >= 0 { depth + 1 } else { depth }, edge));
                }
                Tr::Pred(r, k, local) => {
                    let mut sem = sem.clone();
                    if edge && (!*local || depth == 0) {
                        sem.insert((*r, *k));
                    }
                    work.push(((*t, st.clone(), *alt, sem), depth, edge))
                }
                Tr::Eps | Tr::Prec(_) => work.push(((*t, st.clone(), *alt, sem.clone()), depth, edge)),
                Tr::Action(..) => work.push(((*t, st.clone(), *alt, sem.clone()), depth, false)),
                _ => {
                    out.insert(c.clone());
                }
            }
        }
    }
    out
}
pub fn first_stage(f: &Firsts, dec: usize, toks: &[i32], at: usize, preds: u64) -> First {
    let mut sites = vec![vec![]; f.a.rule_start.len()];
    for v in &f.out {
        for (t, tr) in v {
            if let Tr::Rule(_, r, _) = tr {
                sites[*r].push(*t);
            }
        }
    }
    let d = f.a.decisions[dec];
    let start: Vec<(Wf, i32)> = f.out[d].iter().enumerate().map(|(i, (t, _))| ((*t, vec![], i + 1, Sem::new()), 0)).collect();
    let mut cur = wide(f, &sites, start, true);
    for i in at..toks.len() {
        let t = toks[i];
        let mut next = vec![];
        for (s, st, alt, sem) in &cur {
            for (to, tr) in &f.out[*s] {
                if moves(f, tr, t) {
                    next.push(((*to, st.clone(), *alt, sem.clone()), -1));
                }
            }
        }
        let mut next = wide(f, &sites, next, false);
        let stopped = |c: &Wf| f.a.states[c.0].ty == St::RuleStop;
        if t == EOF {
            next.retain(|c| stopped(c));
            next.extend(cur.iter().filter(|c| stopped(c)).cloned());
        }
        CONFS.with(|x| x.set(x.get() + next.len() as u64));
        let alts: BTreeSet<usize> = next.iter().map(|c| c.2).collect();
        if alts.len() < 2 {
            return First::Done { stop: i };
        }
        // a position is a state with everything that may follow; where anything may, what is
        // known to be possible adds nothing
        let mut follow: BTreeMap<(usize, usize, &Sem), BTreeSet<Vec<usize>>> = BTreeMap::new();
        for c in &next {
            let mut st = c.1.clone();
            st.reverse();
            follow.entry((c.0, c.2, &c.3)).or_default().insert(st);
        }
        let mut places: BTreeMap<(usize, Vec<Vec<usize>>), BTreeSet<usize>> = BTreeMap::new();
        let mut by_state: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for ((s, alt, _), w) in &follow {
            let least = w.iter().filter(|x| !(0..x.len()).any(|n| w.contains(&x[..n]))).cloned().collect();
            places.entry((*s, least)).or_default().insert(*alt);
            by_state.entry(*s).or_default().insert(*alt);
        }
        let conflict = next.iter().all(|c| stopped(c)) || places.values().any(|v| v.len() > 1) && by_state.values().all(|v| v.len() > 1);
        if conflict {
            let holds = |c: &&Wf| c.3.iter().all(|(_, k)| (preds >> k) & 1 == 1);
            let viable: BTreeSet<usize> = next.iter().filter(holds).map(|c| c.2).collect();
            return First::Conflict { stop: i, alts: alts.into_iter().collect(), viable: viable.into_iter().collect() };
        }
        cur = next;
    }
    First::Done { stop: toks.len() - 1 }
}
/// the last token a decision has a reason to look at, all predicates true
pub fn stops(f: &Firsts, dec: usize, stack: &[isize], toks: &[i32], at: usize, mode: Mode) -> usize {
    match first_stage(f, dec, toks, at, !0) {
        First::Done { stop } => stop,
        First::Conflict { stop, .. } if mode == Mode::Sll => stop,
        First::Conflict { stop, .. } => match simulate(f, dec, stack, toks, at, !0, mode == Mode::Exact).0 {
            Verdict::Unique { stop: s, .. } | Verdict::Ambiguous { stop: s, .. } => stop.max(s),
            Verdict::Dead { at } => stop.max(at),
        },
    }
}


fn rule_of(a: &Atn, dec: usize) -> usize {
    a.states[a.decisions[dec]].rule as usize
}
fn text(input: &[i32], a: isize, b: isize) -> String {
    (a..=b).filter_map(|i| input.get(i as usize)).map(|t| tok_text(*t)).collect()
}
/// message of the runtime's diagnostic listener
fn message(a: &Atn, d: &Diag, input: &[i32], exact_only: bool) -> Option<String> {
    let desc = |dec: isize| format!("{} ({})", dec, RULE_NAMES[rule_of(a, dec as usize)]);
    match d {
        Diag::Ambig { exact: false, .. } if exact_only => None,
        Diag::Ambig { dec, start, stop, alts, .. } => {
            let l: Vec<String> = alts.iter().map(|a| a.to_string()).collect();
            Some(format!("reportAmbiguity d={}: ambigAlts={{{}}}, input='{}'", desc(*dec), l.join(", "), text(input, *start, *stop)))
        }
        Diag::Full { dec, start, stop, .. } => Some(format!("reportAttemptingFullContext d={}, input='{}'", desc(*dec), text(input, *start, *stop))),
        Diag::Sens { dec, start, stop, .. } => Some(format!("reportContextSensitivity d={}, input='{}'", desc(*dec), text(input, *start, *stop))),
    }
}

fn check(f: &Firsts, g: &Grammar, valid: bool, input: &[i32], preds: u64, mode: Mode, o: &Out, st: &mut Stats) -> Result<(), String> {
    let mut toks = input.to_vec();
    toks.push(EOF);
    // reports of one prediction come in order; match them with the predictions
    let mut k = 0;
    for (j, (dec, at, alt)) in o.decs.iter().enumerate() {
        let mine = &o.diags[k..o.dec_diags[j]];
        k = o.dec_diags[j];
        for x in mine {
            let (d, s) = match x {
                Diag::Ambig { dec, start, .. } | Diag::Full { dec, start, .. } | Diag::Sens { dec, start, .. } => (*dec, *start),
            };
            if d != *dec as isize || s != *at {
                return Err(format!("prediction of decision {} at {} reports {:?}", dec, at, x));
            }
        }
        let lr = g.rules[rule_of(f.a, *dec)].ops.is_some();
        let (v, n) = if lr && !mine.iter().any(|d| matches!(d, Diag::Ambig { .. })) {
            (Verdict::Dead { at: 0 }, 0)
        } else {
            simulate(f, *dec, &o.dec_stacks[j], &toks, *at as usize, preds, mode == Mode::Exact)
        };
        st.states += n as u64;
        let what = || format!("decision {} at {} (chose {}): reports {:?}, full-context lookahead says {:?}", dec, at, alt, mine, v);
        for d in mine {
            match d {
                Diag::Ambig { stop, alts, exact, .. } => {
                    if *exact != (mode == Mode::Exact) {
                        return Err(format!("ambiguity exact: {}; {}", exact, what()));
                    }
                    if v != (Verdict::Ambiguous { alts: alts.clone(), stop: *stop as usize }) && !lr {
                        return Err(format!("untrue ambiguity; {}", what()));
                    }
                    if alts.len() < 2 || *alt >= 0 && alts.iter().min() != Some(&(*alt as usize)) {
                        return Err(format!("ambiguity not resolved to its lowest alternative; {}", what()));
                    }
                    st.count("ambiguities", 1);
                }
                Diag::Sens { alt: a, stop, .. } => {
                    if *a != *alt {
                        return Err(format!("context sensitivity names another alternative; {}", what()));
                    }
                    if !lr && v != (Verdict::Unique { alt: *a as usize, stop: *stop as usize }) {
                        return Err(format!("untrue context sensitivity; {}", what()));
                    }
                    st.count("context sensitivities", 1);
                }
                Diag::Full { alts, stop, .. } => {
                    if lr && (alts.len() < 2 || *stop < *at) {
                        return Err(format!("full-context attempt without conflict; {}", what()));
                    }
                    if *alt >= 0 && !alts.is_empty() && !alts.contains(&(*alt as usize)) {
                        return Err(format!("the alternative chosen is not one of the conflicting ones; {}", what()));
                    }
                }
            }
        }
        if !lr {
            let first = first_stage(f, *dec, &toks, *at as usize, preds);
            st.states += CONFS.with(|x| x.take());
            let got = mine.iter().find_map(|d| match d {
                Diag::Full { alts, stop, .. } => Some((alts, *stop as usize)),
                _ => None,
            });
            let ok = match (&first, got) {
                (First::Done { .. }, None) => true,
                (First::Conflict { viable, .. }, None) => viable.len() == 1,
                (First::Conflict { stop, viable, .. }, Some((alts, at))) => viable == alts && *stop == at && viable.len() != 1,
                (First::Done { .. }, Some(_)) => false,
            };
            if !ok {
                return Err(format!("lookahead without callers says {:?}; {}", first, what()));
            }
            st.count("first stages", 1);
        }
        if *alt >= 0 {
            let full = mine.iter().filter(|d| matches!(d, Diag::Full { .. })).count();
            let res = mine.len() - full;
            if full > 1 || res != full || (full == 1 && !matches!(mine[0], Diag::Full { .. })) {
                return Err(format!("a full-context attempt must be followed by exactly one result; {}", what()));
            }
        }
        if valid && !lr && mode == Mode::Exact {
            if let Verdict::Ambiguous { .. } = v {
                if !mine.iter().any(|d| matches!(d, Diag::Ambig { .. })) {
                    return Err(format!("ambiguity not reported; {}", what()));
                }
            }
        }
    }
    if k != o.diags.len() {
        return Err(format!("report {:?} belongs to no prediction", o.diags[k]));
    }
    Ok(())
}

pub fn c24(tier: Tier) -> Vec<Plan> {
    let mut v = over_families(
        tier.pick(1, 2),
        move |f| match (f.alpha, tier) {
            (2, Tier::Quick) => 5,
            (2, _) => 7,
            (3, Tier::Quick) => 5,
            (3, _) => 7,
            (_, Tier::Quick) => 2,
            _ => 3,
        },
        move |g, inputs, st| {
            let prog = compile(g);
            let l = Loaded::new(prog.clone());
            let rp = RProg::new(&prog);
            let f = Firsts::new(&prog.atn);
            for input in inputs {
                let valid = Ref::new(&rp, input).accepts(0);
                let mut cfg = Cfg::new(Mode::Exact);
                let plain = guard(|| parse(&l, &stoks(input), &cfg));
                cfg.probe = true;
                for diagnose in [None, Some(true), Some(false)] {
                    cfg.diagnose = diagnose;
                    let r = guard(|| parse(&l, &stoks(input), &cfg));
                    st.traces += 1;
                    let res = match &r {
                        Err(e) => Err(format!("panic {}", e)),
                        Ok(o) => {
                            st.transitions += o.decs.len() as u64;
                            let mut r = if diagnose.is_none() {
                                if !o.diags.is_empty() {
                                    st.outcome(&o.diags);
                                }
                                check(&f, g, valid, input, !0, Mode::Exact, o, st)
                            } else {
                                Ok(())
                            };
                            // the runtime's own listener reports the same, and nothing else changes
                            let (rep, errs): (Vec<&ErrRec>, Vec<&ErrRec>) = o.errors.iter().partition(|e| e.msg.starts_with("report"));
                            let want: Vec<String> = diagnose.map(|x| o.diags.iter().filter_map(|d| message(f.a, d, input, x)).collect()).unwrap_or_default();
                            let got: Vec<String> = rep.iter().map(|e| e.msg.clone()).collect();
                            if r.is_ok() && want != got {
                                r = Err(format!("diagnostic messages {:?} instead of {:?}", got, want));
                            }
                            if let (true, Ok(p)) = (r.is_ok(), &plain) {
                                if p.tree != o.tree || p.decs != o.decs || p.diags != o.diags || p.errors.iter().map(|e| &e.msg).ne(errs.iter().map(|e| &e.msg)) {
                                    r = Err("listening changes the parse".into());
                                }
                            }
                            r
                        }
                    };
                    if let Err(e) = res {
                        st.fail(key(g, input), format!("{}\ninput {:?}{}: {}", g.show(), input, if valid { "" } else { " (invalid)" }, e));
                        if st.failed() {
                            return;
                        }
                    }
                }
            }
        },
    );
    let reports = |g: &Grammar, l: &Loaded, rp: &RProg, f: &Firsts, input: &[i32], m: u64, mode: Mode, st: &mut Stats| {
        let mut r = Ref::new(rp, input);
        r.preds = m;
        let valid = r.derive_pred(0).is_ok();
        let mut cfg = Cfg::new(mode).preds(Preds::Mask(m));
        cfg.probe = true;
        let r = guard(|| parse(l, &stoks(input), &cfg));
        st.traces += 1;
        let res = match &r {
            Err(e) => Err(format!("panic {}", e)),
            Ok(o) => {
                st.transitions += o.decs.len() as u64;
                if !o.diags.is_empty() {
                    st.outcome(&o.diags);
                }
                check(f, g, valid, input, m, mode, o, st)
            }
        };
        if let Err(e) = res {
            st.fail(format!("{}| {:?} {:x} {:?}", g.show(), input, m, mode), format!("{}\ninput {:?}{}, predicates {:b}, {:?}: {}", g.show(), input, if valid { "" } else { " (invalid)" }, m & 0xff, mode, e));
        }
    };
    for how in ["closed", "open", "optional"] {
        for f in families(tier.pick(0, 1)) {
            let n = lens1(&f, tier).min(if how == "closed" { 9 } else { tier.pick(4, 5) });
            let inputs = strings(f.alpha, n);
            let gs: Vec<Grammar> = f.gs.iter().map(|g| if how == "closed" { g.clone() } else { open_end(g, how) }).collect();
            let b = format!("{} ({} grammars), the end of the input {} in the start rule, LL and exact prediction; all {} token strings over {} tokens up to length {}", f.desc, gs.len(), how, inputs.len(), f.alpha, n);
            v.push(plan(format!("{}, {} end", f.name, how), b, gs.len(), move |i, st| {
                let g = &gs[i];
                let prog = compile(g);
                let rp = RProg::new(&prog);
                let l = Loaded::new(prog.clone());
                let f = Firsts::new(&prog.atn);
                for input in &inputs {
                    reports(g, &l, &rp, &f, input, !0, Mode::LL, st);
                    if how != "closed" {
                        reports(g, &l, &rp, &f, input, !0, Mode::Exact, st);
                    }
                    if st.failed() {
                        return;
                    }
                }
            }));
        }
    }
    for f in families(tier.pick(0, 1)) {
        if matches!(f.name, "classic" | "sets") {
            continue;
        }
        let n = if f.alpha <= 2 { tier.pick(3, 4) } else { 3 };
        let inputs = strings(f.alpha, n);
        let gs = f.gs;
        let b = format!("{} ({} grammars), every choice of up to 2 alternatives guarded by predicates: distinct, equal, one depending on its context, one behind an action; all truth assignments, all strings over {} tokens up to length {}", f.desc, gs.len(), f.alpha, n);
        v.push(plan(format!("{} with predicates", f.name), b, gs.len(), move |i, st| {
            for g in guarded(&gs[i], 2) {
                let prog = compile(&g);
                let rp = RProg::new(&prog);
                let l = Loaded::new(prog.clone());
                let f = Firsts::new(&prog.atn);
                for input in &inputs {
                    for m in 0..1 << npreds(&g) {
                        reports(&g, &l, &rp, &f, input, m, Mode::Exact, st);
                        reports(&g, &l, &rp, &f, input, m, Mode::LL, st);
                    }
                    if st.failed() {
                        return;
                    }
                }
            }
        }));
    }
    let gs = special();
    let n = tier.pick(4, 6);
    let inputs = strings(3, n);
    let b = format!("{} hand-picked grammars with hoisted, nested, shadowed and context-dependent predicates; all truth assignments, all strings over 3 tokens up to length {}", gs.len(), n);
    v.push(plan("special", b, gs.len(), move |i, st| {
        let g = &gs[i];
        let prog = compile(g);
        let rp = RProg::new(&prog);
        let l = Loaded::new(prog.clone());
        let f = Firsts::new(&prog.atn);
        for input in &inputs {
            for m in 0..1 << npreds(g) {
                reports(g, &l, &rp, &f, input, m, Mode::Exact, st);
                reports(g, &l, &rp, &f, input, m, Mode::LL, st);
            }
            if st.failed() {
                return;
            }
        }
    }));
    v
}
