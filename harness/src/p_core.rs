//! C05, C06, C10, C11, C12: parsing against the reference recognizer.
use crate::enumg::*;
use crate::fam::*;
use crate::grammar::*;
use crate::interp::*;
use crate::refp::*;
use crate::run::*;
use std::sync::Arc;

pub fn key(g: &Grammar, input: &[i32]) -> String {
    format!("{}| {:?}", g.show(), input)
}
/// one shorter, for checks that look at invalid inputs as well
pub fn lens1(f: &Fam, tier: Tier) -> usize {
    lens(f, tier) - if f.alpha <= 3 { 1 } else { 0 }
}
pub fn lens(f: &Fam, tier: Tier) -> usize {
    match (f.alpha, tier) {
        (2, Tier::Quick) => 6,
        (2, Tier::Thorough) => 8,
        (3, Tier::Quick) => 7,
        (3, Tier::Thorough) => 9,
        (_, Tier::Quick) => 3,
        _ => 4,
    }
}
/// plans that visit every grammar of every family with all its inputs
pub fn over_families(
    lvl: usize,
    len: impl Fn(&Fam) -> usize,
    f: impl Fn(&Grammar, &[Vec<i32>], &mut Stats) + Sync + Clone + 'static,
) -> Vec<Plan> {
    families(lvl)
        .into_iter()
        .map(|fm| {
            let n = len(&fm);
            let inputs = Arc::new(strings(fm.alpha, n));
            let gs = fm.gs;
            let f = f.clone();
            let b = format!("{} ({} grammars); all {} token strings over {} tokens up to length {}", fm.desc, gs.len(), inputs.len(), fm.alpha, n);
            plan(fm.name, b, gs.len(), move |i, st| f(&gs[i], &inputs, st))
        })
        .collect()
}

/// compares one parse of a valid input with the reference derivation
pub fn check_valid(g: &Grammar, input: &[i32], want: &T, decs: &[Dec], o: &Out, what: &str, st: &mut Stats) -> bool {
    let bad = if !o.errors.is_empty() {
        Some(format!("reports {:?}", o.errors[0]))
    } else if let Some(e) = &o.err {
        Some(format!("returns error {}", e))
    } else if o.tree.as_ref() != Some(want) {
        Some(format!("tree {} instead of {}", o.tree.as_ref().map(|t| t.show()).unwrap_or_default(), want.show()))
    } else if o.decs != decs {
        Some(format!("decisions {:?} instead of {:?}", o.decs, decs))
    } else {
        None
    };
    if let Some(b) = &bad {
        st.fail(key(g, input), format!("{}\ninput {:?} is derivable, but the parser ({}) {}\n", g.show(), input, what, b));
    }
    bad.is_none()
}

pub fn c05(tier: Tier) -> Vec<Plan> {
    over_families(tier.pick(1, 2), move |f| lens(f, tier), move |g, inputs, st| {
        let prog = compile(g);
        let rp = RProg::new(&prog);
        let warm = Loaded::new(prog);
        let lab = warm.fresh();
        let cfg = Cfg::new(Mode::LL);
        for i in inputs {
            let mut r = Ref::new(&rp, i);
            let want = match r.derive(0) {
                Some(t) => t,
                None => {
                    st.states += r.states as u64;
                    continue;
                }
            };
            st.states += r.states as u64;
            let toks = stoks(i);
            let cold = warm.fresh();
            let gen = cfg.clone().ll1().labels();
            for (l, cfg, what) in [
                (&cold, &cfg, "cold cache"),
                (&warm, &cfg, "cache warmed by the preceding inputs"),
                (&lab, &gen, "LL(1) decisions and labelled alternatives, warm cache"),
            ] {
                match guard(|| parse(l, &toks, cfg)) {
                    Ok(o) => {
                        st.traces += 1;
                        st.transitions += o.decs.len() as u64;
                        st.outcome(&o.tree);
                        if check_valid(g, i, &want, &r.decs, &o, what, st) {
                            st.sample(|| format!("{} {:?} -> {}", g.show(), i, want.show()));
                        }
                    }
                    Err(e) => st.fail(key(g, i), format!("{}\ninput {:?} ({}): panic {}", g.show(), i, what, e)),
                }
            }
            if st.failed() {
                return;
            }
        }
    })
}

/// text the error messages must quote for tokens start..=stop (EOF has no text)
fn quoted(input: &[i32], start: usize, stop: usize) -> String {
    (start..=stop.min(input.len().max(1) - 1)).filter(|k| *k < input.len()).map(|k| tok_text(input[k])).collect()
}
fn show_tok(input: &[i32], k: usize) -> String {
    if k >= input.len() {
        "'<EOF>'".into()
    } else {
        format!("'{}'", tok_text(input[k]))
    }
}

pub fn c06(tier: Tier) -> Vec<Plan> {
    over_families(tier.pick(1, 2), move |f| lens1(f, tier), move |g, inputs, st| {
        let prog = compile(g);
        let rp = RProg::new(&prog);
        let base = Loaded::new(prog);
        let warm: Vec<Loaded> = (0..2).map(|_| base.fresh()).collect();
        for i in inputs {
            let toks = stoks(i);
            let run = |l: &Loaded, m: Mode| guard(|| parse(l, &toks, &Cfg::new(m)));
            let cold = base.fresh();
            let ll = run(&cold, Mode::LL);
            let ex = run(&base.fresh(), Mode::Exact);
            let sll = run(&base.fresh(), Mode::Sll);
            let exw = run(&warm[0], Mode::Exact);
            let sllw = run(&warm[1], Mode::Sll);
            let (ll, ex, sll, exw, sllw) = match (ll, ex, sll, exw, sllw) {
                (Ok(a), Ok(b), Ok(c), Ok(d), Ok(e)) => (a, b, c, d, e),
                (a, b, c, d, e) => {
                    let es: Vec<_> = [a, b, c, d, e].into_iter().filter_map(|x| x.err()).collect();
                    st.fail(key(g, i), format!("{}\ninput {:?}: panic {:?}", g.show(), i, es));
                    continue;
                }
            };
            st.traces += 5;
            st.transitions += (ll.decs.len() + ex.decs.len() + sll.decs.len() + exw.decs.len() + sllw.decs.len()) as u64;
            st.outcome(&(&ll.tree, sll.errors.is_empty()));
            let mut r = Ref::new(&rp, i);
            let valid = r.accepts(0);
            st.states += r.states as u64;
            for (x, what) in [(&ex, "cold"), (&exw, "warm")] {
                // an invalid input may be found out at different tokens: the default mode stops
                // looking as soon as the alternatives can no longer differ
                let differ = if valid {
                    x.tree != ll.tree || x.errors != ll.errors || x.decs != ll.decs
                } else {
                    x.errors.is_empty() || ll.errors.is_empty()
                };
                if differ {
                    st.fail(
                        key(g, i),
                        format!("{}\ninput {:?}: exact mode ({}) differs from LL\nLL    {:?} {:?} {:?}\nexact {:?} {:?} {:?}", g.show(), i, what, ll.tree, ll.errors, ll.decs, x.tree, x.errors, x.decs),
                    );
                }
            }
            for (x, what) in [(&sll, "cold"), (&sllw, "warm")] {
                if x.errors.is_empty() && x.err.is_none() {
                    st.count("SLL parses without error", 1);
                    if x.tree != ll.tree || !ll.errors.is_empty() {
                        st.fail(
                            key(g, i),
                            format!("{}\ninput {:?}: SLL ({}) accepts silently with another result than LL\nLL  {:?} {:?}\nSLL {:?}", g.show(), i, what, ll.tree, ll.errors, x.tree),
                        );
                    }
                } else if valid {
                    st.count("valid inputs on which SLL reports an error", 1);
                }
            }
            if !sll.errors.is_empty() != !sllw.errors.is_empty() {
                st.fail(key(g, i), format!("{}\ninput {:?}: SLL reports an error depending on the cache", g.show(), i));
            }
            if sll.errors.is_empty() && valid {
                st.sample(|| format!("{} {:?}: LL = exact = SLL = {}", g.show(), i, ll.tree.as_ref().unwrap().show()));
            }
            if st.failed() {
                return;
            }
        }
    })
}

/// everything C10 requires of the first error report, given the first impossible token m
///
/// When no alternative of a called rule can match, prediction may still end that rule early
/// (an alternative that reaches the rule's end), so the error then comes before token m.
pub fn check_first_error(p: &Compiled, input: &[i32], m: usize, e: &ErrRec, decs: &[Dec]) -> Result<(), String> {
    let n = input.len();
    let early = |ix: usize| {
        decs.iter().any(|(d, i, _)| *i <= ix as isize && p.atn.states[p.atn.decisions[*d]].rule != 0)
    };
    let at = |ix: usize| ix == m || (ix < m && early(ix));
    let (ix, ty) = e.tok.ok_or("no offending token")?;
    if ix < 0 || ix as usize > n {
        return Err(format!("offending token index {} is not a token of the input", ix));
    }
    let ix = ix as usize;
    let want = if ix == n { EOF } else { input[ix] };
    if ty != want as isize {
        return Err(format!("offending token type {} but token {} has type {}", ty, ix, want));
    }
    if e.line != line_of(ix as isize) || e.col != ix as isize {
        return Err(format!("line {} column {} but the offending token is at {}:{}", e.line, e.col, line_of(ix as isize), ix));
    }
    match &e.kind {
        EKind::NoAlt { start, off } => {
            if *off != ix as isize {
                return Err(format!("error object has offending token {} but the listener got {}", off, ix));
            }
            if !(*start <= m as isize && (m as isize <= *off || early(*off as usize))) {
                return Err(format!("no-viable-alternative spans {}..{} but the first impossible token is {}", start, off, m));
            }
            let t = if *start as usize == n { "<EOF>".to_string() } else { quoted(input, *start as usize, *off as usize) };
            let want = format!("no viable alternative at input '{}'", t);
            if e.msg != want {
                return Err(format!("message {:?} instead of {:?}", e.msg, want));
            }
        }
        EKind::Mismatch { off } => {
            if !at(ix) || *off != ix as isize {
                return Err(format!("mismatch reported at token {} ({}), the first impossible token is {}", ix, off, m));
            }
            if !e.msg.starts_with(&format!("mismatched input {} expecting ", show_tok(input, ix))) {
                return Err(format!("message {:?}", e.msg));
            }
        }
        EKind::Inline => {
            if !at(ix) {
                return Err(format!("repair reported at token {}, the first impossible token is {}", ix, m));
            }
            let a = format!("extraneous input {} expecting ", show_tok(input, ix));
            let ok = e.msg.starts_with(&a) || (e.msg.starts_with("missing ") && e.msg.ends_with(&format!(" at {}", show_tok(input, ix))));
            if !ok {
                return Err(format!("message {:?}", e.msg));
            }
        }
        k => return Err(format!("unexpected kind of error {:?}", k)),
    }
    Ok(())
}

pub fn c10(tier: Tier) -> Vec<Plan> {
    over_families(tier.pick(1, 2), move |f| lens1(f, tier), move |g, inputs, st| {
        let prog = compile(g);
        let rp = RProg::new(&prog);
        let warm = Loaded::new(prog);
        let lab = warm.fresh();
        for i in inputs {
            let mut r = Ref::new(&rp, i);
            let m = r.first_bad(0);
            st.states += r.states as u64;
            let toks = stoks(i);
            let cold = warm.fresh();
            let cfg = Cfg::new(Mode::LL);
            for (l, cfg, what) in [(&cold, cfg.clone(), "cold"), (&warm, cfg.clone(), "warm"), (&lab, cfg.ll1().labels(), "LL(1) decisions and labels, warm")] {
                let o = match guard(|| parse(l, &toks, &cfg)) {
                    Ok(o) => o,
                    Err(e) => {
                        st.fail(key(g, i), format!("{}\ninput {:?} ({} cache): panic {}", g.show(), i, what, e));
                        continue;
                    }
                };
                st.traces += 1;
                st.transitions += o.decs.len() as u64;
                st.outcome(&o.errors);
                if what == "warm" {
                    // building no tree changes nothing in what is reported
                    match guard(|| parse(l, &toks, &Cfg { build_tree: false, ..cfg.clone() })) {
                        Ok(x) if x.errors == o.errors => st.traces += 1,
                        Ok(x) => st.fail(key(g, i), format!("{}\ninput {:?}: without a tree {:?} is reported, with it {:?}", g.show(), i, x.errors, o.errors)),
                        Err(e) => st.fail(key(g, i), format!("{}\ninput {:?} (no tree built): panic {}", g.show(), i, e)),
                    }
                }
                if m > i.len() {
                    if !o.errors.is_empty() {
                        st.fail(key(g, i), format!("{}\ninput {:?} is in the language, but {:?} is reported ({} cache)", g.show(), i, o.errors[0], what));
                    }
                } else if o.errors.is_empty() {
                    st.fail(key(g, i), format!("{}\ninput {:?} is not in the language, but no error is reported ({} cache)", g.show(), i, what));
                } else {
                    st.count("inputs with an error", 1);
                    if let Err(x) = check_first_error(&warm.prog, i, m, &o.errors[0], &o.decs) {
                        st.fail(key(g, i), format!("{}\ninput {:?} ({} cache): {}\n{:?}", g.show(), i, what, x, o.errors[0]));
                    } else {
                        st.sample(|| format!("{} {:?}: first impossible token {}; {:?} at token {:?}", g.show(), i, m, o.errors[0].msg, o.errors[0].tok));
                    }
                }
            }
            if st.failed() {
                return;
            }
        }
    })
}

/// positions in a rule body as continuation stacks; used to decide whether the children of
/// a recovered rule node are a prefix of something its body derives
struct Body<'a> {
    kids: Vec<&'a T>,
    repaired: bool,
    ntok: i32,
}
impl<'a> Body<'a> {
    fn one(&self, e: &C, k: usize) -> bool {
        match (e, self.kids.get(k)) {
            (C::Match { el, .. }, Some(T::Tok(_, ty))) => el_matches(el, *ty as i32, self.ntok),
            (C::Match { el, .. }, Some(T::Err(_, ty, _))) => el_matches(el, *ty as i32, self.ntok),
            (C::Call { rule, .. }, Some(T::Rule { rule: q, .. })) => rule == q,
            _ => false,
        }
    }
    /// end positions after seq from each of `from`; sets `hit` when all kids are used up
    fn seq(&self, s: &[C], from: u64, hit: &mut bool) -> u64 {
        let mut cur = from;
        let full = 1u64 << self.kids.len();
        for c in s {
            if cur & full != 0 {
                *hit = true;
            }
            cur = self.el(c, cur, hit);
            if cur == 0 {
                return 0;
            }
        }
        if cur & full != 0 {
            *hit = true;
        }
        cur
    }
    fn alts(&self, a: &[Vec<C>], from: u64, hit: &mut bool) -> u64 {
        a.iter().fold(0, |x, s| x | self.seq(s, from, hit))
    }
    fn el(&self, c: &C, from: u64, hit: &mut bool) -> u64 {
        match c {
            C::Match { el, .. } => {
                let mut r = 0;
                for k in 0..self.kids.len() {
                    if (from >> k) & 1 == 1 && self.one(c, k) {
                        r |= 1 << (k + 1);
                    }
                }
                // a set that was repaired by insertion leaves no node behind
                if self.repaired && !matches!(el, El::Tok(_) | El::Wild) {
                    r |= from;
                }
                r
            }
            C::Call { .. } => {
                let mut r = 0;
                for k in 0..self.kids.len() {
                    if (from >> k) & 1 == 1 && self.one(c, k) {
                        r |= 1 << (k + 1);
                    }
                }
                r
            }
            C::Pred { .. } | C::Prec { .. } | C::Action { .. } => from,
            C::Block { alts, .. } => self.alts(alts, from, hit),
            C::Opt { alts, .. } => from | self.alts(alts, from, hit),
            C::Star { alts, .. } => self.star(alts, from, hit),
            C::Plus { alts, .. } => {
                let f = self.alts(alts, from, hit);
                self.star(alts, f, hit)
            }
        }
    }
    fn star(&self, alts: &[Vec<C>], from: u64, hit: &mut bool) -> u64 {
        let mut all = from;
        loop {
            let n = all | self.alts(alts, all, hit);
            if n == all {
                return all;
            }
            all = n;
        }
    }
}
/// the structural part of C11 for one node (and its descendants)
fn faithful_node(p: &Compiled, t: &T, has_errors: bool) -> Result<(), String> {
    if let T::Rule { rule, kids, .. } = t {
        // tokens dropped by recovery are error nodes with a token index; conjured ones stand
        // for the expected token
        let ks: Vec<&T> = kids.iter().filter(|k| !matches!(k, T::Err(ix, _, _) if *ix >= 0)).collect();
        if ks.len() < 63 {
            let b = Body { kids: ks, repaired: has_errors, ntok: p.atn.max_token };
            let cr = &p.rules[*rule];
            let full = 1u64 << b.kids.len();
            let mut hit = b.kids.is_empty();
            let mut end = b.el(&cr.body, 1, &mut hit);
            if let Some(C::Star { alts, .. }) = &cr.ops {
                // operator node: the left operand, then one operator alternative
                if let Some(T::Rule { rule: q, .. }) = b.kids.first() {
                    if q == rule {
                        end |= b.alts(alts, 2, &mut hit);
                        if b.kids.len() == 1 {
                            hit = true;
                        }
                    }
                }
            }
            if end & full != 0 {
                hit = true
            }
            if !hit {
                return Err(format!("children of {} do not follow the body of rule {}", t.show(), rule));
            }
            if !has_errors && end & full == 0 {
                return Err(format!("{} is an incomplete match of rule {} although no error was reported", t.show(), rule));
            }
        }
        for k in kids {
            faithful_node(p, k, has_errors)?;
        }
    }
    Ok(())
}
fn ranges(t: &T, lo: &mut isize, hi: &mut isize) -> Result<(), String> {
    match t {
        // end of file is not part of the input
        T::Tok(i, ty) | T::Err(i, ty, _) => {
            if *i >= 0 && *ty != -1 {
                *lo = *i;
                *hi = *i;
            }
            Ok(())
        }
        T::Rule { start, stop, kids, .. } => {
            let (mut l, mut h) = (isize::MAX, -1);
            for k in kids {
                let (mut kl, mut kh) = (isize::MAX, -1);
                ranges(k, &mut kl, &mut kh)?;
                if kh >= 0 {
                    l = l.min(kl);
                    h = h.max(kh);
                }
            }
            if h >= 0 && (*start > l || *stop < h) {
                return Err(format!("node {} spans tokens {}..{} but holds leaves {}..{}", t.show(), start, stop, l, h));
            }
            *lo = l;
            *hi = h;
            Ok(())
        }
    }
}
/// C11: what a returned tree must satisfy
pub fn check_faithful(p: &Compiled, input: &[i32], o: &Out) -> Result<(), String> {
    let t = o.tree.as_ref().ok_or_else(|| format!("no tree returned: {:?}", o.err))?;
    let mut leaves = vec![];
    t.leaves(&mut leaves);
    let n = input.len() as isize;
    let mut next = 0;
    for l in &leaves {
        let (i, ty) = match l {
            T::Tok(i, ty) => (*i, *ty),
            T::Err(i, ty, _) => (*i, *ty),
            _ => unreachable!(),
        };
        if ty == -1 && matches!(l, T::Err(..)) {
            // recovery at end of file may leave error nodes for it
            continue;
        }
        if i < 0 {
            if let T::Tok(..) = l {
                return Err(format!("terminal node with token index {}", i));
            }
            if let T::Err(_, ty, text) = l {
                let want = if *ty == -1 { "<missing <EOF>>".to_string() } else { format!("<missing {}>", display_name(*ty as i32)) };
                if text != &want {
                    return Err(format!("inserted token text {:?} instead of {:?}", text, want));
                }
            }
            continue;
        }
        if i != next {
            return Err(format!("leaf with token {} where token {} was expected (skipped or duplicated): {}", i, next, t.show()));
        }
        let want = if i == n { -1 } else { input[i as usize] as isize };
        if ty != want {
            return Err(format!("leaf {} has type {} but the input token has type {}", i, ty, want));
        }
        next += 1;
    }
    // end of file may have been matched without moving the position
    let end = if o.matched_eof { n + 1 } else { o.end_index };
    if next != end && !(next == n + 1 && o.end_index >= n) {
        return Err(format!("the tree covers tokens 0..{} but the parser consumed 0..{}", next, end));
    }
    if o.errors.is_empty() && leaves.iter().any(|l| matches!(l, T::Err(..))) {
        return Err("error node without a reported error".into());
    }
    ranges(t, &mut 0, &mut 0)?;
    faithful_node(p, t, !o.errors.is_empty())
}

pub fn c11(tier: Tier) -> Vec<Plan> {
    over_families(tier.pick(1, 2), move |f| lens1(f, tier), move |g, inputs, st| {
        let warm = Loaded::new(compile(g));
        let lab = warm.fresh();
        for i in inputs {
            let toks = stoks(i);
            let cold = warm.fresh();
            let (ll, sll) = (Cfg::new(Mode::LL), Cfg::new(Mode::Sll));
            for (l, cfg, what) in [(&cold, ll.clone(), "cold"), (&warm, ll.clone(), "warm"), (&cold, sll, "SLL"), (&lab, ll.ll1().labels(), "LL(1) decisions and labels")] {
                match guard(|| parse(l, &toks, &cfg)) {
                    Ok(o) => {
                        st.traces += 1;
                        st.states += 1 + o.errors.len() as u64;
                        st.transitions += o.decs.len() as u64;
                        st.outcome(&(&o.tree, o.errors.len()));
                        st.count("errors recovered from", o.errors.len() as u64);
                        if let Err(x) = check_faithful(&warm.prog, i, &o) {
                            st.fail(key(g, i), format!("{}\ninput {:?} ({}): {}\n{:?}", g.show(), i, what, x, o));
                        } else if !o.errors.is_empty() {
                            st.sample(|| format!("{} {:?} -> {} {:?}", g.show(), i, o.tree.as_ref().unwrap().show(), o.errors.iter().map(|e| &e.msg).collect::<Vec<_>>()));
                        }
                    }
                    Err(e) => st.fail(key(g, i), format!("{}\ninput {:?} ({}): panic {}", g.show(), i, what, e)),
                }
            }
            if st.failed() {
                return;
            }
        }
    })
}

pub fn c12(tier: Tier) -> Vec<Plan> {
    over_families(tier.pick(1, 2), move |f| lens1(f, tier), move |g, inputs, st| {
        let prog = compile(g);
        let rp = RProg::new(&prog);
        let warm = Loaded::new(prog);
        let lab = warm.fresh();
        for i in inputs {
            let mut r = Ref::new(&rp, i);
            let want = r.derive(0);
            let m = r.first_bad(0);
            st.states += r.states as u64;
            let toks = stoks(i);
            let cold = warm.fresh();
            let cfg = Cfg::new(Mode::LL).bail();
            for (l, cfg, what) in [(&cold, cfg.clone(), "cold"), (&warm, cfg.clone(), "warm"), (&lab, cfg.ll1().labels(), "LL(1) decisions and labels, warm")] {
                let o = match guard(|| parse(l, &toks, &cfg)) {
                    Ok(o) => o,
                    Err(e) => {
                        st.fail(key(g, i), format!("{}\ninput {:?} ({} cache): panic {}", g.show(), i, what, e));
                        continue;
                    }
                };
                st.traces += 1;
                st.transitions += o.decs.len() as u64;
                st.outcome(&(&o.tree, &o.bail));
                let bad = match &want {
                    Some(t) => {
                        if o.err.is_some() || o.tree.as_ref() != Some(t) || !o.errors.is_empty() {
                            Some(format!("valid input gives {:?} {:?} {:?}", o.tree, o.err, o.errors))
                        } else {
                            None
                        }
                    }
                    None => {
                        if o.err.is_none() {
                            Some(format!("invalid input returns a tree {:?}", o.tree))
                        } else if o.end_index > m as isize {
                            Some(format!("stopped at token {}, beyond the first impossible token {}", o.end_index, m))
                        } else {
                            let early = |off: &isize| {
                                o.decs.iter().any(|(d, i, _)| i <= off && warm.prog.atn.states[warm.prog.atn.decisions[*d]].rule != 0)
                            };
                            match &o.bail {
                                Some(EKind::NoAlt { start, off })
                                    if *start <= m as isize && o.end_index == *start && (m as isize <= *off || early(off)) =>
                                {
                                    None
                                }
                                Some(EKind::Mismatch { off }) if o.end_index == *off && (*off == m as isize || early(off)) => None,
                                k => Some(format!("bailed out with {:?} at token {} but the first impossible token is {}", k, o.end_index, m)),
                            }
                        }
                    }
                };
                if let Some(b) = bad {
                    st.fail(key(g, i), format!("{}\ninput {:?} ({} cache): {}\n{:?}", g.show(), i, what, b, o));
                } else if want.is_none() {
                    st.sample(|| format!("{} {:?}: bails out with {:?} at {}", g.show(), i, o.bail, o.end_index));
                }
            }
            if st.failed() {
                return;
            }
        }
    })
}
