//! C17: graph-structured call stacks. A context is compared with the set of stacks it stands
//! for: merging is the union of the sets (with the empty stack absorbing every stack it is a
//! prefix of when it is a wildcard), whatever the order and whatever was merged before.
use crate::run::*;
use antlr_rust::verif::*;
use std::collections::{BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

type Stack = Vec<isize>;
type Set = BTreeSet<Stack>;
type Ctx = Arc<PredictionContext>;
const EMPTY: isize = PREDICTION_CONTEXT_EMPTY_RETURN_STATE;

/// the stacks a context stands for, innermost return state first; None when malformed
fn stacks(c: &PredictionContext) -> Result<Set, String> {
    let mut out = Set::new();
    let n = c.length();
    if n == 0 {
        return Err("no entry".into());
    }
    for i in 0..n {
        let r = c.get_return_state(i);
        if i > 0 && c.get_return_state(i - 1) >= r {
            return Err(format!("return states out of order in {}", c));
        }
        if r == EMPTY {
            if c.get_parent(i).is_some() {
                return Err(format!("the empty stack has a parent in {}", c));
            }
            out.insert(vec![]);
        } else {
            let p = c.get_parent(i).ok_or_else(|| format!("no parent in {}", c))?;
            for mut s in stacks(p)? {
                s.insert(0, r);
                if !out.insert(s) {
                    return Err(format!("a stack twice in {}", c));
                }
            }
        }
    }
    Ok(out)
}
/// the context of a set of stacks, built directly; `share` reuses equal sub-graphs
fn build(s: &Set, share: &mut Option<HashMap<Set, Ctx>>) -> Ctx {
    if let Some(h) = share {
        if let Some(c) = h.get(s) {
            return c.clone();
        }
    }
    let mut by: std::collections::BTreeMap<isize, Set> = Default::default();
    for x in s {
        match x.split_first() {
            None => {
                by.entry(EMPTY).or_default();
            }
            Some((r, rest)) => {
                by.entry(*r).or_default().insert(rest.to_vec());
            }
        }
    }
    let mut entries = vec![];
    for (r, rest) in by {
        entries.push((if r == EMPTY { None } else { Some(build(&rest, share)) }, r));
    }
    let c = if entries.len() == 1 {
        let (p, r) = entries.pop().unwrap();
        match p {
            None => EMPTY_PREDICTION_CONTEXT.clone(),
            Some(p) => PredictionContext::new_singleton(Some(p), r).alloc(),
        }
    } else {
        let (ps, rs) = entries.into_iter().unzip();
        PredictionContext::new_array(ps, rs).alloc()
    };
    if let Some(h) = share {
        h.insert(s.clone(), c.clone());
    }
    c
}
/// what a set means when the empty stack stands for every stack
fn absorb(s: &Set) -> Set {
    s.iter().filter(|x| !(0..x.len()).any(|k| s.contains(&x[..k]))).cloned().collect()
}
fn union(a: &Set, b: &Set, wild: bool) -> Set {
    let u: Set = a.union(b).cloned().collect();
    if wild {
        absorb(&u)
    } else {
        u
    }
}
fn h(c: &PredictionContext) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    c.hash(&mut s);
    s.finish()
}
fn same(got: &Ctx, want: &Set, what: &dyn Fn() -> String, st: &mut Stats) -> bool {
    st.traces += 1;
    let e = match stacks(got) {
        Err(e) => e,
        Ok(s) if s != *want => format!("{} stands for {:?} instead of {:?}", got, s, want),
        Ok(_) => {
            let d = build(want, &mut None);
            if *d != **got || h(&d) != h(got) || d.hash_code() != got.hash_code() {
                format!("{} does not compare and hash equal to the same stacks built directly", got)
            } else {
                // its questions about the empty stack
                let (has, only) = (want.contains(&vec![]), want.len() == 1 && want.contains(&vec![]));
                if got.has_empty_path() != has || got.is_empty() != only {
                    format!("{}: has_empty_path {} is_empty {}", got, got.has_empty_path(), got.is_empty())
                } else {
                    return true;
                }
            }
        }
    };
    st.fail(what(), format!("{}\n{}", what(), e));
    false
}

fn all_stacks(states: isize, depth: usize) -> Vec<Stack> {
    let mut v = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for s in &last {
            for r in 1..=states {
                let mut x: Stack = s.clone();
                x.push(r);
                next.push(x);
            }
        }
        v.extend(next.iter().cloned());
        last = next;
    }
    v
}
/// all sets of at most `max` stacks; in wildcard mode only those nothing is absorbed in
fn sets(st: &[Stack], max: usize, wild: bool) -> Vec<Set> {
    let mut out = vec![];
    fn go(st: &[Stack], i: usize, max: usize, cur: &mut Set, out: &mut Vec<Set>) {
        if !cur.is_empty() {
            out.push(cur.clone());
        }
        if cur.len() == max {
            return;
        }
        for j in i..st.len() {
            cur.insert(st[j].clone());
            go(st, j + 1, max, cur, out);
            cur.remove(&st[j]);
        }
    }
    go(st, 0, max, &mut Set::new(), &mut out);
    if wild {
        out.retain(|s| absorb(s) == *s);
    }
    out
}

fn merge(a: &Ctx, b: &Ctx, wild: bool, cache: Option<&mut MergeCache>) -> Result<Ctx, String> {
    guard(|| {
        let mut c = cache;
        PredictionContext::merge(a, b, wild, &mut c)
    })
}
fn new_cache() -> MergeCache {
    std::collections::HashMap::with_hasher(MurmurHasherBuilder {})
}

fn pair_plan(name: &str, states: isize, depth: usize, max: usize, wild: bool) -> Plan {
    let ss = sets(&all_stacks(states, depth), max, wild);
    let n = ss.len();
    let d = format!("{} return states, stacks up to {} deep, all {} sets of at most {} stacks, all ordered pairs, {}; with a cold, a shared and no merge cache, with shared and unshared parents, through the shared context cache", states, depth, n, max, if wild { "the empty stack a wildcard" } else { "the empty stack literal" });
    plan(name, d, n, move |i, st| {
        // one merge cache and one context cache for everything merged in this case
        let mut warm = new_cache();
        let shared = PredictionContextCache::new();
        let mut visited = HashMap::new();
        let mut keep = vec![];
        let mut sh = Some(HashMap::new());
        let a1 = build(&ss[i], &mut sh);
        let a2 = build(&ss[i], &mut None);
        for (j, b) in ss.iter().enumerate() {
            st.states += 1;
            let want = union(&ss[i], b, wild);
            let b1 = build(b, &mut sh);
            let b2 = build(b, &mut None);
            let show = |how: &str| format!("merge{} {:?} with {:?} ({})", if wild { " (wildcard)" } else { "" }, ss[i], b, how);
            let mut cold = new_cache();
            let steps: Vec<(&str, Result<Ctx, String>)> = vec![
                ("no cache", merge(&a2, &b2, wild, None)),
                ("swapped", merge(&b2, &a2, wild, None)),
                ("shared parents", merge(&a1, &b1, wild, None)),
                ("cold cache", merge(&a1, &b2, wild, Some(&mut cold))),
                ("cold cache again", merge(&a1, &b2, wild, Some(&mut cold))),
                ("cache of the swapped pair", merge(&b1, &a1, wild, Some(&mut cold))),
                ("warm cache", merge(&a1, &b1, wild, Some(&mut warm))),
                ("warm cache swapped", merge(&b2, &a2, wild, Some(&mut warm))),
            ];
            st.transitions += steps.len() as u64;
            for (how, r) in steps {
                match r {
                    Err(e) => st.fail(show(how), format!("{}\npanic: {}", show(how), e)),
                    Ok(r) => {
                        if !same(&r, &want, &|| show(how), st) {
                            continue;
                        }
                        // equality follows the sets
                        if (*r == *a1) != (want == ss[i]) || (*r == *b2) != (want == *b) {
                            st.fail(show(how), format!("{}\nthe result {} compares wrongly with the arguments", show(how), r));
                        }
                        let c = guard(|| shared.get_shared_context(&r, &mut visited));
                        match c {
                            Err(e) => st.fail(show(how), format!("{}\nshared cache: panic: {}", show(how), e)),
                            Ok(c) => {
                                same(&c, &want, &|| show(&format!("{}, shared cache", how)), st);
                            }
                        }
                        keep.push(r);
                    }
                }
                if st.failed() {
                    return;
                }
            }
            if (*a1 == *b2) != (i == j) || (*a1 == *b1) != (i == j) {
                st.fail(format!("{:?} == {:?}", ss[i], b), format!("contexts of {:?} and {:?} compare {}", ss[i], b, *a1 == *b2));
            }
            if j % 64 == 0 {
                // look the next ones up with a new table of visited nodes
                visited = HashMap::new();
                keep.clear();
            }
        }
        st.outcome(&ss[i]);
    })
}

/// all sequences of single stacks merged one after the other, grouped to the left and to the right
fn seq_plan(name: &str, states: isize, depth: usize, len: usize, wild: bool) -> Plan {
    let one = all_stacks(states, depth);
    let n = one.len();
    let total = n.pow(2);
    let d = format!("all sequences of {} stacks ({} return states, up to {} deep), merged from the left and from the right with one merge cache, {}", len, states, depth, if wild { "wildcard" } else { "literal" });
    plan(name, d, total, move |i, st| {
        let mut cache = new_cache();
        let ctx: Vec<Ctx> = one.iter().map(|s| build(&[s.clone()].into_iter().collect(), &mut None)).collect();
        let head = [i / n, i % n];
        let rest = n.pow(len as u32 - 2);
        for k in 0..rest {
            let mut ids = head.to_vec();
            let mut x = k;
            for _ in 2..len {
                ids.push(x % n);
                x /= n;
            }
            st.states += 1;
            let all: Set = ids.iter().map(|i| one[*i].clone()).collect();
            let want = if wild { absorb(&all) } else { all };
            let show = |how: &str| format!("{} merge{} of {:?}", how, if wild { " (wildcard)" } else { "" }, ids.iter().map(|i| &one[*i]).collect::<Vec<_>>());
            for left in [true, false] {
                let mut o: Vec<usize> = ids.clone();
                if !left {
                    o.reverse();
                }
                let mut acc = ctx[o[0]].clone();
                let mut err = None;
                for j in &o[1..] {
                    st.transitions += 1;
                    let r = if left { merge(&acc, &ctx[*j], wild, Some(&mut cache)) } else { merge(&ctx[*j], &acc, wild, Some(&mut cache)) };
                    match r {
                        Ok(r) => acc = r,
                        Err(e) => {
                            err = Some(e);
                            break;
                        }
                    }
                }
                match err {
                    Some(e) => st.fail(show("sequence"), format!("{}\npanic: {}", show("sequence"), e)),
                    None => {
                        same(&acc, &want, &|| show(if left { "left" } else { "right" }), st);
                    }
                }
            }
            // two halves merged with one another
            if len >= 4 {
                let m = len / 2;
                let half = |xs: &[usize], cache: &mut MergeCache| -> Result<Ctx, String> {
                    let mut acc = ctx[xs[0]].clone();
                    for j in &xs[1..] {
                        acc = merge(&acc, &ctx[*j], wild, Some(cache))?;
                    }
                    Ok(acc)
                };
                let r = half(&ids[..m], &mut cache).and_then(|a| half(&ids[m..], &mut cache).and_then(|b| merge(&a, &b, wild, Some(&mut cache))));
                match r {
                    Err(e) => st.fail(show("halves"), format!("{}\npanic: {}", show("halves"), e)),
                    Ok(r) => {
                        same(&r, &want, &|| show("halves"), st);
                    }
                }
            }
            if st.failed() {
                return;
            }
        }
        st.outcome(&i);
    })
}

/// pushing onto merged stacks
fn push_plan(name: &str, states: isize, depth: usize, max: usize, wild: bool) -> Plan {
    let ss = sets(&all_stacks(states, depth), max, wild);
    let d = format!("all {} sets of stacks as above, pushed under every pair of return states and merged, {}", ss.len(), if wild { "wildcard" } else { "literal" });
    let n = ss.len();
    plan(name, d, n, move |i, st| {
        let mut cache = new_cache();
        for b in ss.iter() {
            for r1 in 1..=states {
                for r2 in 1..=states {
                    st.states += 1;
                    st.transitions += 1;
                    let up = |s: &Set, r: isize| -> Set {
                        s.iter()
                            .map(|x| {
                                let mut y = x.clone();
                                y.insert(0, r);
                                y
                            })
                            .collect()
                    };
                    let (sa, sb) = (up(&ss[i], r1), up(b, r2));
                    let want = union(&sa, &sb, wild);
                    let a = PredictionContext::new_singleton(Some(build(&ss[i], &mut None)), r1).alloc();
                    let c = PredictionContext::new_singleton(Some(build(b, &mut None)), r2).alloc();
                    let show = || format!("merge{} {:?} with {:?}", if wild { " (wildcard)" } else { "" }, sa, sb);
                    match merge(&a, &c, wild, Some(&mut cache)) {
                        Err(e) => st.fail(show(), format!("{}\npanic: {}", show(), e)),
                        Ok(r) => {
                            same(&r, &want, &show, st);
                        }
                    }
                    if st.failed() {
                        return;
                    }
                }
            }
        }
    })
}

pub fn c17(t: Tier) -> Vec<Plan> {
    let mut v = vec![];
    for wild in [false, true] {
        let w = if wild { " wildcard" } else { "" };
        v.push(pair_plan(&format!("narrow{}", w), 2, 2, 7, wild));
        v.push(pair_plan(&format!("wide{}", w), 3, 2, t.pick(3, 4), wild));
        v.push(pair_plan(&format!("deep{}", w), 2, 3, t.pick(3, 4), wild));
        v.push(pair_plan(&format!("deeper{}", w), 2, 4, 2, wild));
        v.push(pair_plan(&format!("flat{}", w), 6, 1, 7, wild));
        v.push(seq_plan(&format!("sequences{}", w), 2, 2, t.pick(5, 6), wild));
        v.push(seq_plan(&format!("deep sequences{}", w), 2, 3, t.pick(4, 5), wild));
        v.push(push_plan(&format!("push{}", w), 2, 2, t.pick(3, 7), wild));
    }
    v
}
