//! C32: who owns what. Repeated work leaves no memory behind, and a tree, or any part of it
//! that is held, lives exactly as long as it is held.
use crate::enumg::strings;
use crate::fam::*;
use crate::grammar::*;
use crate::interp::*;
use crate::lexi::*;
use crate::p_core::{key, over_families};
use crate::p_lex::{inputs, lazy_grammars, plain, real_lexers, shape, tuples};
use crate::p_pred::guarded;
use crate::run::*;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::rule_context::RuleContext;
use antlr_rust::tree::Tree;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::rc::{Rc, Weak};

thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) } }
pub struct Counting;
fn count(n: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
/// bytes that `f` and what it returns leave behind
fn leftover<X>(f: impl FnOnce() -> X) -> i64 {
    let b = LIVE.with(|c| c.get());
    drop(f());
    LIVE.with(|c| c.get()) - b
}

struct Seen<'i> {
    node: Weak<Node<'i>>,
    parent: Option<usize>,
    is_rule: bool,
}
fn collect<'i>(n: &Rc<Node<'i>>, parent: Option<usize>, v: &mut Vec<Seen<'i>>) {
    let me = v.len();
    v.push(Seen { node: Rc::downgrade(n), parent, is_rule: n.get_rule_index() != usize::MAX });
    for c in n.get_children() {
        collect(&c, Some(me), v);
    }
}
/// the tree of one parse, with the parser gone
fn tree<'i>(l: &'i Loaded, toks: &'i [STok], cfg: &Cfg) -> (Option<Rc<Node<'i>>>, Option<T>) {
    let mut keep = None;
    let o = parse_with(l, CommonTokenStream::new(ListSource::new(toks)), cfg, &mut |_, t| keep = t.map(|t| t.clone() as Rc<Node<'i>>));
    (keep, o.tree)
}
fn lifetimes(l: &Loaded, toks: &[STok], cfg: &Cfg, st: &mut Stats) -> Result<(), String> {
    let (root, t) = tree(l, toks, cfg);
    let root = match root {
        Some(r) => r,
        None => return Ok(()),
    };
    let mut v = vec![];
    collect(&root, None, &mut v);
    let n = v.len();
    let t = t.unwrap();
    if to_t(&*root) != t {
        return Err(format!("the tree {} becomes {} once the parser is gone", t.show(), to_t(&*root).show()));
    }
    for (i, s) in v.iter().enumerate() {
        let x = s.node.upgrade().ok_or("a node of a tree that is held is gone")?;
        if !s.is_rule {
            continue;
        }
        st.transitions += 1;
        let p = x.get_parent_ctx();
        let w = s.parent.map(|k| v[k].node.upgrade().unwrap());
        if p.as_ref().map(|p| Rc::as_ptr(p) as *const u8) != w.as_ref().map(|p| Rc::as_ptr(p) as *const u8) {
            return Err(format!("node {} of {}: the parent is {} another node", i, t.show(), if p.is_some() { "" } else { "gone instead of" }));
        }
    }
    st.outcome(&t);
    drop(root);
    if v.iter().any(|s| s.node.upgrade().is_some()) {
        return Err(format!("nodes of {} survive", t.show()));
    }
    // any part alone
    for k in 1..n {
        let (root, _) = tree(l, toks, cfg);
        let root = root.unwrap();
        let mut v = vec![];
        collect(&root, None, &mut v);
        let part = v[k].node.upgrade().unwrap();
        let before = to_t(&*part);
        drop(root);
        st.traces += 1;
        let mut inside = vec![false; n];
        inside[k] = true;
        for i in k + 1..n {
            inside[i] = v[i].parent.map_or(false, |p| inside[p]);
        }
        for i in 0..n {
            if v[i].node.upgrade().is_some() != inside[i] {
                return Err(format!("node {} of {} is {} while only node {} is held", i, t.show(), if inside[i] { "gone" } else { "kept" }, k));
            }
        }
        if to_t(&*part) != before || part.get_parent_ctx().is_some() {
            return Err(format!("node {} of {} changes when the rest goes", k, t.show()));
        }
        drop(part);
        if v.iter().any(|s| s.node.upgrade().is_some()) {
            return Err(format!("parts of node {} of {} survive", k, t.show()));
        }
    }
    Ok(())
}

fn grammar(g: &Grammar, ins: &[Vec<i32>], cfgs: &[Cfg], parts: usize, st: &mut Stats) {
    let l = Loaded::new(compile(g));
    for cfg in cfgs {
        for input in ins {
            let toks = stoks(input);
            let bad = |st: &mut Stats, e: String| st.fail(key(g, input), format!("{}\ninput {:?}, {:?}: {}", g.show(), input, cfg, e));
            let r = guard(|| {
                parse(&l, &toks, cfg);
                parse(&l, &toks, cfg);
                leftover(|| parse(&l, &toks, cfg))
            });
            st.traces += 3;
            match r {
                Err(_) => continue, // other properties
                Ok(0) => {}
                Ok(n) => bad(st, format!("another parse leaves {} bytes behind", n)),
            }
            if input.len() <= parts {
                st.states += 1;
                match guard(|| {
                    let mut x = Stats::default();
                    (lifetimes(&l, &toks, cfg, &mut x), x)
                }) {
                    Ok((Ok(()), x)) => {
                        st.transitions += x.transitions;
                        st.traces += x.traces;
                        st.outcomes.extend(x.outcomes);
                    }
                    Ok((Err(e), _)) | Err(e) => bad(st, e),
                }
            }
            if st.failed() {
                return;
            }
        }
    }
    st.count("grammars", 1);
    st.sample(|| g.show());
}

pub fn c32(t: Tier) -> Vec<Plan> {
    let cfgs = || {
        let mut v = vec![Cfg::new(Mode::LL), Cfg::new(Mode::Sll).bail(), Cfg::new(Mode::Exact).listening().labels(), Cfg::new(Mode::LL), Cfg::new(Mode::LL)];
        v[3].build_tree = false;
        v[4].unbuffered = true;
        v[4].diagnose = Some(true);
        v
    };
    let parts = t.pick(3, 4);
    let mut v = over_families(
        t.pick(1, 2),
        move |f| match (f.alpha, t) {
            (2, Tier::Quick) => 4,
            (2, _) => 6,
            (3, Tier::Quick) => 3,
            (3, _) => 5,
            (_, Tier::Quick) => 2,
            _ => 3,
        },
        move |g, ins, st| grammar(g, ins, &cfgs(), parts, st),
    );
    for f in families(0) {
        if f.alpha != 2 {
            continue;
        }
        let ins = strings(2, t.pick(3, 5));
        let gs = f.gs;
        let b = format!("{} ({} grammars) with one predicate, true or false; all strings over 2 tokens up to length {}", f.desc, gs.len(), t.pick(3, 5));
        v.push(plan(format!("{} with predicates", f.name), b, gs.len(), move |i, st| {
            for g in guarded(&gs[i], 1) {
                grammar(&g, &ins, &[Cfg::new(Mode::LL).preds(Preds::Mask(0)), Cfg::new(Mode::LL)], 2, st);
                if st.failed() {
                    return;
                }
            }
        }));
    }
    let abc = ['a' as i32, 'b' as i32, 'c' as i32];
    let mut lp = |name: &str, desc: String, gs: Vec<Grammar>, ins: std::sync::Arc<Vec<(Vec<i32>, String)>>| {
        let b = format!("{} ({} grammars); {} inputs, each read three times", desc, gs.len(), ins.len());
        v.push(plan(format!("lexer: {}", name), b, gs.len(), move |i, st| {
            let l = Loaded::new(compile(&gs[i]));
            let sc = &plain()[0];
            for (_, text) in ins.iter() {
                let r = guard(|| {
                    lex(&l, text, sc);
                    lex(&l, text, sc);
                    leftover(|| lex(&l, text, sc))
                });
                st.traces += 3;
                st.states += 1;
                if let Ok(n) = r {
                    if n != 0 {
                        st.fail(format!("{}| {:?}", gs[i].show(), text), format!("{}\ninput {:?}: reading it again leaves {} bytes behind", gs[i].show(), text, n));
                    }
                }
                if st.failed() {
                    return;
                }
            }
        }));
    };
    lp("plain", format!("two rules of weight <= {}", t.pick(2, 3)), tuples(2, t.pick(2, 3), shape(false, true)), inputs(&abc, t.pick(4, 5)));
    lp("nongreedy", format!("non-greedy rules of weight <= {}", t.pick(3, 4)), lazy_grammars(t.pick(3, 4)), inputs(&abc[..2], t.pick(4, 5)));
    for (k, (g, al)) in real_lexers().into_iter().enumerate() {
        lp(&format!("real{}", k), g.show(), vec![g.clone()], inputs(&al, t.pick(3, 4)));
    }
    v
}
