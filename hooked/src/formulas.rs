//! C23: predicate formulas. Every and/or combination of a few predicates up to a number of
//! leaves is built with the runtime's constructors and evaluated under every assignment and
//! precedence level; the value must be that of the combination.
use crate::grammar::*;
use crate::interp::*;
use crate::run::*;
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::semantic_context::SemanticContext;
use antlr_rust::semantic_context::SemanticContext::*;
use antlr_rust::DefaultErrorStrategy;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
enum F {
    Leaf(usize),
    And(Box<F>, Box<F>),
    Or(Box<F>, Box<F>),
}
/// the leaves: predicates 0..=2 (2 context dependent), precedences, the constant true
fn leaf(i: usize) -> SemanticContext {
    match i {
        0 | 1 => Predicate { rule_index: 0, pred_index: i as isize, is_ctx_dependent: false },
        2 => Predicate { rule_index: 1, pred_index: 2, is_ctx_dependent: true },
        3..=5 => Precedence(i as isize - 2),
        _ => SemanticContext::NONE,
    }
}
const LEAVES: usize = 7;
const MASKS: u64 = 8;
const LEVELS: isize = 5;
fn value(f: &F, mask: u64, level: isize) -> bool {
    match f {
        F::Leaf(i @ 0..=2) => mask >> i & 1 == 1,
        F::Leaf(i @ 3..=5) => *i as isize - 2 >= level,
        F::Leaf(_) => true,
        F::And(a, b) => value(a, mask, level) && value(b, mask, level),
        F::Or(a, b) => value(a, mask, level) || value(b, mask, level),
    }
}
fn show(f: &F) -> String {
    match f {
        F::Leaf(i @ 0..=2) => format!("p{}", i),
        F::Leaf(i @ 3..=5) => format!("prec>={}", i - 2),
        F::Leaf(_) => "true".into(),
        F::And(a, b) => format!("({} & {})", show(a), show(b)),
        F::Or(a, b) => format!("({} | {})", show(a), show(b)),
    }
}
/// built with the runtime's constructors; `flip` swaps every pair of arguments
fn make(f: &F, flip: bool) -> SemanticContext {
    let ab = |a: &F, b: &F| if flip { (make(b, flip), make(a, flip)) } else { (make(a, flip), make(b, flip)) };
    match f {
        F::Leaf(i) => leaf(*i),
        F::And(a, b) => {
            let (a, b) = ab(a, b);
            SemanticContext::and(Some(&a), Some(&b))
        }
        F::Or(a, b) => {
            let (a, b) = ab(a, b);
            SemanticContext::or(Some(&a), Some(&b))
        }
    }
}
fn has_prec(s: &SemanticContext) -> bool {
    match s {
        Precedence(_) => true,
        AND(o) | OR(o) => o.iter().any(has_prec),
        _ => false,
    }
}
fn hash_of(s: &SemanticContext) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}
/// simplified as far as the constructors promise
fn malformed(s: &SemanticContext) -> Option<&'static str> {
    let ops = match s {
        AND(o) | OR(o) => o,
        _ => return None,
    };
    let and = matches!(s, AND(_));
    if ops.len() < 2 {
        return Some("fewer than two operands");
    }
    for (i, o) in ops.iter().enumerate() {
        if *o == SemanticContext::NONE {
            return Some("the constant among the operands");
        }
        if matches!((and, o), (true, AND(_)) | (false, OR(_))) {
            return Some("an operand of the same kind");
        }
        if ops[..i].contains(o) {
            return Some("an operand twice");
        }
        if matches!(o, Precedence(_)) && ops[..i].iter().any(|x| matches!(x, Precedence(_))) {
            return Some("two precedence predicates");
        }
        if let Some(x) = malformed(o) {
            return Some(x);
        }
    }
    None
}

/// the formula at an index among those with `n` leaves
fn count(n: usize) -> usize {
    if n == 1 {
        return LEAVES;
    }
    (1..n).map(|k| 2 * count(k) * count(n - k)).sum()
}
fn nth(n: usize, mut i: usize) -> F {
    if n == 1 {
        return F::Leaf(i);
    }
    for k in 1..n {
        let c = 2 * count(k) * count(n - k);
        if i < c {
            let op = i % 2;
            let j = i / 2;
            let (a, b) = (Box::new(nth(k, j % count(k))), Box::new(nth(n - k, j / count(k))));
            return if op == 0 { F::And(a, b) } else { F::Or(a, b) };
        }
        i -= c;
    }
    unreachable!()
}

pub fn c23(t: Tier) -> Vec<Plan> {
    let mut v = vec![];
    for n in 1..=t.pick(4, 5) {
        let total = count(n);
        let chunks = 512.min(total);
        let d = format!("all {} and/or combinations of {} leaves out of 3 predicates, 3 precedence predicates and the constant; {} assignments x {} precedence levels, argument order kept and swapped", total, n, MASKS, LEVELS);
        v.push(plan(format!("{} leaves", n), d, chunks, move |c, st| {
            use El::*;
            let g = parser_grammar(vec![prule("r0", vec![vec![Tok(1), Tok(EOF)]]), prule("r1", vec![vec![Tok(1)]])], 3);
            let l = Loaded::new(compile(&g));
            let ts = stoks(&[1, 1]);
            let mut p = VParser::new(&l, CommonTokenStream::new(ListSource::new(&ts)), DefaultErrorStrategy::<VCtxType>::new(), antlr_rust::PredictionMode::LL, Preds::Mask(0));
            let ctx = new_ctx(None, -1, 1);
            let node: std::rc::Rc<Node> = ctx.clone();
            let outer = new_ctx(None, -1, 0);
            let outer: std::rc::Rc<Node> = outer;
            let mut i = c;
            while i < total {
                let f = nth(n, i);
                i += chunks;
                st.states += 1;
                let r = guard(|| {
                    let s = make(&f, false);
                    let s2 = make(&f, true);
                    let s3 = make(&f, false);
                    if s != s3 || hash_of(&s) != hash_of(&s3) {
                        return Err(format!("built twice: {:?} and {:?} are not equal", s, s3));
                    }
                    if s != s2 || hash_of(&s) != hash_of(&s2) {
                        return Err(format!("built with the arguments swapped: {:?} and {:?} are not equal", s, s2));
                    }
                    if let Some(m) = malformed(&s) {
                        return Err(format!("{} in {:?}", m, s));
                    }
                    for level in 0..LEVELS {
                        p.base.enter_recursion_rule(ctx.clone(), 0, 1, level);
                        let e = antlr_rust::verif::eval_precedence(&s, &p.base, &*node);
                        if let Some(e) = &e {
                            if has_prec(e) {
                                return Err(format!("evaluating the precedences of {:?} at level {} leaves {:?}", s, level, e));
                            }
                            if let Some(m) = malformed(e) {
                                return Err(format!("{} in {:?}, evaluated from {:?} at level {}", m, e, s, level));
                            }
                        }
                        for mask in 0..MASKS {
                            st.transitions += 1;
                            p.base.preds = Preds::Mask(mask);
                            p.base.pred_log.borrow_mut().clear();
                            let want = value(&f, mask, level);
                            let got = antlr_rust::verif::evaluate(&s, &mut p.base, &*outer);
                            if got != want {
                                return Err(format!("{:?} is {} at level {} with predicates {:03b}", s, got, level, mask));
                            }
                            for (p, _, c, _) in p.base.pred_log.borrow().iter() {
                                if *p >= 0 && *c != if *p == 2 { Some(0) } else { None } {
                                    return Err(format!("predicate {} was asked with the context {:?}", p, c));
                                }
                            }
                            let got = match &e {
                                None => false,
                                Some(e) => antlr_rust::verif::evaluate(e, &mut p.base, &*outer),
                            };
                            if got != want {
                                return Err(format!("{:?} evaluated at level {} to {:?}, which is {} with predicates {:03b}", s, level, e, got, mask));
                            }
                        }
                    }
                    st.outcome(&s);
                    Ok(())
                });
                st.traces += 1;
                let e = match r {
                    Ok(Ok(())) => continue,
                    Ok(Err(e)) => e,
                    Err(e) => format!("panic: {}", e),
                };
                st.fail(show(&f), format!("{}\n{}", show(&f), e));
                if st.failed() {
                    return;
                }
            }
        }));
    }
    v
}
