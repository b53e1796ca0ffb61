//! C01-C04: the lexer against the reference lexer.
use crate::enumg::*;
use crate::grammar::*;
use crate::interp::Loaded;
use crate::lexi::*;
use crate::p_hist::cache_key;
use crate::reflex::*;
use crate::refp::facts;
use crate::run::*;
use antlr_rust::char_stream::CharStream;
use antlr_rust::input_stream::*;
use antlr_rust::token_factory::*;
use std::collections::{HashSet, VecDeque};
use std::sync::Arc;

pub const A: i32 = 'a' as i32;
pub const B: i32 = 'b' as i32;
const NAMES: [&str; 8] = ["A", "B", "C", "D", "E", "F", "G", "H"];

fn lg(rules: Vec<Rule>, modes: usize, actions: Vec<(i32, i32, i32)>) -> Grammar {
    let n = rules.len() as i32;
    Grammar { lexer: true, rules, max_token: n.max(9), modes, actions }
}
pub fn plain_lexer(bodies: Vec<Vec<Vec<El>>>) -> Grammar {
    lg(rules(bodies), 1, vec![])
}
fn rules(bodies: Vec<Vec<Vec<El>>>) -> Vec<Rule> {
    bodies.into_iter().enumerate().map(|(i, b)| lrule(NAMES[i], i as i32 + 1, b)).collect()
}
fn ok(g: &Grammar) -> bool {
    let f = facts(g);
    f.productive && !f.left_recursive && !f.nullable_loop && g.rules.iter().enumerate().all(|(i, r)| r.fragment || !f.nullable[i])
}
pub fn shape(nongreedy: bool, block: bool) -> Shape {
    Shape { atoms: vec![El::Tok(A), El::Tok(B)], opt: true, star: true, plus: true, block, nongreedy, empty_alts: true }
}
fn text(s: &[i32]) -> String {
    s.iter().map(|c| char::from_u32(*c as u32).unwrap()).collect()
}
pub fn inputs(alpha: &[i32], n: usize) -> Arc<Vec<(Vec<i32>, String)>> {
    Arc::new(strings_of(alpha, n).into_iter().map(|s| (s.clone(), text(&s))).collect())
}
fn lkey(g: &Grammar, s: &str, sc: &Script) -> String {
    let x = if *sc == Script::default() { String::new() } else { format!(" {:?}", sc) };
    format!("{}{}| {:?}", g.show(), x, s)
}
/// byte offset of every symbol position
fn bytes(s: &str) -> Vec<isize> {
    let mut v: Vec<isize> = s.char_indices().map(|x| x.0 as isize).collect();
    v.push(s.len() as isize);
    v
}
/// the reference's output with its symbol positions turned into the stream's offsets
pub fn at_offsets(mut o: LOut, off: &[isize]) -> LOut {
    for t in &mut o.toks {
        t.start = off[t.start as usize];
        t.stop = off[(t.stop + 1) as usize] - 1;
    }
    for e in &mut o.errs {
        e.start = off[e.start as usize];
    }
    for a in &mut o.acts {
        a.2 = off[a.2 as usize];
    }
    o
}
fn diff(want: &LOut, got: &Result<LOut, String>) -> Option<String> {
    match got {
        Err(e) => Some(format!("panic {}", e)),
        Ok(g) => {
            if g.toks != want.toks {
                Some(format!("tokens {:?}\ninstead of {:?}", g.toks, want.toks))
            } else if g.errs != want.errs {
                Some(format!("errors {:?}\ninstead of {:?}", g.errs, want.errs))
            } else if g.acts != want.acts {
                Some(format!("actions {:?}\ninstead of {:?}", g.acts, want.acts))
            } else if g.modes != want.modes {
                Some(format!("ends in mode {:?}\ninstead of {:?}", g.modes, want.modes))
            } else {
                None
            }
        }
    }
}
/// all inputs through a lexer with cold caches and the reference
pub fn compare(g: &Grammar, ins: &[(Vec<i32>, String)], sc: &Script, st: &mut Stats) {
    let mut l = Loaded::new(compile(g));
    let r = RLex::new(g);
    for (sy, tx) in ins {
        if sc.emit_shift != 0 && sy.is_empty() {
            continue;
        }
        l.reset();
        let mut steps = 0;
        let want = at_offsets(r.lex(sy, sc, &mut steps), &bytes(tx));
        let got = guard(|| lex(&l, tx, sc));
        st.traces += 1;
        st.states += steps;
        st.transitions += sy.len() as u64;
        st.outcome(&want);
        if let Some(d) = diff(&want, &got) {
            st.fail(lkey(g, tx, sc), format!("{}{:?}\ninput {:?}: {}", g.show(), sc, tx, d));
            if st.failed() {
                return;
            }
        }
    }
}
fn lplan(name: &'static str, desc: String, gs: Vec<Grammar>, ins: Arc<Vec<(Vec<i32>, String)>>, scripts: Vec<Script>) -> Plan {
    let n = gs.len();
    let b = format!("{} ({} grammars); {} inputs; {} settings", desc, n, ins.len(), scripts.len());
    plan(name, b, n, move |i, st| {
        for sc in &scripts {
            compare(&gs[i], &ins, sc, st);
            if st.failed() {
                return;
            }
        }
    })
}
pub fn plain() -> Vec<Script> {
    vec![Script::default()]
}

/// `n` rules of weight <= `w`
pub fn tuples(n: usize, w: usize, sh: Shape) -> Vec<Grammar> {
    let e = Enum::new(sh, w);
    let bodies: Vec<_> = e.alts_upto(w).into_iter().filter(|a| ok(&lg(rules(vec![a.clone()]), 1, vec![]))).collect();
    let mut v: Vec<Vec<Vec<Vec<El>>>> = vec![vec![]];
    for _ in 0..n {
        v = v.iter().flat_map(|p| bodies.iter().map(move |b| [p.clone(), vec![b.clone()]].concat())).collect();
    }
    v.into_iter().map(|b| lg(rules(b), 1, vec![])).filter(|g| first_is_a(g)).collect()
}
/// a and b are interchangeable: keep the grammars that mention a first
fn first_is_a(g: &Grammar) -> bool {
    let s = g.show();
    match (s.find("'a'"), s.find("'b'")) {
        (Some(x), Some(y)) => x < y,
        (None, Some(_)) => false,
        _ => true,
    }
}
fn fragments(w0: usize, w1: usize) -> Vec<Grammar> {
    let e0 = Enum::new(shape(false, false).with(El::Rule(1, 0)), w0);
    let e1 = Enum::new(Shape { atoms: vec![El::Tok(A), El::Tok(B), El::Rule(1, 0)], ..shape(false, false) }, w1);
    let mut v = vec![];
    for t in e0.alts_upto(w0) {
        if uses(&t, &|e| matches!(e, El::Rule(..))) == 0 {
            continue;
        }
        for s in e1.alts_upto(w1) {
            let mut rs = rules(vec![t.clone(), s.clone(), vec![vec![El::Tok(B)]]]);
            rs[1].fragment = true;
            rs[2].token_type = 2;
            let g = lg(rs, 1, vec![]);
            if ok(&g) && first_is_a(&g) {
                v.push(g);
            }
        }
    }
    v
}
pub const WIDE: [i32; 8] = [0x0, 'a' as i32, 0x7f, 0x80, 0xd7ff, 0xffff, 0x10000, 0x10ffff];
fn wide_sets() -> Vec<Grammar> {
    let atoms = vec![
        El::Tok('a' as i32),
        El::Tok(0x7f),
        El::Tok(0x80),
        El::Tok(0xffff),
        El::Tok(0x10000),
        El::Tok(0x10ffff),
        El::Tok(0),
        El::Range(0x7f, 0x80),
        El::Range(0x80, 0x10ffff),
        El::Range(0, 0x7f),
        El::Range(0xd7ff, 0x10000),
        El::Range(0x10000, 0x10ffff),
        El::Set(vec![(0x7f, 0x7f), (0xffff, 0xffff)]),
        El::Set(vec![(0x61, 0x61), (0x10000, 0x10001)]),
        El::Set(vec![(0, 0), (0x10ffff, 0x10ffff)]),
        El::NotSet(vec![(0x61, 0x61)]),
        El::NotSet(vec![(0, 0x7f)]),
        El::NotSet(vec![(0x80, 0xffff)]),
        El::NotSet(vec![(0x10000, 0x10ffff)]),
        El::NotSet(vec![(0x10ffff, 0x10ffff)]),
        El::Wild,
    ];
    let mut v = vec![];
    for a in &atoms {
        for b in &atoms {
            v.push(lg(rules(vec![vec![vec![a.clone()]], vec![vec![b.clone()]]]), 1, vec![]));
            v.push(lg(rules(vec![vec![vec![a.clone(), b.clone()]], vec![vec![El::Plus(vec![vec![a.clone()]], true)]]]), 1, vec![]));
        }
    }
    v
}

pub fn c01(t: Tier) -> Vec<Plan> {
    let abc = [A, B, 'c' as i32];
    let mut v = vec![];
    let w = t.pick(4, 5);
    v.push(lplan("one", format!("one rule of weight <= {} over a, b", w), tuples(1, w, shape(false, true)), inputs(&abc, t.pick(6, 7)), plain()));
    let w = t.pick(3, 4);
    v.push(lplan("two", format!("two rules of weight <= {}", w), tuples(2, w, Shape { block: t.pick(true, false), ..shape(false, true) }), inputs(&abc, t.pick(4, 5)), plain()));
    v.push(lplan("three", "three rules of weight <= 2".into(), tuples(3, 2, shape(false, true)), inputs(&abc, t.pick(5, 6)), plain()));
    let (x, y) = t.pick((3, 3), (3, 4));
    v.push(lplan("fragment", format!("a rule of weight <= {} calling a fragment of weight <= {} that may call itself, and B: b", x, y), fragments(x, y), inputs(&abc, t.pick(5, 6)), plain()));
    v.push(lplan("sets", "pairs of rules over single characters, ranges, sets, complements and the wildcard at the borders of one, two, three and four byte characters".into(), wide_sets(), inputs(&WIDE, t.pick(3, 4)), plain()));
    v.push(lplan("eof", "rules that end in or consist of EOF".into(), eofs(), inputs(&abc[..2], t.pick(6, 9)), plain()));
    v.push(windows());
    v
}
/// T: [ab]* a [ab]{k} needs 2^(k+1) states in the cache; `d` shifts the numbers of its states. The cases are
/// ones where two of the states have the same 32 bit hash.
fn window(k: usize, d: usize) -> Grammar {
    let ab = || El::Set(vec![(A, B)]);
    let mut body = vec![El::Star(vec![vec![ab()]], true), El::Tok(A)];
    body.extend((0..k).map(|_| ab()));
    lg(rules(vec![vec![vec![El::Tok('c' as i32); d]], vec![body]]), 1, vec![])
}
fn windows() -> Plan {
    let cases = [(12usize, 28usize), (10, 1720), (13, 6)];
    plan("window", "lexers whose cache holds up to 2^14 states, some with equal hashes; one input holding every string of a window's length, each with a tail of j b and a stray c, j up to the window's length", cases.iter().map(|c| c.0 + 1).sum::<usize>(), move |i, st| {
        let (mut i, mut c) = (i, 0);
        while i > cases[c].0 {
            i -= cases[c].0 + 1;
            c += 1;
        }
        let (k, d) = cases[c];
        let mut sy = vec![];
        for w in 0..1u32 << (k + 1) {
            sy.extend((0..=k).map(|b| if w >> b & 1 == 1 { A } else { B }));
            sy.extend(vec![B; i]);
            sy.push('c' as i32);
        }
        let tx = text(&sy);
        compare(&window(k, d), &[(sy, tx)], &Script::default(), st);
    })
}
pub fn eofs() -> Vec<Grammar> {
    let e = || El::Tok(EOF);
    let (a, b) = (|| El::Tok(A), || El::Tok(B));
    vec![
        vec![vec![vec![a(), e()]], vec![vec![a()]], vec![vec![b()]]],
        vec![vec![vec![a()]], vec![vec![a(), e()]]],
        vec![vec![vec![a(), El::Star(vec![vec![b()]], true), El::Block(vec![vec![b(), b()], vec![e()]])]], vec![vec![b()]]],
        vec![vec![vec![El::Plus(vec![vec![a()]], true), El::Opt(vec![vec![e()]], true)]], vec![vec![a(), b()]]],
        vec![vec![vec![a(), El::Block(vec![vec![b()], vec![e(), e()]])]]],
        vec![vec![vec![a(), El::Set(vec![(EOF, EOF), (B, B)])]], vec![vec![b()]]],
    ]
    .into_iter()
    .map(|b| lg(rules(b), 1, vec![]))
    .collect()
}

// ---------------------------------------------------------------- C03 -----------------
/// command lists as lexer actions
fn commands() -> Vec<Vec<(i32, i32, i32)>> {
    vec![
        vec![],
        vec![(6, 0, 0)],
        vec![(3, 0, 0)],
        vec![(7, 7, 0)],
        vec![(0, 2, 0)],
        vec![(5, 1, 0)],
        vec![(4, 0, 0)],
        vec![(2, 1, 0)],
        vec![(3, 0, 0), (5, 1, 0)],
        vec![(3, 0, 0), (7, 7, 0), (0, 3, 0)],
        vec![(7, 8, 0), (0, 1, 0), (4, 0, 0)],
        vec![(6, 0, 0), (2, 0, 0)],
    ]
}
fn with_commands(rs: Vec<(Vec<El>, usize)>, cmds: &[&Vec<(i32, i32, i32)>]) -> Grammar {
    let mut acts = vec![];
    let mut v = vec![];
    for (i, (b, m)) in rs.into_iter().enumerate() {
        let mut b = b;
        for c in cmds[i] {
            b.push(El::Action(acts.len() as i32));
            acts.push(*c);
        }
        let mut r = lrule(NAMES[i], i as i32 + 1, vec![b]);
        r.mode = m;
        v.push(r);
    }
    lg(v, 2, acts)
}
pub fn command_grammars(n: usize) -> Vec<Grammar> {
    let cs = commands();
    let cs = &cs[..n];
    let mut v = vec![];
    for x in cs {
        for y in cs {
            for z in cs {
                for u in cs {
                    let rs = vec![
                        (vec![El::Tok(A)], 0),
                        (vec![El::Plus(vec![vec![El::Tok(B)]], true)], 0),
                        (vec![El::Tok(A)], 1),
                        (vec![El::Tok(B), El::Opt(vec![vec![El::Tok(A)]], true)], 1),
                    ];
                    v.push(with_commands(rs, &[x, y, z, u]));
                }
            }
        }
    }
    v
}
/// bodies with embedded actions 0 and 1, against a second and third rule
pub fn action_grammars(w: usize) -> Vec<Grammar> {
    let sh = Shape { atoms: vec![El::Tok(A), El::Tok(B), El::Action(0), El::Action(1)], opt: true, star: true, plus: false, block: true, nongreedy: false, empty_alts: false };
    let e = Enum::new(sh, w);
    let mut v = vec![];
    for b in e.alts_upto(w) {
        if uses(&b, &|e| matches!(e, El::Action(_))) == 0 {
            continue;
        }
        // the second rule has an action too, so rules compete with their actions
        let g = lg(rules(vec![b, vec![vec![El::Tok(A), El::Tok(B), El::Action(2)]], vec![vec![El::Tok(B)]]]), 1, vec![(1, 0, 0), (1, 0, 1), (1, 1, 2)]);
        if ok(&g) {
            v.push(g);
        }
    }
    v
}
/// the same with no other rule for these characters: a state of the DFA is reached with
/// different numbers of characters read
pub fn alone_actions(w: usize) -> Vec<Grammar> {
    action_grammars(w)
        .into_iter()
        .map(|mut g| {
            g.rules[1].alts = vec![vec![El::Tok('c' as i32), El::Action(2)]];
            g.rules[2].alts = vec![vec![El::Tok('d' as i32)]];
            g
        })
        .collect()
}
pub fn pred_grammars(w: usize) -> Vec<Grammar> {
    let sh = Shape { atoms: vec![El::Tok(A), El::Tok(B), El::Pred(0, false), El::Pred(1, false)], opt: true, star: true, plus: false, block: true, nongreedy: false, empty_alts: false };
    let e = Enum::new(sh, w);
    let mut v = vec![];
    for b in e.alts_upto(w) {
        if uses(&b, &|e| matches!(e, El::Pred(..))) == 0 {
            continue;
        }
        let g = lg(rules(vec![b, vec![vec![El::Tok(A), El::Opt(vec![vec![El::Tok(B)]], true)]]]), 1, vec![]);
        if ok(&g) {
            v.push(g);
        }
    }
    v
}
pub fn lazy_grammars(w: usize) -> Vec<Grammar> {
    let sh = Shape { atoms: vec![El::Tok(A), El::Tok(B), El::Wild], ..shape(true, true) };
    let e = Enum::new(sh, w);
    let lazy = |e: &El| matches!(e, El::Opt(_, false) | El::Star(_, false) | El::Plus(_, false));
    let mut v = vec![];
    for b in e.alts_upto(w) {
        if uses(&b, &lazy) == 0 {
            continue;
        }
        for other in [vec![vec![El::Tok(B)]], vec![vec![El::Tok(A), El::Plus(vec![vec![El::Tok(B)]], true), El::Tok(A)]]] {
            for order in [false, true] {
                let rs = if order { vec![other.clone(), b.clone()] } else { vec![b.clone(), other.clone()] };
                let g = lg(rules(rs), 1, vec![]);
                if ok(&g) {
                    v.push(g);
                }
            }
        }
    }
    v
}
/// the grammar with a line feed in place of b
fn lines(g: &Grammar) -> Grammar {
    fn el(e: &El) -> El {
        let alts = |v: &Vec<Vec<El>>| v.iter().map(|a| a.iter().map(el).collect()).collect();
        match e {
            El::Tok(B) => El::Tok(10),
            El::Block(v) => El::Block(alts(v)),
            El::Opt(v, x) => El::Opt(alts(v), *x),
            El::Star(v, x) => El::Star(alts(v), *x),
            El::Plus(v, x) => El::Plus(alts(v), *x),
            e => e.clone(),
        }
    }
    let mut g = g.clone();
    for r in &mut g.rules {
        r.alts = r.alts.iter().map(|a| a.iter().map(el).collect()).collect();
    }
    g
}
/// the rules in a second mode, entered by the skipped c and left by the token c
fn in_mode(g: &Grammar) -> Grammar {
    let n = g.actions.len() as i32;
    let mut rs = rules(vec![vec![vec![El::Tok('c' as i32), El::Action(n), El::Action(n + 1)]], vec![vec![El::Tok(A)]]]);
    let mut acts = g.actions.clone();
    acts.extend([(2, 1, 0), (6, 0, 0), (2, 0, 0)]);
    for a in acts.iter_mut().filter(|a| a.0 == 1) {
        a.1 += 2;
    }
    for r in &g.rules {
        let mut r = r.clone();
        r.token_type += 2;
        r.mode = 1;
        r.name = NAMES[rs.len()].into();
        rs.push(r);
    }
    let mut r = lrule(NAMES[rs.len()], rs.len() as i32 + 1, vec![vec![El::Tok('c' as i32), El::Action(n + 2)]]);
    r.mode = 1;
    rs.push(r);
    lg(rs, 2, acts)
}
/// comments, strings with escapes, nested comments, islands
pub fn real_lexers() -> Vec<(Grammar, Vec<i32>)> {
    let c = |c: char| El::Tok(c as i32);
    let s = |t: &str| t.chars().map(|x| El::Tok(x as i32)).collect::<Vec<_>>();
    let any = |g: bool| El::Star(vec![vec![El::Wild]], g);
    let cat = |v: Vec<Vec<El>>| v.concat();
    let al = |t: &str| t.chars().map(|x| x as i32).collect::<Vec<_>>();
    let word = || vec![El::Plus(vec![vec![El::Range('a' as i32, 'z' as i32)]], true)];
    let mut v = vec![];
    // /* ... */ and // ... newline
    v.push((
        lg(
            rules(vec![
                vec![cat(vec![s("/*"), vec![any(false)], s("*/"), vec![El::Action(0)]])],
                vec![cat(vec![s("//"), vec![El::Star(vec![vec![El::NotSet(vec![(10, 10)])]], true)], vec![El::Action(1)]])],
                vec![s("/")],
                vec![s("*")],
                vec![cat(vec![s("\n"), vec![El::Action(2)]])],
            ]),
            1,
            vec![(0, 1, 0), (0, 1, 0), (6, 0, 0)],
        ),
        al("/*\n"),
    ));
    // strings with escapes, non-greedy
    v.push((lg(rules(vec![vec![vec![c('"'), El::Star(vec![vec![c('\\'), c('"')], vec![El::Wild]], false), c('"')]], vec![word()]]), 1, vec![]), al("\"\\a")));
    v.push((lg(rules(vec![vec![vec![c('"'), El::Star(vec![vec![c('\\'), El::Wild], vec![El::NotSet(vec![('"' as i32, '"' as i32), ('\\' as i32, '\\' as i32)])]], true), c('"')]], vec![word()]]), 1, vec![]), al("\"\\a")));
    // nested comments by recursion
    v.push((lg(rules(vec![vec![vec![c('('), El::Star(vec![vec![El::Rule(0, 0)], vec![El::Wild]], false), c(')')]], vec![word()]]), 1, vec![]), al("()a")));
    // keyword versus identifier versus number
    v.push((lg(rules(vec![vec![s("ab")], vec![word()], vec![vec![El::Plus(vec![vec![El::Range('0' as i32, '9' as i32)]], true), El::Opt(vec![vec![c('.'), El::Star(vec![vec![El::Range('0' as i32, '9' as i32)]], true)]], true)]], vec![s(".")], vec![s("..")]]), 1, vec![]), al("ab0.")));
    // string mode with more
    {
        let mut rs = rules(vec![vec![cat(vec![s("\""), vec![El::Action(0), El::Action(1)]])], vec![word()], vec![cat(vec![s("\""), vec![El::Action(2), El::Action(3)]])], vec![vec![El::Wild, El::Action(4)]]]);
        rs[2].mode = 1;
        rs[3].mode = 1;
        v.push((lg(rs, 2, vec![(3, 0, 0), (2, 1, 0), (7, 5, 0), (2, 0, 0), (3, 0, 0)]), al("\"a?")));
    }
    // nested islands
    {
        let mut rs = rules(vec![vec![cat(vec![s("<"), vec![El::Action(0)]])], vec![vec![El::Plus(vec![vec![El::NotSet(vec![('<' as i32, '<' as i32)])]], true)]], vec![cat(vec![s(">"), vec![El::Action(1)]])], vec![cat(vec![s("<"), vec![El::Action(2)]])], vec![word()]]);
        rs[2].mode = 1;
        rs[3].mode = 1;
        rs[4].mode = 1;
        v.push((lg(rs, 2, vec![(5, 1, 0), (4, 0, 0), (5, 1, 0)]), al("<>a?")));
    }
    v
}

pub fn c03(t: Tier) -> Vec<Plan> {
    let abc = [A, B, 'c' as i32];
    let mut v = vec![];
    let n = t.pick(10, 12);
    v.push(lplan("commands", format!("four rules in two modes, each with one of {} command lists", n), command_grammars(n), inputs(&abc, t.pick(5, 6)), plain()));
    let scr = |a: Act| Script { acts: vec![a.clone(), Act::Log, a], ..Default::default() };
    let scripts: Vec<Script> = vec![Act::Log, Act::Type(9), Act::Channel(3), Act::Text("x".into()), Act::Token(6), Act::Skip, Act::More].into_iter().map(scr).collect();
    let mut scripts = scripts;
    for (a, b, c) in [(Act::Text("x".into()), Act::More, Act::Log), (Act::More, Act::Channel(3), Act::Type(9)), (Act::Channel(3), Act::More, Act::Skip), (Act::Token(6), Act::More, Act::Text("y".into())), (Act::More, Act::Type(9), Act::Token(6))] {
        scripts.push(Script { acts: vec![a, b, c], ..Default::default() });
    }
    let w = t.pick(4, 5);
    v.push(lplan("actions", format!("a rule of weight <= {} with embedded actions at any place, competing with two other rules; what the actions do varies", w), action_grammars(w), inputs(&abc[..2], t.pick(4, 5)), scripts));
    let mut ps = vec![];
    for m in 0..4 {
        ps.push(vec![LPred::Const(m & 1 != 0), LPred::Const(m & 2 != 0)]);
    }
    ps.push(vec![LPred::Even, LPred::Next(B)]);
    ps.push(vec![LPred::Next(A), LPred::Flag]);
    ps.push(vec![LPred::Flag, LPred::Even]);
    let some: Vec<Script> = ps[4..].iter().map(|preds| Script { preds: preds.clone(), ..Default::default() }).collect();
    let scripts: Vec<Script> = ps.into_iter().map(|preds| Script { preds, ..Default::default() }).collect();
    let w = t.pick(4, 5);
    v.push(lplan("predicates", format!("a rule of weight <= {} with two predicates at any places; constant, position- and lookahead-dependent, and changing predicates", w), pred_grammars(w), inputs(&abc, t.pick(4, 5)), scripts));
    let w = t.pick(3, 4);
    v.push(lplan("predicates-mode", format!("the same, weight <= {}, in a second mode", w), pred_grammars(w).iter().map(in_mode).collect(), inputs(&abc, t.pick(5, 6)), some));
    let at: Vec<Script> = [(vec![LPred::At, LPred::Const(true)], None), (vec![LPred::At, LPred::At], Some((7, 4)))].into_iter().map(|(preds, at)| Script { preds, at, ..Default::default() }).collect();
    v.push(lplan("predicates-at", format!("the same, weight <= {}, with a line feed for b, the predicates look at line and column", w), pred_grammars(w).iter().map(lines).collect(), inputs(&[A, 10], t.pick(5, 7)), at));
    let scr: Vec<Script> = [Act::Text("x".into()), Act::Type(9), Act::More].into_iter().map(|a| Script { acts: vec![a.clone(), Act::Log, a], ..Default::default() }).collect();
    v.push(lplan("actions-mode", format!("rules with embedded actions, weight <= {}, in a second mode", w), action_grammars(w).iter().map(in_mode).collect(), inputs(&abc, t.pick(5, 6)), scr));
    let w = t.pick(4, 5);
    v.push(lplan("nongreedy", format!("a rule of weight <= {} over a, b and the wildcard with non-greedy subrules, before or after another rule", w), lazy_grammars(w), inputs(&abc[..2], t.pick(6, 7)), plain()));
    for (k, (g, al)) in real_lexers().into_iter().enumerate() {
        let ins = inputs(&al, t.pick(if al.len() > 3 { 6 } else { 7 }, if al.len() > 3 { 8 } else { 10 }));
        // cut the inputs into slices so that they spread over the cores
        let slices = 64;
        let b = format!("{}; {} inputs", g.show(), ins.len());
        v.push(plan(format!("real{}", k), b, slices, move |i, st| {
            let part: Vec<_> = ins.iter().skip(i).step_by(slices).cloned().collect();
            compare(&g, &part, &Script::default(), st);
        }));
    }
    let mut sh = plain();
    sh[0].emit_shift = 20;
    v.push(lplan("before-emit", "three rules of weight <= 1, the token type changed by the emit callback".into(), tuples(3, 1, shape(false, true)), inputs(&abc, 4), sh));
    v
}

// ---------------------------------------------------------------- C02 -----------------
struct LLetter {
    tx: String,
    sc: Script,
}
fn explore(g: &Grammar, base: &mut Loaded, letters: &[LLetter], depth: usize, cap: usize, st: &mut Stats) {
    let mut cold = vec![];
    for l in letters {
        base.reset();
        cold.push(guard(|| lex(base, &l.tx, &l.sc)));
    }
    base.reset();
    let mut seen = HashSet::new();
    seen.insert(cache_key(base));
    let mut q = VecDeque::new();
    q.push_back(vec![]);
    let bad = |h: &[usize], i: usize, got: &Result<LOut, String>, st: &mut Stats| {
        let show = |i: usize| if letters[i].sc == Script::default() { format!("{:?}", letters[i].tx) } else { format!("{:?} {:?}", letters[i].tx, letters[i].sc.preds) };
        let hs: Vec<String> = h.iter().map(|i| show(*i)).collect();
        st.fail(format!("{}| {} after {:?}", g.show(), show(i), hs), format!("{}\nhistory {:?}, then {}\nwarm: {:?}\ncold: {:?}", g.show(), hs, show(i), got, cold[i]));
    };
    let same = |a: &Result<LOut, String>, b: &Result<LOut, String>| match (a, b) {
        (Ok(a), Ok(b)) => a.toks == b.toks && a.errs == b.errs && a.acts == b.acts && a.modes == b.modes,
        _ => a == b,
    };
    while let Some(h) = q.pop_front() {
        st.states += 1;
        for i in 0..letters.len() {
            base.reset();
            for x in &h {
                let l: &LLetter = &letters[*x];
                let _ = guard(|| lex(base, &l.tx, &l.sc));
            }
            let got = guard(|| lex(base, &letters[i].tx, &letters[i].sc));
            st.transitions += 1;
            st.traces += 1;
            if !same(&got, &cold[i]) {
                bad(&h, i, &got, st);
                if st.failed() {
                    return;
                }
            }
            if h.len() + 1 <= depth && seen.len() < cap && seen.insert(cache_key(base)) {
                let mut h2 = h.clone();
                h2.push(i);
                q.push_back(h2);
            }
        }
    }
    if seen.len() >= cap {
        st.count("grammars cut at the state cap", 1);
    }
    let n = letters.len();
    for rev in [false, true] {
        base.reset();
        let mut h = vec![];
        for j in 0..2 * n {
            let i = if rev { n - 1 - j % n } else { j % n };
            let got = guard(|| lex(base, &letters[i].tx, &letters[i].sc));
            st.traces += 1;
            st.transitions += 1;
            if !same(&got, &cold[i]) {
                bad(&h, i, &got, st);
                if st.failed() {
                    return;
                }
            }
            h.push(i);
        }
    }
    for c in cold.iter().flatten() {
        st.outcome(c);
    }
    st.count("grammars", 1);
}
fn hplan(name: &'static str, desc: String, gs: Vec<Grammar>, ins: Arc<Vec<(Vec<i32>, String)>>, scripts: Vec<Script>, depth: usize, cap: usize) -> Plan {
    let b = format!("{} ({} grammars); histories over {} inputs x {} settings, to depth {} and at most {} distinct cache states, then saturating histories", desc, gs.len(), ins.len(), scripts.len(), depth, cap);
    plan(name, b, gs.len(), move |i, st| {
        let g = &gs[i];
        let mut l = Loaded::new(compile(g));
        let letters: Vec<LLetter> = ins.iter().flat_map(|(_, tx)| scripts.iter().map(move |sc| LLetter { tx: tx.clone(), sc: sc.clone() })).collect();
        explore(g, &mut l, &letters, depth, cap, st);
    })
}
pub fn c02(t: Tier) -> Vec<Plan> {
    let abc = [A, B, 'c' as i32];
    let (d, cap) = t.pick((2, 40), (4, 400));
    let log = vec![Script { acts: vec![Act::Log; 3], ..Default::default() }];
    let preds: Vec<Script> = [vec![LPred::Const(false), LPred::Even], vec![LPred::Const(true), LPred::Const(false)], vec![LPred::Even, LPred::Const(true)]]
        .into_iter()
        .map(|preds| Script { preds, ..Default::default() })
        .collect();
    let mode_scripts: Vec<Script> = preds.iter().map(|s| Script { acts: log[0].acts.clone(), ..s.clone() }).collect();
    let mut v = vec![
        hplan("actions", format!("a rule of weight <= {} with embedded actions, competing with two other rules", t.pick(4, 5)), action_grammars(t.pick(4, 5)), inputs(&abc[..2], 3), log.clone(), d, cap),
        hplan("positions", format!("a rule of weight <= {} with embedded actions, alone", t.pick(4, 5)), alone_actions(t.pick(4, 5)), inputs(&abc[..2], 4), log.clone(), d, cap),
        hplan("predicates", format!("a rule of weight <= {} with predicates whose values change between inputs", t.pick(3, 4)), pred_grammars(t.pick(3, 4)), inputs(&abc[..2], t.pick(2, 3)), preds, d, cap),
        hplan("modes", format!("rules with actions and predicates of weight <= {} in a second mode", t.pick(2, 3)), action_grammars(t.pick(2, 3)).iter().chain(&pred_grammars(t.pick(2, 3))).map(in_mode).collect(), inputs(&abc, 3), mode_scripts, d, t.pick(20, 100)),
        hplan("plain", format!("two rules of weight <= {}", t.pick(2, 3)), tuples(2, t.pick(2, 3), shape(false, true)), inputs(&abc, t.pick(3, 3)), plain(), d, cap),
        hplan("nongreedy", format!("non-greedy rules of weight <= {}", t.pick(3, 4)), lazy_grammars(t.pick(3, 4)), inputs(&abc[..2], t.pick(3, 4)), plain(), d, cap),
        hplan("commands", "four rules in two modes with commands".into(), command_grammars(t.pick(5, 8)), inputs(&abc, 2), plain(), d, t.pick(20, 100)),
        hplan("sets", "pairs of rules over ranges, sets, complements and the wildcard up to the last character".into(), wide_sets(), inputs(&WIDE, t.pick(1, 2)), plain(), d, cap),
        hplan("eof", "rules with EOF".into(), eofs(), inputs(&abc[..2], 4), plain(), 3, 400),
    ];
    let rs = real_lexers();
    for (k, (g, al)) in rs.into_iter().enumerate() {
        v.push(hplan(["real0", "real1", "real2", "real3", "real4", "real5", "real6"][k], g.show(), vec![g.clone()], inputs(&al, t.pick(3, 4)), plain(), t.pick(3, 6), t.pick(100, 1000)));
    }
    v
}

// ---------------------------------------------------------------- C04 -----------------
fn check_kind<'i, I, TF>(what: &str, l: &Loaded, make: impl Fn() -> I, tf: &'i TF, sc: &Script, want: &LOut, st: &mut Stats) -> Result<(), String>
where
    I: CharStream<TF::From> + 'i,
    TF: TokenFactory<'i> + 'i,
{
    st.traces += 1;
    let got = guard(|| lex_with(l, make(), tf, sc));
    if let Some(d) = diff(want, &got) {
        return Err(format!("{}: {}", what, d));
    }
    // through a token stream: the same tokens with their positions as indices
    let s = guard(|| lex_stream(l, make(), tf, sc)).map_err(|e| format!("{} stream: {}", what, e))?;
    let mut w = want.toks.clone();
    for (i, t) in w.iter_mut().enumerate() {
        t.index = i as isize;
    }
    if s != w {
        return Err(format!("{} stream: tokens {:?}\ninstead of {:?}", what, s, w));
    }
    // text of the token's range is the token's text
    let input = make();
    for t in &want.toks {
        if t.ty != -1 {
            let x = TF::get_data(input.get_text(t.start, t.stop));
            let x = antlr_rust::char_stream::InputData::to_display(&*x);
            if x != t.text && sc.acts.is_empty() {
                return Err(format!("{}: text of {}..{} is {:?}, the token's {:?}", what, t.start, t.stop, x, t.text));
            }
        }
    }
    Ok(())
}
fn kinds(g: &Grammar, l: &mut Loaded, r: &RLex, sy: &[i32], tx: &str, sc: &Script, st: &mut Stats) -> Result<(), String> {
    let mut steps = 0;
    let m = r.lex(sy, sc, &mut steps);
    st.states += steps;
    st.outcome(&m);
    let by = at_offsets(m.clone(), &bytes(tx));
    let own: Box<str> = tx.into();
    let u32s: Vec<u32> = sy.iter().map(|c| *c as u32).collect();
    l.reset();
    static CF: CommonTokenFactory = CommonTokenFactory;
    static OF: OwningTokenFactory = OwningTokenFactory;
    let (ac, ao) = (ArenaCommonFactory::default(), ArenaOwningFactory::default());
    check_kind("&str, common", l, || InputStream::new(tx), &CF, sc, &by, st)?;
    check_kind("&str, owning", l, || InputStream::new(tx), &OF, sc, &by, st)?;
    check_kind("Box<str>, common", l, || InputStream::new_owned(own.clone()), &CF, sc, &by, st)?;
    check_kind("Box<str>, owning", l, || InputStream::new_owned(own.clone()), &OF, sc, &by, st)?;
    check_kind("&str, arena owning", l, || InputStream::new(tx), unsafe_long(&ao), sc, &by, st)?;
    check_kind("&str, arena common", l, || InputStream::new(tx), unsafe_long(&ac), sc, &by, st)?;
    check_kind("&[u32], common", l, || CodePoint32BitCharStream::new(&u32s[..]), &CF, sc, &m, st)?;
    check_kind("&[u32], owning", l, || CodePoint32BitCharStream::new(&u32s[..]), &OF, sc, &m, st)?;
    if sy.iter().all(|c| *c <= 0xffff) {
        let x: Vec<u16> = sy.iter().map(|c| *c as u16).collect();
        check_kind("&[u16], common", l, || CodePoint16BitCharStream::new(&x[..]), &CF, sc, &m, st)?;
        check_kind("&[u16], owning", l, || CodePoint16BitCharStream::new(&x[..]), &OF, sc, &m, st)?;
    }
    if sy.iter().all(|c| *c <= 0xff) {
        let x: Vec<u8> = sy.iter().map(|c| *c as u8).collect();
        check_kind("&[u8], common", l, || CodePoint8BitCharStream::new(&x[..]), &CF, sc, &m, st)?;
        check_kind("&[u8], owning", l, || ByteStream::new(&x[..]), &OF, sc, &m, st)?;
    }
    let _ = g;
    Ok(())
}
pub fn unsafe_long<'a, T>(x: &T) -> &'a T {
    // the arena outlives every use below; the tokens are dropped before it
    unsafe { &*(x as *const T) }
}
fn text_lexers() -> Vec<Grammar> {
    let c = |c: char| El::Tok(c as i32);
    let r = |a: char, b: char| El::Range(a as i32, b as i32);
    let plus = |e: El| El::Plus(vec![vec![e]], true);
    let mut v = vec![];
    v.push(lg(rules(vec![vec![vec![plus(r('a', 'z'))]], vec![vec![plus(r('\u{80}', '\u{10ffff}'))]], vec![vec![c('\n'), El::Action(0)]]]), 1, vec![(0, 1, 0)]));
    v.push(lg(rules(vec![vec![vec![El::Wild]], vec![vec![c('a'), c('\n'), El::Wild]]]), 1, vec![]));
    v.push(lg(rules(vec![vec![vec![c('a'), El::Star(vec![vec![El::Wild]], false), c('é')]], vec![vec![plus(c('\n')), El::Action(0)]], vec![vec![c('は')]]]), 1, vec![(6, 0, 0)]));
    v.push(lg(rules(vec![vec![vec![El::NotSet(vec![(10, 10)]), El::Opt(vec![vec![c('\n'), c('\n')]], true)]]]), 1, vec![]));
    // several pieces make one token
    v.push(lg(rules(vec![vec![vec![c('\n'), El::Action(0)]], vec![vec![c('é'), El::Action(1)]], vec![vec![c('a')]], vec![vec![c('😀'), c('\n')]]]), 1, vec![(3, 0, 0), (3, 0, 0)]));
    v
}
pub fn c04(t: Tier) -> Vec<Plan> {
    let al: Vec<i32> = "a\né😀は".chars().map(|c| c as i32).collect();
    let n = t.pick(5, 6);
    let ins = inputs(&al, n);
    let mut v = vec![];
    for (k, g) in text_lexers().into_iter().enumerate() {
        let ins = ins.clone();
        let slices = 64;
        let b = format!("{}; all {} inputs over letters of 1 to 4 bytes and line feeds up to length {}, as &str, Box<str>, bytes, 16 and 32 bit code points, with four token factories, directly and through a token stream, also from another initial line and column", g.show(), ins.len(), n);
        v.push(plan(format!("text{}", k), b, slices, move |i, st| {
            let mut l = Loaded::new(compile(&g));
            let r = RLex::new(&g);
            for (sy, tx) in ins.iter().skip(i).step_by(slices) {
                for sc in [Script::default(), Script { at: Some((7, 3)), ..Default::default() }] {
                    if let Err(e) = kinds(&g, &mut l, &r, sy, tx, &sc, st) {
                        st.fail(lkey(&g, tx, &sc), format!("{}\ninput {:?} {:?}: {}", g.show(), tx, sc.at, e));
                        if st.failed() {
                            return;
                        }
                    }
                }
            }
        }));
    }
    // characters that other conventions count as line or record ends
    {
        let odd: Vec<i32> = (0..=0x20).chain([0x7f, 0x80, 0x85, 0xa0, 0xad, 0xff, 0x100, 0x7ff, 0x800, 0x2028, 0x2029, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff]).collect();
        let five: Vec<i32> = vec![10, 13, 0x2028, 9, 0];
        let mut ins: Vec<(Vec<i32>, String)> = inputs(&odd, 2).to_vec();
        ins.extend(inputs(&five, t.pick(4, 6)).iter().cloned());
        let ins = Arc::new(ins);
        for (k, g) in text_lexers().into_iter().enumerate().filter(|x| x.0 == 0 || x.0 == 1 || x.0 == 3) {
            let ins = ins.clone();
            let slices = 16;
            let b = format!("{}; {} inputs: control characters, separators and the largest of each length, in the same representations", g.show(), ins.len());
            v.push(plan(format!("control{}", k), b, slices, move |i, st| {
                let mut l = Loaded::new(compile(&g));
                let r = RLex::new(&g);
                for (sy, tx) in ins.iter().skip(i).step_by(slices) {
                    let sc = Script::default();
                    if let Err(e) = kinds(&g, &mut l, &r, sy, tx, &sc, st) {
                        st.fail(lkey(&g, tx, &sc), format!("{}\ninput {:?}: {}", g.show(), tx, e));
                        return;
                    }
                }
            }));
        }
    }
    // overridden text
    {
        let g = lg(rules(vec![vec![vec![El::Tok(A), El::Action(0)]], vec![vec![El::Tok(A), El::Tok('é' as i32)]], vec![vec![El::Tok(10)]]]), 1, vec![(1, 0, 0)]);
        let sc = Script { acts: vec![Act::Text("ö".into())], ..Default::default() };
        let ins = inputs(&al[..3], n);
        v.push(plan("override", format!("{} with the action replacing the text; {} inputs", g.show(), ins.len()), 1, move |_, st| {
            let mut l = Loaded::new(compile(&g));
            let r = RLex::new(&g);
            for (sy, tx) in ins.iter() {
                if let Err(e) = kinds(&g, &mut l, &r, sy, tx, &sc, st) {
                    st.fail(lkey(&g, tx, &sc), format!("{}\ninput {:?}: {}", g.show(), tx, e));
                    return;
                }
            }
        }));
    }
    v
}
