//! Reference lexer: runs the rules as ordered lists of threads over the grammar's syntax
//! tree (no state machine, no caches), with explicit call stacks and action lists.
use crate::grammar::*;
use crate::lexi::*;
use std::collections::HashSet;

#[derive(Clone, Debug)]
enum Ins {
    /// matched ranges; EOF is (-1,-1)
    Sym(Vec<(i32, i32)>),
    /// places to go on at, in order of preference; entered through a non-greedy choice
    Split(Vec<usize>, bool),
    Call(usize),
    Act(i32),
    Pred(i32),
    Ret,
}
pub struct RLex<'g> {
    g: &'g Grammar,
    code: Vec<Vec<Ins>>,
    /// the furthest symbol there was a reason to look at by the end of every token
    pub reach: std::cell::RefCell<Vec<usize>>,
}
/// a text as messages show it
pub fn esc(s: &str) -> String {
    s.replace('\t', "\\t").replace('\n', "\\n").replace('\r', "\\r")
}
pub const MAXC: i32 = 0x10FFFF;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Th {
    rule: usize,
    pc: usize,
    stack: Vec<(usize, usize)>,
    /// actions passed, with the position they stand at
    acts: Vec<(i32, usize)>,
    nongreedy: bool,
    alt: usize,
}

fn gen(els: &[El], out: &mut Vec<Ins>) {
    for e in els {
        match e {
            El::Tok(t) => out.push(Ins::Sym(vec![(*t, *t)])),
            El::Range(a, b) => out.push(Ins::Sym(vec![(*a, *b)])),
            El::Set(s) => out.push(Ins::Sym(s.clone())),
            El::Wild => out.push(Ins::Sym(vec![(0, MAXC)])),
            El::NotSet(s) => {
                let mut v = vec![];
                let mut from = 0;
                let mut s = s.clone();
                s.sort();
                for (a, b) in s {
                    if a > from {
                        v.push((from, a - 1));
                    }
                    from = from.max(b + 1);
                }
                if from <= MAXC {
                    v.push((from, MAXC));
                }
                out.push(Ins::Sym(v));
            }
            El::Rule(r, _) => out.push(Ins::Call(*r)),
            El::Action(i) => out.push(Ins::Act(*i)),
            El::Pred(i, _) => out.push(Ins::Pred(*i)),
            El::Prec(_) => unreachable!(),
            El::Block(alts) => choice(alts, None, out),
            El::Opt(alts, greedy) => choice(alts, Some(*greedy), out),
            El::Star(alts, greedy) => {
                let top = out.len();
                out.push(Ins::Split(vec![], !greedy));
                choice(alts, None, out);
                out.push(Ins::Split(vec![top], false));
                let end = out.len();
                out[top] = Ins::Split(if *greedy { vec![top + 1, end] } else { vec![end, top + 1] }, !greedy);
            }
            El::Plus(alts, greedy) => {
                let top = out.len();
                choice(alts, None, out);
                let end = out.len() + 1;
                out.push(Ins::Split(if *greedy { vec![top, end] } else { vec![end, top] }, !greedy));
            }
        }
    }
}
fn choice(alts: &[Vec<El>], opt: Option<bool>, out: &mut Vec<Ins>) {
    if alts.len() == 1 && opt.is_none() {
        return gen(&alts[0], out);
    }
    let head = out.len();
    out.push(Ins::Split(vec![], false));
    let mut ways = vec![];
    let mut jumps = vec![];
    for a in alts {
        ways.push(out.len());
        gen(a, out);
        jumps.push(out.len());
        out.push(Ins::Split(vec![], false));
    }
    let end = out.len();
    match opt {
        Some(true) => ways.push(end),
        Some(false) => ways.insert(0, end),
        None => {}
    }
    for j in jumps {
        out[j] = Ins::Split(vec![end], false);
    }
    out[head] = Ins::Split(ways, opt == Some(false));
}

/// how a match attempt ended
#[derive(Debug)]
struct Hit {
    rule: usize,
    end: usize,
    acts: Vec<(i32, usize)>,
}

/// position-dependent facts predicates may ask for
struct World<'a> {
    script: &'a Script,
    input: &'a [i32],
    count: usize,
    /// log of evaluated predicates: rule, index, position
    evals: u64,
}
impl<'a> World<'a> {
    fn pred(&mut self, i: i32, pos: usize) -> bool {
        self.evals += 1;
        match self.script.preds[i as usize] {
            LPred::Const(b) => b,
            LPred::Even => pos % 2 == 0,
            LPred::Next(c) => self.input.get(pos).copied().unwrap_or(EOF) == c,
            LPred::Flag => self.count > 0,
            LPred::At => {
                let seen = &self.input[..pos];
                let (l, c) = self.script.at.unwrap_or((1, 0));
                let n = seen.iter().filter(|x| **x == 10).count() as isize;
                let c = match seen.iter().rposition(|x| *x == 10) {
                    Some(i) => (pos - i - 1) as isize,
                    None => c + pos as isize,
                };
                (c + 2 * (l + n)) % 3 == 0
            }
        }
    }
}

impl<'g> RLex<'g> {
    pub fn new(g: &'g Grammar) -> RLex<'g> {
        let mut code = vec![];
        for r in &g.rules {
            let mut v = vec![];
            choice(&r.alts, None, &mut v);
            v.push(Ins::Ret);
            code.push(v);
        }
        RLex { g, code, reach: Default::default() }
    }
    /// follows everything that needs no symbol; returns the threads waiting for one or done
    fn close(&self, t: Th, pos: usize, eof: bool, w: &mut World, out: &mut Vec<Th>, seen: &mut HashSet<Th>) {
        if !seen.insert(t.clone()) {
            return;
        }
        match &self.code[t.rule][t.pc] {
            Ins::Sym(v) => {
                let next = Th { pc: t.pc + 1, ..t.clone() };
                let e = eof && v.iter().any(|x| x.0 <= EOF && EOF <= x.1);
                out.push(t);
                if e {
                    self.close(next, pos, eof, w, out, seen);
                }
            }
            Ins::Split(to, ng) => {
                for x in to {
                    self.close(Th { pc: *x, nongreedy: t.nongreedy || *ng, ..t.clone() }, pos, eof, w, out, seen);
                }
            }
            Ins::Call(r) => {
                let mut n = t.clone();
                n.stack.push((t.rule, t.pc + 1));
                n.rule = *r;
                n.pc = 0;
                self.close(n, pos, eof, w, out, seen);
            }
            Ins::Act(i) => {
                let mut n = t.clone();
                n.pc += 1;
                // only actions of the token rule itself count
                if n.stack.is_empty() {
                    n.acts.push((*i, pos));
                }
                self.close(n, pos, eof, w, out, seen);
            }
            Ins::Pred(i) => {
                if w.pred(*i, pos) {
                    self.close(Th { pc: t.pc + 1, ..t }, pos, eof, w, out, seen);
                }
            }
            Ins::Ret => {
                let mut n = t.clone();
                match n.stack.pop() {
                    Some((r, p)) => {
                        n.rule = r;
                        n.pc = p;
                        self.close(n, pos, eof, w, out, seen);
                    }
                    None => out.push(t),
                }
            }
        }
    }
    fn done(&self, t: &Th) -> bool {
        t.stack.is_empty() && matches!(self.code[t.rule][t.pc], Ins::Ret)
    }
    /// longest match from `from`: the winner if any, and where no thread could go on
    fn longest(&self, mode: usize, from: usize, w: &mut World, steps: &mut u64) -> (Option<Hit>, usize) {
        let mut cur = vec![];
        for (i, r) in self.g.rules.iter().enumerate() {
            if r.fragment || r.mode != mode {
                continue;
            }
            let t = Th { rule: i, pc: 0, stack: vec![], acts: vec![], nongreedy: false, alt: i };
            self.close(t, from, false, w, &mut cur, &mut HashSet::new());
        }
        let mut best = None;
        let mut pos = from;
        loop {
            *steps += cur.len() as u64;
            let c = w.input.get(pos).copied().unwrap_or(EOF);
            let at_eof = c == EOF;
            let next_pos = if at_eof { pos } else { pos + 1 };
            let mut next = vec![];
            let mut seen = HashSet::new();
            for t in &cur {
                if let Ins::Sym(v) = &self.code[t.rule][t.pc] {
                    if v.iter().any(|x| x.0 <= c && c <= x.1) {
                        self.close(Th { pc: t.pc + 1, ..t.clone() }, next_pos, at_eof, w, &mut next, &mut seen);
                    }
                }
            }
            // once a rule has matched, its less preferred ways through a non-greedy choice end
            let mut over: HashSet<usize> = HashSet::new();
            next.retain(|t| {
                if t.nongreedy && over.contains(&t.alt) {
                    return false;
                }
                if self.done(t) {
                    over.insert(t.alt);
                }
                true
            });
            if next.is_empty() {
                return (best, pos);
            }
            pos = next_pos;
            if let Some(t) = next.iter().find(|t| self.done(t)) {
                best = Some(Hit { rule: t.alt, end: pos, acts: t.acts.clone() });
                if at_eof {
                    return (best, pos);
                }
            }
            if at_eof {
                return (best, pos);
            }
            cur = next;
        }
    }

    /// offsets are symbol positions; `text` of a range is the characters themselves
    pub fn lex(&self, input: &[i32], script: &Script, steps: &mut u64) -> LOut {
        let txt = |a: usize, b: usize| -> String { input[a.min(input.len())..b.min(input.len())].iter().map(|c| char::from_u32(*c as u32).unwrap_or('\u{fffd}')).collect() };
        let mut o = LOut::default();
        let mut w = World { script, input, count: 0, evals: 0 };
        let (mut line, mut col) = script.at.unwrap_or((1, 0));
        let (mut mode, mut stack): (usize, Vec<usize>) = (0, vec![]);
        let mut pos = 0;
        let mut hit_eof = false;
        let mut far = 0;
        self.reach.borrow_mut().clear();
        let advance = |line: &mut isize, col: &mut isize, a: usize, b: usize| {
            for c in &input[a..b] {
                if *c == '\n' as i32 {
                    *line += 1;
                    *col = 0;
                } else {
                    *col += 1;
                }
            }
        };
        'outer: loop {
            if hit_eof {
                o.toks.push(LTok { ty: -1, ch: 0, text: "<EOF>".into(), start: pos as isize, stop: pos as isize - 1, line, col, index: -1 });
                self.reach.borrow_mut().push(far.max(pos));
                break;
            }
            let (start, sl, sc) = (pos, line, col);
            let mut ch = 0;
            let mut text: Option<String> = None;
            let mut token: Option<LTok> = None;
            let mut ty;
            loop {
                ty = 0;
                let (hit, dead) = self.longest(mode, pos, &mut w, steps);
                far = far.max(dead);
                let tt = match hit {
                    Some(h) => {
                        advance(&mut line, &mut col, pos, h.end);
                        pos = h.end;
                        let r = &self.g.rules[h.rule];
                        for (a, at) in &h.acts {
                            let (k, x, y) = self.g.actions[*a as usize];
                            match k {
                                0 => ch = x,
                                2 => mode = x as usize,
                                3 => ty = -2,
                                4 => {
                                    if let Some(m) = stack.pop() {
                                        mode = m
                                    }
                                }
                                5 => {
                                    stack.push(mode);
                                    mode = x as usize;
                                }
                                6 => ty = -3,
                                7 => ty = x,
                                _ => {
                                    let seen = text.clone().unwrap_or_else(|| txt(start, *at));
                                    o.acts.push((x, y, *at as isize, seen));
                                    match if y < 0 { &Act::Log } else { &script.acts[y as usize] } {
                                        Act::Log => {}
                                        Act::Type(t) => ty = *t,
                                        Act::Channel(c) => ch = *c,
                                        Act::Text(t) => text = Some(t.clone()),
                                        Act::Token(t) => {
                                            token = Some(LTok { ty: *t, ch: 0, text: "own".into(), start: start as isize, stop: *at as isize - 1, line: sl, col: sc, index: -1 })
                                        }
                                        Act::Push(m) => {
                                            stack.push(mode);
                                            mode = *m;
                                        }
                                        Act::Pop => {
                                            if let Some(m) = stack.pop() {
                                                mode = m
                                            }
                                        }
                                        Act::Skip => ty = -3,
                                        Act::More => ty = -2,
                                    }
                                }
                            }
                        }
                        r.token_type
                    }
                    None if dead == input.len() && dead == pos => -1,
                    None => {
                        let bad = txt(start, dead + 1);
                        o.errs.push(LErr { line: sl, col: sc, msg: format!("token recognition error at: '{}'", esc(&bad)), start: pos as isize });
                        let to = (dead + 1).min(input.len());
                        advance(&mut line, &mut col, pos, to);
                        pos = to;
                        -3
                    }
                };
                if pos == input.len() {
                    hit_eof = true;
                }
                if ty == 0 {
                    ty = tt;
                }
                if ty == -3 {
                    continue 'outer;
                }
                if ty != -2 {
                    break;
                }
            }
            let t = token.unwrap_or_else(|| {
                let t = text.filter(|_| ty + script.emit_shift != -1).unwrap_or_else(|| if start >= input.len() || ty + script.emit_shift == -1 { "<EOF>".into() } else { txt(start, pos) });
                LTok { ty: ty + script.emit_shift, ch, text: t, start: start as isize, stop: pos as isize - 1, line: sl, col: sc, index: -1 }
            });
            let end = t.ty == -1;
            o.toks.push(t);
            // whether this is the end is asked, too
            far = far.max(pos);
            self.reach.borrow_mut().push(far);
            w.count += 1;
            if end {
                break;
            }
        }
        o.modes = (mode, stack);
        o
    }
}
