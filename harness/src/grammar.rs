//! Grammar AST, ATN construction (the layout the ANTLR 4.8 tool emits) and serialization.
//! Independent of the runtime under test: only plain integers leave this module.
use std::fmt::Write;

pub const EOF: i32 = -1;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum El {
    Tok(i32),
    Range(i32, i32),
    Set(Vec<(i32, i32)>),
    NotSet(Vec<(i32, i32)>),
    Wild,
    /// rule index, precedence argument
    Rule(usize, i32),
    Block(Vec<Vec<El>>),
    /// alternatives, greedy
    Opt(Vec<Vec<El>>, bool),
    Star(Vec<Vec<El>>, bool),
    Plus(Vec<Vec<El>>, bool),
    /// semantic predicate: index, context dependent
    Pred(i32, bool),
    /// precedence predicate
    Prec(i32),
    /// embedded action (lexer: index into the action table)
    Action(i32),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Rule {
    pub name: String,
    pub alts: Vec<Vec<El>>,
    /// left recursive: `alts` are the primary/prefix alternatives and `ops` the suffix
    /// alternatives (without the leading self reference), each starting with `Prec`
    pub ops: Option<Vec<Vec<El>>>,
    pub token_type: i32,
    pub fragment: bool,
    pub mode: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Grammar {
    pub lexer: bool,
    pub rules: Vec<Rule>,
    pub max_token: i32,
    pub modes: usize,
    /// lexer actions (type, data1, data2)
    pub actions: Vec<(i32, i32, i32)>,
}

pub fn prule(name: &str, alts: Vec<Vec<El>>) -> Rule {
    Rule { name: name.into(), alts, ops: None, token_type: 0, fragment: false, mode: 0 }
}
pub fn lrule(name: &str, tt: i32, alts: Vec<Vec<El>>) -> Rule {
    Rule { name: name.into(), alts, ops: None, token_type: tt, fragment: false, mode: 0 }
}
pub fn parser_grammar(rules: Vec<Rule>, max_token: i32) -> Grammar {
    Grammar { lexer: false, rules, max_token, modes: 0, actions: vec![] }
}

/// printing (debugging and replay files)
fn sym(g: &Grammar, t: i32, o: &mut String) {
    if t == EOF {
        o.push_str("EOF")
    } else if g.lexer {
        let c = char::from_u32(t as u32).unwrap_or('\u{fffd}');
        let _ = write!(o, "{:?}", c);
    } else {
        let _ = write!(o, "T{}", t);
    }
}
fn sets(g: &Grammar, s: &[(i32, i32)], o: &mut String) {
    o.push('[');
    for (i, (a, b)) in s.iter().enumerate() {
        if i > 0 {
            o.push(' ');
        }
        sym(g, *a, o);
        if a != b {
            o.push('-');
            sym(g, *b, o);
        }
    }
    o.push(']');
}
pub fn show_alts(g: &Grammar, alts: &[Vec<El>], o: &mut String) {
    for (i, a) in alts.iter().enumerate() {
        if i > 0 {
            o.push_str(" | ");
        }
        for (j, e) in a.iter().enumerate() {
            if j > 0 {
                o.push(' ');
            }
            show_el(g, e, o);
        }
    }
}
fn show_el(g: &Grammar, e: &El, o: &mut String) {
    let mut sub = |alts: &Vec<Vec<El>>, suf: &str, greedy: bool| {
        o.push('(');
        show_alts(g, alts, o);
        o.push(')');
        o.push_str(suf);
        if !greedy {
            o.push('?');
        }
    };
    match e {
        El::Tok(t) => sym(g, *t, o),
        El::Range(a, b) => {
            sym(g, *a, o);
            o.push_str("..");
            sym(g, *b, o);
        }
        El::Set(s) => sets(g, s, o),
        El::NotSet(s) => {
            o.push('~');
            sets(g, s, o)
        }
        El::Wild => o.push('.'),
        El::Rule(r, p) => {
            o.push_str(&g.rules[*r].name);
            if *p != 0 {
                let _ = write!(o, "[{}]", p);
            }
        }
        El::Block(a) => sub(a, "", true),
        El::Opt(a, gr) => sub(a, "?", *gr),
        El::Star(a, gr) => sub(a, "*", *gr),
        El::Plus(a, gr) => sub(a, "+", *gr),
        El::Pred(i, c) => {
            let _ = write!(o, "{{p{}{}}}?", i, if *c { "$" } else { "" });
        }
        El::Prec(p) => {
            let _ = write!(o, "{{prec>={}}}?", p);
        }
        El::Action(i) => {
            if g.lexer {
                let _ = write!(o, "{{{:?}}}", g.actions[*i as usize]);
            } else {
                let _ = write!(o, "{{a{}}}", i);
            }
        }
    }
}
impl Grammar {
    pub fn show(&self) -> String {
        let mut o = String::new();
        for r in &self.rules {
            if r.mode != 0 {
                let _ = write!(o, "<mode{}> ", r.mode);
            }
            if r.fragment {
                o.push_str("fragment ");
            }
            let _ = write!(o, "{}: ", r.name);
            show_alts(self, &r.alts, &mut o);
            if let Some(ops) = &r.ops {
                o.push_str(" <LR> (");
                show_alts(self, ops, &mut o);
                o.push_str(")*");
            }
            o.push_str("; ");
        }
        o
    }
}

// ---------------------------------------------------------------- ATN ----------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum St {
    Basic = 1,
    RuleStart = 2,
    BlockStart = 3,
    PlusBlockStart = 4,
    StarBlockStart = 5,
    TokenStart = 6,
    RuleStop = 7,
    BlockEnd = 8,
    StarLoopBack = 9,
    StarLoopEntry = 10,
    PlusLoopBack = 11,
    LoopEnd = 12,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct State {
    pub ty: St,
    pub rule: i32,
    /// end state of a block start / loop-back state of a loop end
    pub link: usize,
    pub nongreedy: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tr {
    Eps,
    Range(i32, i32),
    Atom(i32),
    Set(Vec<(i32, i32)>),
    NotSet(Vec<(i32, i32)>),
    Wild,
    /// start state, rule, precedence (edge target is the follow state)
    Rule(usize, usize, i32),
    Pred(i32, i32, bool),
    Prec(i32),
    Action(i32, i32, bool),
}

#[derive(Clone, Debug)]
pub struct Atn {
    pub lexer: bool,
    pub max_token: i32,
    pub states: Vec<State>,
    pub edges: Vec<(usize, usize, Tr)>,
    pub decisions: Vec<usize>,
    pub rule_start: Vec<usize>,
    pub rule_stop: Vec<usize>,
    pub rule_tt: Vec<i32>,
    pub lr_rules: Vec<bool>,
    pub modes: Vec<usize>,
    pub actions: Vec<(i32, i32, i32)>,
    /// emit atoms of the basic multilingual plane as one-element sets too
    pub force_sets: bool,
}

/// Compiled rule bodies annotated with ATN state numbers, for the interpreting parser.
#[derive(Clone, Debug)]
pub enum C {
    Match { state: usize, el: El },
    Call { state: usize, rule: usize, prec: i32 },
    Pred { state: usize, idx: i32, ctx: bool },
    Prec { state: usize, prec: i32 },
    Action { state: usize, idx: i32 },
    /// plain block: decision is None for a single alternative
    Block { state: usize, decision: Option<usize>, alts: Vec<Vec<C>> },
    Opt { state: usize, decision: usize, alts: Vec<Vec<C>>, greedy: bool },
    Star { entry: usize, decision: usize, loopback: usize, blk: usize, blk_decision: Option<usize>, alts: Vec<Vec<C>>, greedy: bool },
    Plus { blk: usize, blk_decision: Option<usize>, loopback: usize, decision: usize, alts: Vec<Vec<C>>, greedy: bool },
}
#[derive(Clone, Debug)]
pub struct CRule {
    pub start: usize,
    pub body: C,
    /// operator loop of a left recursive rule
    pub ops: Option<C>,
}

#[derive(Clone, Debug)]
pub struct Compiled {
    pub atn: Atn,
    pub rules: Vec<CRule>,
}

struct B {
    a: Atn,
    rule: i32,
}
impl B {
    fn st(&mut self, ty: St) -> usize {
        self.a.states.push(State { ty, rule: self.rule, link: 0, nongreedy: false });
        self.a.states.len() - 1
    }
    fn edge(&mut self, s: usize, t: usize, tr: Tr) {
        self.a.edges.push((s, t, tr));
    }
    fn decision(&mut self, s: usize) -> usize {
        self.a.decisions.push(s);
        self.a.decisions.len() - 1
    }
    /// compiles a sequence starting in state `from`; returns the end state
    fn seq(&mut self, els: &[El], mut from: usize, out: &mut Vec<C>) -> usize {
        for e in els {
            from = self.el(e, from, out);
        }
        from
    }
    fn alts(&mut self, start: usize, end: usize, alts: &[Vec<El>]) -> Vec<Vec<C>> {
        let mut res = vec![];
        for a in alts {
            let s = self.st(St::Basic);
            self.edge(start, s, Tr::Eps);
            let mut v = vec![];
            let e = self.seq(a, s, &mut v);
            self.edge(e, end, Tr::Eps);
            res.push(v);
        }
        res
    }
    fn el(&mut self, e: &El, from: usize, out: &mut Vec<C>) -> usize {
        let r = self.rule;
        match e {
            El::Tok(_) | El::Range(..) | El::Set(_) | El::NotSet(_) | El::Wild => {
                let to = self.st(St::Basic);
                let tr = match e {
                    El::Tok(t) => Tr::Atom(*t),
                    El::Range(a, b) => Tr::Range(*a, *b),
                    El::Set(s) => Tr::Set(s.clone()),
                    El::NotSet(s) => Tr::NotSet(s.clone()),
                    _ => Tr::Wild,
                };
                self.edge(from, to, tr);
                out.push(C::Match { state: from, el: e.clone() });
                to
            }
            El::Rule(i, p) => {
                let to = self.st(St::Basic);
                let rs = self.a.rule_start[*i];
                self.edge(from, to, Tr::Rule(rs, *i, *p));
                out.push(C::Call { state: from, rule: *i, prec: *p });
                to
            }
            El::Pred(i, c) => {
                let to = self.st(St::Basic);
                self.edge(from, to, Tr::Pred(r, *i, *c));
                out.push(C::Pred { state: from, idx: *i, ctx: *c });
                to
            }
            El::Prec(p) => {
                let to = self.st(St::Basic);
                self.edge(from, to, Tr::Prec(*p));
                out.push(C::Prec { state: from, prec: *p });
                to
            }
            El::Action(i) => {
                let to = self.st(St::Basic);
                self.edge(from, to, Tr::Action(r, if self.a.lexer { *i } else { -1 }, false));
                out.push(C::Action { state: from, idx: *i });
                to
            }
            El::Block(alts) => {
                if alts.len() == 1 {
                    let mut v = vec![];
                    let to = self.seq(&alts[0], from, &mut v);
                    out.push(C::Block { state: from, decision: None, alts: vec![v] });
                    return to;
                }
                let s = self.st(St::BlockStart);
                let end = self.st(St::BlockEnd);
                self.a.states[s].link = end;
                self.edge(from, s, Tr::Eps);
                let d = self.decision(s);
                let v = self.alts(s, end, alts);
                out.push(C::Block { state: s, decision: Some(d), alts: v });
                let to = self.st(St::Basic);
                self.edge(end, to, Tr::Eps);
                to
            }
            El::Opt(alts, greedy) => {
                let s = self.st(St::BlockStart);
                let end = self.st(St::BlockEnd);
                self.a.states[s].link = end;
                self.a.states[s].nongreedy = !greedy;
                self.edge(from, s, Tr::Eps);
                let d = self.decision(s);
                if !greedy {
                    self.edge(s, end, Tr::Eps);
                }
                let v = self.alts(s, end, alts);
                if *greedy {
                    self.edge(s, end, Tr::Eps);
                }
                out.push(C::Opt { state: s, decision: d, alts: v, greedy: *greedy });
                let to = self.st(St::Basic);
                self.edge(end, to, Tr::Eps);
                to
            }
            El::Star(alts, greedy) => {
                let entry = self.st(St::StarLoopEntry);
                let blk = self.st(St::StarBlockStart);
                let bend = self.st(St::BlockEnd);
                let end = self.st(St::LoopEnd);
                let back = self.st(St::StarLoopBack);
                self.a.states[blk].link = bend;
                self.a.states[end].link = back;
                self.a.states[entry].nongreedy = !greedy;
                self.edge(from, entry, Tr::Eps);
                let bd = if alts.len() > 1 { Some(self.decision(blk)) } else { None };
                let v = self.alts(blk, bend, alts);
                let d = self.decision(entry);
                if *greedy {
                    self.edge(entry, blk, Tr::Eps);
                    self.edge(entry, end, Tr::Eps);
                } else {
                    self.edge(entry, end, Tr::Eps);
                    self.edge(entry, blk, Tr::Eps);
                }
                self.edge(bend, back, Tr::Eps);
                self.edge(back, entry, Tr::Eps);
                out.push(C::Star { entry, decision: d, loopback: back, blk, blk_decision: bd, alts: v, greedy: *greedy });
                let to = self.st(St::Basic);
                self.edge(end, to, Tr::Eps);
                to
            }
            El::Plus(alts, greedy) => {
                let blk = self.st(St::PlusBlockStart);
                let bend = self.st(St::BlockEnd);
                let back = self.st(St::PlusLoopBack);
                let end = self.st(St::LoopEnd);
                self.a.states[blk].link = bend;
                self.a.states[end].link = back;
                self.a.states[back].nongreedy = !greedy;
                self.edge(from, blk, Tr::Eps);
                let bd = if alts.len() > 1 { Some(self.decision(blk)) } else { None };
                let v = self.alts(blk, bend, alts);
                let d = self.decision(back);
                self.edge(bend, back, Tr::Eps);
                if *greedy {
                    self.edge(back, blk, Tr::Eps);
                    self.edge(back, end, Tr::Eps);
                } else {
                    self.edge(back, end, Tr::Eps);
                    self.edge(back, blk, Tr::Eps);
                }
                out.push(C::Plus { blk, blk_decision: bd, loopback: back, decision: d, alts: v, greedy: *greedy });
                let to = self.st(St::Basic);
                self.edge(end, to, Tr::Eps);
                to
            }
        }
    }
}

pub fn compile(g: &Grammar) -> Compiled {
    let mut b = B {
        a: Atn {
            lexer: g.lexer,
            max_token: g.max_token,
            states: vec![],
            edges: vec![],
            decisions: vec![],
            rule_start: vec![],
            rule_stop: vec![],
            rule_tt: vec![],
            lr_rules: vec![],
            modes: vec![],
            actions: g.actions.clone(),
            force_sets: false,
        },
        rule: -1,
    };
    for _ in 0..g.modes {
        let s = b.st(St::TokenStart);
        b.a.modes.push(s);
        b.decision(s);
    }
    for (i, r) in g.rules.iter().enumerate() {
        b.rule = i as i32;
        let s = b.st(St::RuleStart);
        let e = b.st(St::RuleStop);
        b.a.rule_start.push(s);
        b.a.rule_stop.push(e);
        b.a.rule_tt.push(r.token_type);
        b.a.lr_rules.push(r.ops.is_some());
    }
    for (i, r) in g.rules.iter().enumerate() {
        if g.lexer && !r.fragment {
            let m = b.a.modes[r.mode];
            let s = b.a.rule_start[i];
            b.edge(m, s, Tr::Eps);
        }
    }
    let mut rules = vec![];
    for (i, r) in g.rules.iter().enumerate() {
        b.rule = i as i32;
        let (start, stop) = (b.a.rule_start[i], b.a.rule_stop[i]);
        let from = b.st(St::Basic);
        b.edge(start, from, Tr::Eps);
        let mut v = vec![];
        let mut end = b.el(&El::Block(r.alts.clone()), from, &mut v);
        let body = v.pop().unwrap();
        let mut opsc = None;
        if let Some(ops) = &r.ops {
            // the loop end must link directly to the rule stop state
            let mut v = vec![];
            end = b.el(&El::Star(ops.clone(), true), end, &mut v);
            opsc = v.pop();
            // drop the extra basic state's indirection: retarget edge loopend->basic to stop
            let last = b.a.edges.len() - 1;
            assert_eq!(b.a.edges[last].1, end);
            b.a.edges[last].1 = stop;
            b.a.states.pop();
        } else {
            b.edge(end, stop, Tr::Eps);
        }
        rules.push(CRule { start, body, ops: opsc });
    }
    // edges in the order the tool writes them: grouped by source state, insertion order within
    let mut edges: Vec<(usize, usize, Tr)> = vec![];
    for s in 0..b.a.states.len() {
        for e in &b.a.edges {
            if e.0 == s {
                edges.push(e.clone());
            }
        }
    }
    b.a.edges = edges;
    Compiled { atn: b.a, rules }
}

pub const UUIDS: [[u32; 4]; 4] = [
    [0x33761B2D, 0x78BB4A43, 0x8B0B4F5B, 0xEE8AACF3],
    [0x1DA0C57D, 0x6C06438A, 0x9B2710BC, 0xB3CE0F61],
    [0xAADB8D7E, 0xAEEF4415, 0xAD2B8204, 0xD6CF042E],
    [0x59627784, 0x3BE5417A, 0xB9EB8131, 0xA7286089],
];

impl Atn {
    fn collect_sets(&self) -> (Vec<Vec<(i32, i32)>>, Vec<Vec<(i32, i32)>>) {
        let (mut s16, mut s32): (Vec<Vec<(i32, i32)>>, Vec<Vec<(i32, i32)>>) = (vec![], vec![]);
        for (_, _, t) in &self.edges {
            if let Some(s) = self.as_set(t) {
                let big = s.iter().any(|x| x.1 > 0xFFFF);
                let v = if big { &mut s32 } else { &mut s16 };
                if !v.contains(&s) {
                    v.push(s);
                }
            }
        }
        (s16, s32)
    }
    /// the set a transition needs in the set table, if any
    fn as_set(&self, t: &Tr) -> Option<Vec<(i32, i32)>> {
        match t {
            Tr::Set(s) | Tr::NotSet(s) => Some(s.clone()),
            Tr::Atom(x) if *x > 0xFFFF || (self.force_sets && *x >= 0) => Some(vec![(*x, *x)]),
            Tr::Range(a, b) if *b > 0xFFFF => Some(vec![(*a, *b)]),
            _ => None,
        }
    }
    /// Serializes to the character data a generated recognizer embeds.
    pub fn serialize(&self) -> String {
        self.serialize_with(3, UUIDS[3])
    }
    pub fn serialize_with(&self, version: u32, uuid: [u32; 4]) -> String {
        Atn::encode(version, &self.values(uuid, 3))
    }
    /// in the format of feature level 0 (base), 1 (precedence), 2 (lexer actions) or 3 (large code points)
    pub fn serialize_as(&self, level: usize) -> String {
        Atn::encode(3, &self.values(UUIDS[level], level))
    }
    /// the integers of the serialized form, after the version
    pub fn values(&self, uuid: [u32; 4], level: usize) -> Vec<i64> {
        let mut d: Vec<i64> = vec![];
        // UUID: bytes reversed, as little-endian 16 bit words
        let mut bytes: Vec<u8> = uuid.iter().flat_map(|w| w.to_be_bytes()).collect();
        bytes.reverse();
        for p in bytes.chunks(2) {
            d.push(p[0] as i64 | (p[1] as i64) << 8);
        }
        d.push(if self.lexer { 0 } else { 1 });
        d.push(self.max_token as i64);
        d.push(self.states.len() as i64);
        for s in &self.states {
            d.push(s.ty as i64);
            d.push(if s.rule < 0 { 0xFFFF } else { s.rule as i64 });
            match s.ty {
                St::LoopEnd | St::BlockStart | St::PlusBlockStart | St::StarBlockStart => d.push(s.link as i64),
                _ => {}
            }
        }
        let ng: Vec<usize> = (0..self.states.len()).filter(|i| self.states[*i].nongreedy).collect();
        d.push(ng.len() as i64);
        d.extend(ng.iter().map(|x| *x as i64));
        if level >= 1 {
        let pr: Vec<usize> = (0..self.rule_start.len()).filter(|i| self.lr_rules[*i]).map(|i| self.rule_start[i]).collect();
        d.push(pr.len() as i64);
        d.extend(pr.iter().map(|x| *x as i64));
        }
        d.push(self.rule_start.len() as i64);
        for i in 0..self.rule_start.len() {
            d.push(self.rule_start[i] as i64);
            if self.lexer {
                d.push(if self.rule_tt[i] < 0 { 0xFFFF } else { self.rule_tt[i] as i64 });
                if level < 2 {
                    d.push(0xFFFF);
                }
            }
        }
        d.push(self.modes.len() as i64);
        d.extend(self.modes.iter().map(|x| *x as i64));
        let (s16, s32) = self.collect_sets();
        for (k, v) in [&s16, &s32].iter().enumerate() {
            if k == 1 && level < 3 {
                assert!(v.is_empty());
                continue;
            }
            d.push(v.len() as i64);
            for s in v.iter() {
                let eof = s.iter().any(|x| x.0 == EOF);
                let ivs: Vec<(i32, i32)> = s.iter().filter(|x| x.1 >= 0).map(|x| (x.0.max(0), x.1)).collect();
                d.push(ivs.len() as i64);
                d.push(eof as i64);
                for (a, b) in ivs {
                    for x in [a, b] {
                        if k == 0 {
                            d.push(x as i64);
                        } else {
                            d.push((x & 0xFFFF) as i64);
                            d.push((x >> 16) as i64);
                        }
                    }
                }
            }
        }
        let setno = |s: &Vec<(i32, i32)>| -> i64 {
            if let Some(i) = s16.iter().position(|x| x == s) {
                i as i64
            } else {
                (s16.len() + s32.iter().position(|x| x == s).unwrap()) as i64
            }
        };
        d.push(self.edges.len() as i64);
        for (s, t, tr) in &self.edges {
            let m = |x: i32| if x < 0 { 0xFFFFi64 } else { x as i64 };
            let (trg, ty, a, b, c) = match tr {
                Tr::Eps => (*t as i64, 1, 0, 0, 0),
                _ if matches!(tr, Tr::Atom(_) | Tr::Range(..)) && self.as_set(tr).is_some() => {
                    (*t as i64, 7, setno(&self.as_set(tr).unwrap()), 0, 0)
                }
                Tr::Range(x, y) => {
                    if *x == EOF {
                        (*t as i64, 2, 0, *y as i64, 1)
                    } else {
                        (*t as i64, 2, *x as i64, *y as i64, 0)
                    }
                }
                Tr::Rule(rs, r, p) => (*t as i64, 3, *rs as i64, *r as i64, *p as i64),
                Tr::Pred(r, i, c) => (*t as i64, 4, *r as i64, *i as i64, *c as i64),
                Tr::Atom(x) => {
                    if *x == EOF {
                        (*t as i64, 5, 0, 0, 1)
                    } else {
                        (*t as i64, 5, *x as i64, 0, 0)
                    }
                }
                Tr::Action(r, i, c) => (*t as i64, 6, *r as i64, m(*i), *c as i64),
                Tr::Set(x) => (*t as i64, 7, setno(x), 0, 0),
                Tr::NotSet(x) => (*t as i64, 8, setno(x), 0, 0),
                Tr::Wild => (*t as i64, 9, 0, 0, 0),
                Tr::Prec(p) => (*t as i64, 10, *p as i64, 0, 0),
            };
            d.extend([*s as i64, trg, ty, a, b, c]);
        }
        d.push(self.decisions.len() as i64);
        d.extend(self.decisions.iter().map(|x| *x as i64));
        if self.lexer && level >= 2 {
            d.push(self.actions.len() as i64);
            for (t, a, b) in &self.actions {
                let m = |x: &i32| if *x < 0 { 0xFFFF } else { *x as i64 };
                d.extend([*t as i64, m(a), m(b)]);
            }
        }
        d
    }
    pub fn encode(version: u32, d: &[i64]) -> String {
        let mut out = String::new();
        out.push(char::from_u32(version).unwrap());
        for v in d {
            let x = ((v + 2) & 0xFFFF) as u32;
            // surrogates cannot be written in a Rust string; the Rust target shifts them
            let x = if (0xD800..=0xDFFF).contains(&x) { x + 0x3000 } else { x };
            out.push(char::from_u32(x).unwrap());
        }
        out
    }
}

/// Per decision, the tokens (bit type+1) each alternative can begin with, where no token is in
/// two of them and no predicate guards them: what the tool's LL(1) analysis computes.
pub fn decision_look(a: &Atn) -> Vec<Option<Vec<u64>>> {
    let n = a.states.len();
    let set = |tr: &Tr| -> Option<u64> {
        let inside = |v: &[(i32, i32)]| (-1..=a.max_token).filter(|t| v.iter().any(|x| x.0 <= *t && *t <= x.1)).fold(0u64, |m, t| m | 1 << (t + 1));
        let all = (1..=a.max_token).fold(0u64, |m, t| m | 1 << (t + 1));
        Some(match tr {
            Tr::Atom(t) => inside(&[(*t, *t)]),
            Tr::Range(x, y) => inside(&[(*x, *y)]),
            Tr::Set(s) => inside(s),
            Tr::NotSet(s) => all & !inside(s),
            Tr::Wild => all,
            _ => return None,
        })
    };
    // first tokens of a state within its rule, whether the rule's end is reached, whether a predicate is
    let mut first = vec![(0u64, false, false); n];
    for r in &a.rule_stop {
        first[*r].1 = true;
    }
    loop {
        let before = first.clone();
        for (s, t, tr) in &a.edges {
            let add = match tr {
                Tr::Eps | Tr::Action(..) => first[*t],
                Tr::Pred(..) | Tr::Prec(_) => (0, false, true),
                Tr::Rule(st, _, _) => {
                    let c = first[*st];
                    if c.1 {
                        (c.0 | first[*t].0, first[*t].1, c.2 | first[*t].2)
                    } else {
                        c
                    }
                }
                _ => (set(tr).unwrap(), false, false),
            };
            let f = &mut first[*s];
            *f = (f.0 | add.0, f.1 | add.1, f.2 | add.2);
        }
        if before == first {
            break;
        }
    }
    let mut follow = vec![(0u64, false); a.rule_start.len()];
    loop {
        let before = follow.clone();
        for (s, t, tr) in &a.edges {
            if let Tr::Rule(_, r, _) = tr {
                let f = first[*t];
                let up = if f.1 { follow[a.states[*s].rule as usize] } else { (0, false) };
                follow[*r] = (follow[*r].0 | f.0 | up.0, follow[*r].1 | f.2 | up.1);
            }
        }
        if before == follow {
            break;
        }
    }
    a.decisions
        .iter()
        .map(|d| {
            let mut looks = vec![];
            let mut seen = 0u64;
            for (_, t, _) in a.edges.iter().filter(|e| e.0 == *d) {
                let f = first[*t];
                let (mut m, mut p) = (f.0, f.2);
                if f.1 {
                    let up = follow[a.states[*d].rule as usize];
                    m |= up.0;
                    p |= up.1;
                }
                if p || m & seen != 0 {
                    return None;
                }
                seen |= m;
                looks.push(m);
            }
            Some(looks)
        })
        .collect()
}
