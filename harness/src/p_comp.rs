//! C13, C14, C15, C16: the stream and set components against plain models, by exploring
//! every operation sequence until no new state appears (or to a stated depth).
use crate::grammar::compile;
use crate::interp::*;
use crate::p_core::{key, over_families};
use crate::run::*;
use antlr_rust::char_stream::{CharStream, InputData};
use antlr_rust::common_token_stream::CommonTokenStream;
use antlr_rust::int_stream::{IntStream, IterWrapper};
use antlr_rust::interval_set::{Interval, IntervalSet};
use antlr_rust::token::{Token, TOKEN_EOF};
use antlr_rust::token_stream::{TokenStream, UnbufferedTokenStream};
use antlr_rust::InputStream;
use std::borrow::Cow;
use std::collections::{HashSet, VecDeque};
use std::fmt::Debug;
use std::sync::Arc;

/// Explores all histories breadth first. `step(history)` replays a history on a fresh
/// instance, checks it against the model and gives the state reached and the operations
/// possible in it. Histories reaching a state seen before are not continued.
pub fn bfs<Op: Clone + Debug>(
    max_depth: usize,
    st: &mut Stats,
    what: &dyn Fn() -> String,
    step: &mut dyn FnMut(&[Op]) -> Result<(u64, Vec<Op>), String>,
) {
    let mut seen = HashSet::new();
    let mut q: VecDeque<(Vec<Op>, Option<Op>)> = VecDeque::new();
    q.push_back((vec![], None));
    while let Some((mut h, op)) = q.pop_front() {
        h.extend(op);
        st.transitions += 1;
        match guard(|| step(&h)).and_then(|x| x) {
            Err(e) => {
                st.fail(format!("{} {:?}", what(), h), format!("{}\nafter {:?}: {}", what(), h, e));
                if st.failed() {
                    return;
                }
            }
            Ok((k, ops)) => {
                if seen.insert(k) {
                    st.states += 1;
                    if h.len() < max_depth {
                        for o in ops {
                            q.push_back((h.clone(), Some(o)));
                        }
                    } else {
                        st.count("histories cut at the depth bound", 1);
                    }
                }
            }
        }
    }
    st.traces += 1;
    st.sample(|| what());
}

// ---------------------------------------------------------------- C16 ----------------

#[derive(Clone, Debug)]
enum SetOp {
    One(isize),
    Range(isize, isize),
    Remove(isize),
    AddSet(u32),
    Sub(u32),
    Compl(isize, isize),
}
fn dummy_name(v: isize) -> String {
    match v {
        -1 => "<EOF>".into(),
        -2 => "<EPSILON>".into(),
        v => v.to_string(),
    }
}
fn check_set(s: &IntervalSet, m: &[bool], lo: isize, canon: &[IntervalSet]) -> Result<(), String> {
    let n = m.len() as isize;
    let has = |v: isize| v >= lo && v < lo + n && m[(v - lo) as usize];
    for v in lo - 3..lo + n + 3 {
        if s.contains(v) != has(v) {
            return Err(format!("contains({}) is {}: {:?}", v, s.contains(v), s));
        }
    }
    let els: Vec<isize> = (lo..lo + n).filter(|v| has(*v)).collect();
    if s.length() != els.len() as isize {
        return Err(format!("length {} instead of {}", s.length(), els.len()));
    }
    if s.get_min() != els.first().copied() {
        return Err(format!("minimum {:?} of {:?}", s.get_min(), els));
    }
    let names: Vec<String> = els.iter().map(|v| dummy_name(*v)).collect();
    let want = match names.len() {
        0 => "{}".to_string(),
        1 => names[0].clone(),
        _ => format!("{{{}}}", names.join(", ")),
    };
    if s.to_index_string() != want {
        return Err(format!("enumerates as {} instead of {}", s.to_index_string(), want));
    }
    let bits = m.iter().enumerate().map(|(i, b)| (*b as usize) << i).sum::<usize>();
    if *s != canon[bits] || canon[bits] != *s || s.clone() != *s {
        return Err(format!("{:?} is not equal to {:?}, which has the same elements", s, canon[bits]));
    }
    if els.len() > 1 && *s == canon[bits & (bits - 1)] {
        return Err(format!("{:?} equals a smaller set", s));
    }
    Ok(())
}
fn set_of(bits: usize, n: usize, lo: isize, down: bool) -> IntervalSet {
    let mut s = IntervalSet::new();
    let mut runs = vec![];
    let mut i = 0;
    while i < n {
        if bits >> i & 1 == 1 {
            let a = i;
            while i < n && bits >> i & 1 == 1 {
                i += 1
            }
            runs.push((lo + a as isize, lo + i as isize - 1));
        }
        i += 1;
    }
    if down {
        runs.reverse();
    }
    for (a, b) in runs {
        s.add_range(a, b);
    }
    s
}
pub fn c16(tier: Tier) -> Vec<Plan> {
    let mut v = vec![sets("operations", tier.pick(9, 11) as usize, -2)];
    // the same far away: around the largest characters and the borders of narrower numbers
    for (name, at) in [("last-character", 0x10ffff), ("plane", 0x10000), ("byte", 0x100), ("i16", 0x8000), ("i32", 0x8000_0000), ("u32", 0x1_0000_0000), ("i16-negative", -0x8000), ("i32-negative", -0x8000_0000)] {
        let n = tier.pick(6, 8) as usize;
        v.push(sets(name, n, at - n as isize / 2));
    }
    v
}
fn sets(name: &'static str, n: usize, lo: isize) -> Plan {
    let canon: Arc<Vec<IntervalSet>> = Arc::new((0..1usize << n).map(|b| set_of(b, n, lo, false)).collect());
    let mut ops = vec![];
    let hi = lo + n as isize - 1;
    for a in lo..=hi {
        ops.push(SetOp::One(a));
        ops.push(SetOp::Remove(a));
        for b in a - 2..=hi {
            if b >= lo {
                ops.push(SetOp::Range(a, b));
                ops.push(SetOp::Compl(a, b));
            }
        }
    }
    for b in 0..1u32 << n {
        ops.push(SetOp::AddSet(b));
        ops.push(SetOp::Sub(b));
    }
    // every set is built in two ways; every operation is applied to it, then a second one
    // from a small menu, so that a damaged representation shows
    let menu: Vec<SetOp> = ops.iter().filter(|o| matches!(o, SetOp::One(_) | SetOp::Remove(_))).cloned().collect();
    let apply = move |s: &mut IntervalSet, m: &mut Vec<bool>, op: &SetOp, canon: &Vec<IntervalSet>| {
        let n = m.len();
        let ix = |v: isize| (v - lo) as usize;
        match op {
            SetOp::One(v) => {
                s.add_one(*v);
                m[ix(*v)] = true
            }
            SetOp::Remove(v) => {
                s.remove_one(*v);
                m[ix(*v)] = false
            }
            SetOp::Range(a, b) => {
                if (*a + *b) % 2 == 0 {
                    s.add_interval(Interval { a: *a, b: *b })
                } else {
                    s.add_range(*a, *b)
                };
                for v in *a..=*b {
                    m[ix(v)] = true
                }
            }
            SetOp::AddSet(x) => {
                s.add_set(&canon[*x as usize]);
                for i in 0..n {
                    m[i] |= x >> i & 1 == 1
                }
            }
            SetOp::Sub(x) => {
                s.substract(&canon[*x as usize]);
                for i in 0..n {
                    m[i] &= x >> i & 1 == 0
                }
            }
            SetOp::Compl(a, b) => {
                let before = s.clone();
                let c = s.complement(*a, *b);
                assert_eq!(before, *s, "complement changed the set");
                *s = c;
                for i in 0..n {
                    let v = lo + i as isize;
                    m[i] = v >= *a && v <= *b && !m[i]
                }
            }
        }
    };
    let bounds = format!("all {} sets over {} consecutive integers ({}..={}), each built two ways; all {} operations, each followed by all {} single-element operations", 1 << n, n, lo, hi, ops.len(), menu.len());
    plan(name, bounds, 1 << n, move |bits, st| {
        for down in [false, true] {
            for op in &ops {
                for op2 in std::iter::once(None).chain(menu.iter().map(Some)) {
                    if down && op2.is_some() {
                        break;
                    }
                    let r = guard(|| {
                        let mut s = set_of(bits, n, lo, down);
                        let mut m: Vec<bool> = (0..n).map(|i| bits >> i & 1 == 1).collect();
                        if op2.is_none() {
                            check_set(&s, &m, lo, &canon)?;
                        }
                        apply(&mut s, &mut m, op, &canon);
                        if let Some(o) = op2 {
                            apply(&mut s, &mut m, o, &canon);
                        }
                        check_set(&s, &m, lo, &canon)
                    });
                    st.transitions += 1;
                    if let Err(e) = r.and_then(|x| x) {
                        let s = format!("{:?}", set_of(bits, n, lo, down));
                        st.fail(format!("{:b} {:?} {:?}", bits, op, op2), format!("set {} after {:?} {:?}: {}", s, op, op2, e));
                        if st.failed() {
                            return;
                        }
                    }
                }
            }
        }
        st.states += 1;
        st.traces += 1;
        st.outcome(&bits);
        st.sample(|| format!("{:?}", canon[bits]));
    })
}

// ---------------------------------------------------------------- C15 ----------------

/// the model: symbols with their offsets (`offs` has one more entry, the end)
struct CharModel {
    syms: Vec<isize>,
    offs: Vec<isize>,
}
fn char_check<S: IntStream>(mk: &dyn Fn() -> S, m: &CharModel, text: &dyn Fn(&S, isize, isize) -> Result<Vec<String>, String>, want: &dyn Fn(usize, usize) -> String, st: &mut Stats) -> Result<(), String> {
    let n = m.syms.len();
    let look = |s: &mut S, i: usize, what: &dyn Fn() -> String| -> Result<(), String> {
        if s.index() != m.offs[i] {
            return Err(format!("{}: index {} instead of {}", what(), s.index(), m.offs[i]));
        }
        for k in 1..=(n + 2) as isize {
            let j = i as isize + k - 1;
            let w = m.syms.get(j as usize).copied().unwrap_or(-1);
            let g = s.la(k);
            if g != w {
                return Err(format!("{}: la({}) is {} instead of {}", what(), k, g, w));
            }
            let j = i as isize - k;
            let w = if j < 0 { -1 } else { m.syms[j as usize] };
            let g = s.la(-k);
            if g != w {
                return Err(format!("{}: la({}) is {} instead of {}", what(), -k, g, w));
            }
        }
        if s.index() != m.offs[i] {
            return Err(format!("{}: looking moved the cursor", what()));
        }
        if s.size() != m.offs[n] {
            return Err(format!("{}: size {} instead of {}", what(), s.size(), m.offs[n]));
        }
        Ok(())
    };
    // from every position: seek to every position, then consume to the end; marks do not matter
    for a in 0..=n {
        for b in 0..=n {
            let mut s = mk();
            s.seek(m.offs[a]);
            look(&mut s, a, &|| format!("seek to {}", a))?;
            let mk1 = s.mark();
            s.seek(m.offs[b]);
            look(&mut s, b, &|| format!("seek to {} then {}", a, b))?;
            if a % 2 == 0 {
                s.release(mk1);
            }
            for c in b + 1..=n {
                s.consume();
                look(&mut s, c, &|| format!("seek {} and {}, consume to {}", a, b, c))?;
                st.transitions += 1;
            }
            let mut s = mk();
            s.seek(m.offs[a]);
            let got: Vec<isize> = IterWrapper(&mut s).collect();
            if got != m.syms[a..] {
                return Err(format!("iterating from {} gives {:?}", a, got));
            }
            if IterWrapper(&mut s).next().is_some() {
                return Err("iterating past the end gives a symbol".into());
            }
            st.transitions += 3;
            st.states += 1;
        }
    }
    // text of every range of symbols, the end given by any offset inside the last symbol
    let s = mk();
    for a in 0..=n {
        for b in a..=n {
            // symbols a..b
            let stops: Vec<isize> = if b == a { vec![m.offs[a] - 1] } else { (m.offs[b - 1]..m.offs[b]).collect() };
            for stop in stops {
                for t in text(&s, m.offs[a], stop)? {
                    if t != want(a, b) {
                        return Err(format!("text of {}..={} is {:?} instead of {:?}", m.offs[a], stop, t, want(a, b)));
                    }
                }
                st.transitions += 1;
            }
        }
        // past the end: everything from a
        for extra in 0..2 {
            for t in text(&s, m.offs[a], m.offs[n] + extra)? {
                if t != want(a, n) {
                    return Err(format!("text of {}..={} is {:?} instead of {:?}", m.offs[a], m.offs[n] + extra, t, want(a, n)));
                }
            }
        }
    }
    Ok(())
}
fn seqs<X: Clone>(alpha: &[X], n: usize) -> Vec<Vec<X>> {
    let mut out = vec![vec![]];
    let mut from = 0;
    for _ in 0..n {
        let to = out.len();
        for i in from..to {
            for x in alpha {
                let mut v: Vec<X> = out[i].clone();
                v.push(x.clone());
                out.push(v);
            }
        }
        from = to;
    }
    out
}
fn slice_plan<T>(name: &'static str, alpha: Vec<T>, n: usize) -> Plan
where
    T: Clone + Copy + Debug + Into<u32> + Send + Sync + PartialEq + 'static,
    [T]: InputData + ToOwned<Owned = Vec<T>>,
{
    let all = seqs(&alpha, n);
    let b = format!("all sequences up to length {} over {:?}; from every position every seek, consume, look by every distance, text of every range", n, alpha);
    plan(name, b, all.len(), move |i, st| {
        let data = &all[i];
        let m = CharModel { syms: data.iter().map(|x| (*x).into() as isize).collect(), offs: (0..=data.len() as isize).collect() };
        let disp = |x: &[T]| x.iter().map(|c| char::from_u32((*c).into()).unwrap_or('\u{fffd}')).collect::<String>();
        let r = guard(|| {
            let mk = || InputStream::new(&data[..]);
            let text = |s: &InputStream<&[T]>, a: isize, b: isize| {
                let t1: String = s.get_text(a, b);
                let t2: Cow<str> = s.get_text(a, b);
                let t3: &[T] = s.get_text(a, b);
                let t4: Cow<[T]> = s.get_text(a, b);
                if t3 != &t4[..] {
                    return Err(format!("slice text {:?} and {:?} differ", t3, t4));
                }
                Ok(vec![t1, t2.to_string(), disp(t3), t3.to_display()])
            };
            char_check(&mk, &m, &text, &|a, b| disp(&data[a..b]), st)
        });
        st.traces += 1;
        st.outcome(&m.syms);
        st.sample(|| format!("{:?}", data));
        if let Err(e) = r.and_then(|x| x) {
            st.fail(format!("{} {:?}", name, data), format!("{} stream over {:?}: {}", name, data, e));
        }
        let r = guard(|| {
            let mk = || InputStream::new_owned(data.clone().into_boxed_slice());
            let text = |s: &InputStream<Box<[T]>>, a: isize, b: isize| {
                let t: Vec<T> = s.get_text(a, b);
                Ok(vec![disp(&t)])
            };
            char_check(&mk, &m, &text, &|a, b| disp(&data[a..b]), st)
        });
        if let Err(e) = r.and_then(|x| x) {
            st.fail(format!("owned {} {:?}", name, data), format!("owned {} stream over {:?}: {}", name, data, e));
        }
    })
}
pub fn c15(tier: Tier) -> Vec<Plan> {
    let n = tier.pick(5, 7);
    let alpha = vec!['a', '\n', '\u{7f}', '\u{e9}', '\u{306f}', '\u{1f600}'];
    let all = seqs(&alpha, n);
    let b = format!("all strings up to length {} over {:?} (1 to 4 byte characters); from every position every seek, consume, look by every distance, text of every range", n, alpha);
    let strs = plan("str", b, all.len(), move |i, st| {
        let s: String = all[i].iter().collect();
        let mut offs: Vec<isize> = s.char_indices().map(|(i, _)| i as isize).collect();
        offs.push(s.len() as isize);
        let m = CharModel { syms: s.chars().map(|c| c as isize).collect(), offs };
        let want = |a: usize, b: usize| all[i][a..b].iter().collect::<String>();
        let r = guard(|| {
            let mk = || InputStream::new(&s[..]);
            let text = |s: &InputStream<&str>, a: isize, b: isize| {
                let t1: String = s.get_text(a, b);
                let t2: Cow<str> = s.get_text(a, b);
                let t3: &str = s.get_text(a, b);
                Ok(vec![t1, t2.to_string(), t3.to_string()])
            };
            char_check(&mk, &m, &text, &want, st)
        });
        st.traces += 1;
        st.outcome(&s);
        st.sample(|| format!("{:?}", s));
        if let Err(e) = r.and_then(|x| x) {
            st.fail(format!("str {:?}", s), format!("stream over {:?}: {}", s, e));
        }
        let r = guard(|| {
            let mk = || InputStream::new_owned(s.clone().into_boxed_str());
            let text = |s: &InputStream<Box<str>>, a: isize, b: isize| {
                let t1: String = s.get_text(a, b);
                let t2: Cow<str> = s.get_text(a, b);
                Ok(vec![t1, t2.to_string()])
            };
            char_check(&mk, &m, &text, &want, st)
        });
        if let Err(e) = r.and_then(|x| x) {
            st.fail(format!("owned str {:?}", s), format!("owned stream over {:?}: {}", s, e));
        }
    });
    let k = tier.pick(4, 5);
    vec![
        strs,
        slice_plan::<u8>("u8", vec![0, b'a', 0x80, 0xff], k),
        slice_plan::<u16>("u16", vec![0, 0x61, 0xd800, 0xffff], k),
        slice_plan::<u32>("u32", vec![0, 0x61, 0x1f600, 0x10ffff, 0x110000], k),
    ]
}

// ---------------------------------------------------------------- C13, C14 -----------

fn tok_seqs(n: usize, chans: i32) -> Vec<Vec<STok>> {
    let mut alpha = vec![];
    for ch in 0..chans {
        for t in 0..if ch == 0 { 2 } else { 1 } {
            alpha.push(STok { ty: 1 + t + 2 * ch, ch, text: String::new() });
        }
    }
    let mut all = seqs(&alpha, n);
    all.iter_mut().for_each(texts);
    all
}
fn texts(s: &mut Vec<STok>) {
    for (i, t) in s.iter_mut().enumerate() {
        t.text = ["x", "", "yz", "é", "w", "v"][i % 6].to_string();
    }
}
/// a few longer token sequences: the channels of the tokens
fn long_seqs(pats: &[&str]) -> Vec<Vec<STok>> {
    pats.iter()
        .map(|p| {
            let mut v: Vec<STok> = p.bytes().enumerate().map(|(i, c)| STok { ty: 1 + (i % 3) as i32, ch: (c - b'0') as i32, text: String::new() }).collect();
            texts(&mut v);
            v
        })
        .collect()
}
fn show_toks(t: &[STok]) -> String {
    t.iter().map(|x| format!("{}@ch{}", x.ty, x.ch)).collect::<Vec<_>>().join(" ")
}
fn tinfo<X: Token + ?Sized>(t: &X) -> (isize, isize) {
    (t.get_token_index(), t.get_token_type())
}
fn ttext(toks: &[STok], a: usize, b: usize) -> String {
    toks.iter().enumerate().filter(|(i, _)| *i >= a && *i <= b).map(|(_, t)| &t.text[..]).collect()
}

#[derive(Clone, Debug, PartialEq)]
enum SOp {
    Consume,
    La(isize),
    Seek(isize),
    Reset,
    Mark,
    Release,
}

fn common_check<'i>(s: &mut CommonTokenStream<'i, ListSource<'i>>, p: usize, toks: &[STok], info: &dyn Fn(usize) -> (isize, isize)) -> Result<(), String> {
    let n = toks.len();
                if s.index() != p as isize {
                    return Err(format!("index {} instead of {}", s.index(), p));
                }
                let g = s.la(1);
                if g != info(p).1 {
                    return Err(format!("la(1) is {} instead of {}", g, info(p).1));
                }
                let sz = s.size();
                if sz <= p as isize || sz > n as isize + 1 {
                    return Err(format!("size {}", sz));
                }
                for i in 0..sz as usize {
                    let t = s.get(i as isize);
                    if tinfo(&**t) != info(i) {
                        return Err(format!("get({}) is {:?}", i, tinfo(&**t)));
                    }
                    for j in i..sz as usize {
                        let t = s.get_text_from_interval(i as isize, j as isize);
                        if t != ttext(toks, i, j) {
                            return Err(format!("text of {}..={} is {:?}", i, j, t));
                        }
                    }
                }
                if s.get_all_text() != ttext(toks, 0, sz as usize - 1) {
                    return Err("text of all tokens".into());
                }
                Ok(())
            }
pub fn c13(tier: Tier) -> Vec<Plan> {
    let n = tier.pick(6, 7);
    let all = tok_seqs(n, 3);
    let nn = all.len();
    let b = format!("all {} token sequences up to length {} over two types on channel 0 and one type each on channels 1 and 2, viewed through channel 0, 1 and 3; all histories of consume, look by -4..=4, seek to a visited position and reset, to closure", nn, n);
    let pats = ["01111111110", "11111111111110", "0101010101010101", "000000000000", "001100010000201101", "0111111111111111"];
    let long = long_seqs(&pats);
    let bl = format!("{} token sequences of up to 18 tokens with long runs on and off the channel; the same histories, look by -9..=9, to closure", long.len());
    vec![channel_view("channel view", b, all, 4, 12), channel_view("long", bl, long, 9, 60)]
}
fn channel_view(name: &str, b: String, all: Vec<Vec<STok>>, look: isize, depth: usize) -> Plan {
    let nn = all.len();
    plan(name, b, nn * 3, move |c, st| {
        let toks = &all[c % nn];
        let chan = [0, 1, 3][c / nn];
        let n = toks.len();
        let on: Vec<usize> = (0..n).filter(|i| toks[*i].ch == chan).collect();
        let info = |i: usize| if i < n { (i as isize, toks[i].ty as isize) } else { (n as isize, TOKEN_EOF) };
        // k-th on-channel token at or after / before position p
        let ahead = |p: usize, k: usize| on.iter().filter(|i| **i >= p).nth(k - 1).copied().unwrap_or(n);
        let behind = |p: usize, k: usize| on.iter().rev().filter(|i| **i < p).nth(k - 1).copied();
        let first = ahead(0, 1);
        let what = || format!("channel {} of [{}]", chan, show_toks(toks));
        let mut step = |h: &[SOp]| -> Result<(u64, Vec<SOp>), String> {
            let mut s = CommonTokenStream::with_channel(ListSource::new(toks), chan as isize);
            let mut p = first;
            let mut visited = vec![first];
            for (j, op) in h.iter().enumerate() {
                match op {
                    SOp::Consume => {
                        s.consume();
                        p = ahead(p + 1, 1);
                        if !visited.contains(&p) {
                            visited.push(p);
                        }
                    }
                    SOp::La(k) => {
                        let want = if *k > 0 { Some(ahead(p, *k as usize)) } else { behind(p, -*k as usize) };
                        let got = s.lt(*k).map(|t| tinfo(&**t));
                        if got != want.map(info) {
                            return Err(format!("lt({}) is {:?} instead of {:?}", k, got, want.map(info)));
                        }
                        if *k > 0 {
                            let ty = s.la(*k);
                            if Some(ty) != want.map(|w| info(w).1) {
                                return Err(format!("la({}) is {}", k, ty));
                            }
                        }
                    }
                    SOp::Seek(i) => {
                        s.seek(*i);
                        p = *i as usize;
                    }
                    SOp::Reset => {
                        s.reset();
                        p = first;
                    }
                    _ => {}
                }
                if j + 1 == h.len() {
                    common_check(&mut s, p, toks, &info)?;
                }
            }
            if h.is_empty() {
                common_check(&mut s, p, toks, &info)?;
            }
            let k = hash(&(format!("{:?}", s), &visited));
            if let Some(SOp::La(_)) = h.last() {
                // iterating from here gives the rest of the view
                let rest: Vec<isize> = on.iter().filter(|i| **i >= p).map(|i| toks[*i].ty as isize).collect();
                let got: Vec<isize> = s.iter().collect();
                if got != rest {
                    return Err(format!("iterating gives {:?} instead of {:?}", got, rest));
                }
            }
            let mut ops: Vec<SOp> = vec![];
            if p < n {
                ops.push(SOp::Consume);
            }
            ops.extend((1..=look).map(SOp::La));
            ops.extend((1..=look).map(|k| SOp::La(-k)));
            ops.extend(visited.iter().filter(|i| **i != p).map(|i| SOp::Seek(*i as isize)));
            ops.push(SOp::Reset);
            Ok((k, ops))
        };
        bfs(depth, st, &what, &mut step);
    })
}

fn unbuffered(name: &str, b: String, all: Vec<Vec<STok>>, marks: usize, depth: usize) -> Plan {
    let nn = all.len();
    plan(name, b, nn * 2, move |c, st| {
        let toks = &all[c % nn];
        let buffered = c / nn == 1;
        let n = toks.len();
        let info = |i: usize| if i < n { (i as isize, toks[i].ty as isize) } else { (n as isize, TOKEN_EOF) };
        let what = || format!("{} stream over [{}]", if buffered { "buffered" } else { "unbuffered" }, show_toks(toks));
        let mut step = |h: &[SOp]| -> Result<(u64, Vec<SOp>), String> {
            let mut s = if buffered {
                UnbufferedTokenStream::new_buffered(ListSource::new(toks))
            } else {
                UnbufferedTokenStream::new_unbuffered(ListSource::new(toks))
            };
            let mut p = 0usize;
            // (marker, position when marked)
            let mut ms: Vec<(isize, usize)> = vec![];
            // one past the furthest token surely fetched
            let mut far = 0usize;
            // where a token was last consumed or a mark released with no mark held
            let mut low = 0usize;
            for op in h {
                match op {
                    SOp::Consume => {
                        s.consume();
                        p += 1;
                        far = far.max(p + 1);
                    }
                    SOp::La(k) => {
                        let want = if *k > 0 {
                            Some((p + *k as usize - 1).min(n))
                        } else {
                            p.checked_sub(-*k as usize)
                        };
                        let got = s.lt(*k).map(|t| tinfo(&**t));
                        if got != want.map(info) {
                            return Err(format!("lt({}) is {:?} instead of {:?}", k, got, want.map(info)));
                        }
                        if *k > 0 {
                            let ty = s.la(*k);
                            if Some(ty) != want.map(|w| info(w).1) {
                                return Err(format!("la({}) is {}", k, ty));
                            }
                            far = far.max(want.unwrap() + 1);
                        }
                    }
                    SOp::Seek(i) => {
                        s.seek(*i);
                        p = *i as usize;
                        far = far.max(p + 1);
                    }
                    SOp::Mark => {
                        let m = s.mark();
                        ms.push((m, p));
                    }
                    SOp::Release => {
                        let (m, _) = ms.pop().unwrap();
                        s.release(m);
                    }
                    SOp::Reset => {}
                }
                if s.index() != p as isize {
                    return Err(format!("index {} instead of {}", s.index(), p));
                }
                if matches!(op, SOp::Consume | SOp::Release) && ms.is_empty() {
                    low = p;
                }
                // nothing before the previous token is kept without a mark
                let kept = far.min(n + 1) as isize - low.saturating_sub(1) as isize;
                if !buffered && ms.is_empty() && s.size() > kept {
                    return Err(format!("{} tokens are kept instead of {}", s.size(), kept));
                }
            }
            // the window that must be stored
            let lo = if buffered { Some(0) } else { ms.first().map(|m| m.1) };
            if let Some(lo) = lo {
                for i in lo..far.min(n + 1) {
                    let t = s.get(i as isize);
                    if tinfo(&**t) != info(i) {
                        return Err(format!("get({}) is {:?}", i, tinfo(&**t)));
                    }
                    for j in i..far.min(n + 1) {
                        let t = s.get_text_from_interval(i as isize, j as isize);
                        if t != ttext(toks, i, j) {
                            return Err(format!("text of {}..={} is {:?}", i, j, t));
                        }
                    }
                }
            }
            let key = hash(&(format!("{:?}", s), p, &ms, far));
            let mut ops: Vec<SOp> = vec![];
            if p < n {
                ops.push(SOp::Consume);
            }
            ops.extend((1..=3).map(SOp::La));
            ops.push(SOp::La(-1));
            for k in 2..=3 {
                // further back only inside the window, or before the first token
                if lo.map(|lo| p >= lo + k).unwrap_or(false) {
                    ops.push(SOp::La(-(k as isize)));
                }
            }
            if ms.len() < marks {
                ops.push(SOp::Mark);
            }
            if !ms.is_empty() {
                ops.push(SOp::Release);
            }
            if let Some(lo) = lo {
                ops.extend((lo..=n).filter(|i| *i != p).map(|i| SOp::Seek(i as isize)));
            }
            if h.len() % 3 == 2 && p == 0 {
                // iterating from the start gives everything
                let rest: Vec<isize> = toks.iter().map(|t| t.ty as isize).collect();
                let got: Vec<isize> = s.iter().collect();
                if got != rest {
                    return Err(format!("iterating gives {:?} instead of {:?}", got, rest));
                }
                let t = s.token_iter().next().map(|t| t.get_token_type());
                if t != Some(TOKEN_EOF) {
                    return Err(format!("token at the end is {:?}", t));
                }
            }
            Ok((key, ops))
        };
        bfs(depth, st, &what, &mut step);
    })
}
pub fn c14(tier: Tier) -> Vec<Plan> {
    let n = tier.pick(6, 8);
    let marks = tier.pick(2, 3);
    let all = tok_seqs(n, 1);
    let nn = all.len();
    let b = format!("all {} token sequences up to length {} over two types; all histories of consume, look by -3..=3, mark (up to {} nested), release of the latest mark and seek inside the marked window, to closure; with and without a permanent mark", nn, n, marks);
    let long = long_seqs(if tier == Tier::Quick { &["000000000000"] } else { &["0000000000000", "00000000000000000"] });
    let bl = format!("{} token sequences of up to {} tokens; the same histories with one mark, to closure", long.len(), long.iter().map(|x| x.len()).max().unwrap());
    let mut out = vec![unbuffered("unbuffered", b, all, marks, 16), unbuffered("long", bl, long, 1, 60)];
    // a parser on the unbuffered stream behaves as on a buffered one
    out.extend(over_families(tier.pick(0, 1), move |f| if f.alpha > 3 { 3 } else { tier.pick(4, 6) }, |g, inputs, st| {
        let mut l = Loaded::new(compile(g));
        for (i, input) in inputs.iter().enumerate() {
            let toks = stoks(input);
            for bail in [false, true] {
                let mut cfg = Cfg::new(Mode::LL);
                cfg.bail = bail;
                if i % 7 == 0 {
                    l.reset();
                }
                let a = guard(|| parse(&l, &toks, &cfg));
                cfg.unbuffered = true;
                l.reset();
                let b = guard(|| parse(&l, &toks, &cfg));
                st.traces += 2;
                st.transitions += 2 * input.len() as u64 + 2;
                if a != b {
                    st.fail(key(g, input), format!("{}\ninput {:?} (bail: {}): on a buffered stream {:?}\non an unbuffered stream {:?}", g.show(), input, bail, a, b));
                    if st.failed() {
                        return;
                    }
                }
            }
        }
        st.states += inputs.len() as u64;
    }));
    out
}
