//! C29: names of tokens and printed tokens. Name tables, token sets and tokens are enumerated;
//! the oracle is the tables themselves.
use crate::p_lex::unsafe_long;
use crate::run::*;
use antlr_rust::interval_set::IntervalSet;
use antlr_rust::token::{CommonToken, OwningToken, Token};
use antlr_rust::token_factory::{ArenaCommonFactory, ArenaOwningFactory, CommonTokenFactory, OwningTokenFactory, TokenFactory};
use antlr_rust::InputStream;
use antlr_rust::vocabulary::{Vocabulary, VocabularyImpl};

type Tab = Vec<Option<&'static str>>;
fn tables(e: &[Option<&'static str>], max: usize) -> Vec<Tab> {
    let mut all: Vec<Tab> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..max {
        let mut next = vec![];
        for t in &last {
            for x in e {
                let mut t = t.clone();
                t.push(*x);
                next.push(t);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
fn at(t: &Tab, i: isize) -> Option<&'static str> {
    if i < 0 {
        None
    } else {
        t.get(i as usize).copied().flatten()
    }
}
/// what the tables say about one token type: literal, symbolic, display name
fn want(l: &Tab, s: &Tab, d: &Tab, i: isize) -> (Option<String>, Option<String>, String) {
    let lit = at(l, i).map(|x| x.to_string());
    let sym = if i == -1 { Some("EOF".to_string()) } else { at(s, i).map(|x| x.to_string()) };
    let dis = match (at(d, i), &lit, &sym) {
        (Some(x), _, _) => x.to_string(),
        (None, Some(x), _) => x.clone(),
        (None, None, Some(x)) => x.clone(),
        _ => i.to_string(),
    };
    (lit, sym, dis)
}
fn check(v: &VocabularyImpl, l: &Tab, s: &Tab, d: &Tab, n: isize, st: &mut Stats) -> Result<(), String> {
    let max = l.len().max(s.len()).max(d.len()) as isize - 1;
    if v.get_max_token_type() != max {
        return Err(format!("the highest token type is {} instead of {}", v.get_max_token_type(), max));
    }
    for i in (-3..=n).chain([isize::MAX, isize::MIN]) {
        let got = (v.get_literal_name(i).map(|x| x.to_string()), v.get_symbolic_name(i).map(|x| x.to_string()), v.get_display_name(i).into_owned());
        let w = want(l, s, d, i);
        st.transitions += 3;
        st.outcome(&w);
        if got != w {
            return Err(format!("token type {} has the names {:?} instead of {:?}", i, got, w));
        }
    }
    Ok(())
}
/// the printed form of every set of token types
fn sets(v: &VocabularyImpl, l: &Tab, s: &Tab, d: &Tab, n: isize, st: &mut Stats) -> Result<(), String> {
    let u: Vec<isize> = (-2..=n).collect();
    for m in 0..1usize << u.len() {
        let el: Vec<isize> = u.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, x)| *x).collect();
        let mut set = IntervalSet::new();
        for x in &el {
            set.add_one(*x);
        }
        let names: Vec<String> = el
            .iter()
            .map(|x| match x {
                -2 => "<EPSILON>".to_string(),
                -1 => "<EOF>".to_string(),
                x => want(l, s, d, *x).2,
            })
            .collect();
        let w = if names.len() == 1 { names[0].clone() } else { format!("{{{}}}", names.join(", ")) };
        let got = set.to_token_string(v);
        st.traces += 1;
        if got != w {
            return Err(format!("the set {:?} is printed as {} instead of {}", el, got, w));
        }
    }
    Ok(())
}
fn texts(max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = all.clone();
    for _ in 0..max {
        let mut next = vec![];
        for t in &last {
            for c in ["a", "\n", "\r", "\t", "'", "\\", "é"] {
                next.push(format!("{}{}", t, c));
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
struct Tk {
    ty: isize,
    ch: isize,
    start: isize,
    stop: isize,
    line: isize,
    col: isize,
    text: String,
}
fn printed(k: &Tk, index: isize) -> String {
    let text: String = if k.ty == -1 { "<EOF>".into() } else { k.text.chars().map(|c| match c { '\n' => "\\n".to_string(), '\r' => "\\r".to_string(), '\t' => "\\t".to_string(), c => c.to_string() }).collect() };
    let ch = if k.ch > 0 { format!(",channel={}", k.ch) } else { String::new() };
    format!("[@{},{}:{}='{}',<{}>{},{}:{}]", index, k.start, k.stop, text, k.ty, ch, k.line, k.col)
}
fn fields<T: Token + ?Sized>(t: &T) -> (isize, isize, isize, isize, isize, isize, isize) {
    (t.get_token_type(), t.get_channel(), t.get_start(), t.get_stop(), t.get_line(), t.get_column(), t.get_token_index())
}
fn token<T>(what: &str, t: &T, k: &Tk, own: impl Fn(&T) -> OwningToken, text: impl Fn(&T) -> String, st: &mut Stats) -> Result<(), String>
where
    T: Token + std::fmt::Display,
{
    let wt = if k.ty == -1 { "<EOF>".to_string() } else { k.text.clone() };
    for index in [-1isize, 0, 7] {
        if index >= 0 {
            t.set_token_index(index);
        }
        let w = (k.ty, k.ch, k.start, k.stop, k.line, k.col, index);
        st.transitions += 1;
        if fields(t) != w || text(t) != wt {
            return Err(format!("{}: the token is {:?} {:?} instead of {:?} {:?}", what, fields(t), text(t), w, wt));
        }
        let p = format!("{}", t);
        if p != printed(k, index) {
            return Err(format!("{}: printed as {} instead of {}", what, p, printed(k, index)));
        }
        let o = own(t);
        if fields(&o) != w || o.get_text() != wt || format!("{}", o) != p {
            return Err(format!("{}: its owned copy is {} instead of {}", what, o, p));
        }
        // copies are independent of the original
        o.set_token_index(99);
        let c = o.clone();
        if fields(&c) != fields(&o) || c.get_text() != wt || t.get_token_index() != index {
            return Err(format!("{}: a copy is {} instead of {}", what, c, o));
        }
    }
    Ok(())
}

pub fn c29(t: Tier) -> Vec<Plan> {
    let mut v = vec![];
    let n = t.pick(2usize, 3);
    let names: [Option<&'static str>; 4] = [None, Some(""), Some("'x'"), Some("Y")];
    let tabs = tables(&names, n);
    let k = tabs.len();
    v.push(plan("name tables", format!("all triples of literal, symbolic and display name tables with up to {} entries out of {:?}, and without display names; every token type from -3 to {}", n, names, n + 1), k * k, move |i, st| {
        let (l, s) = (&tabs[i / k], &tabs[i % k]);
        for d in 0..=k {
            let none = vec![];
            let dd = if d == k { &none } else { &tabs[d] };
            let voc = guard(|| if d == k { VocabularyImpl::new(l.iter(), s.iter(), None) } else { VocabularyImpl::new(l.iter(), s.iter(), Some(tabs[d].iter())) });
            st.states += 1;
            st.traces += 1;
            let r = voc.and_then(|voc| guard(|| { let mut x = Stats::default(); let r = check(&voc, l, s, dd, n as isize + 1, &mut x); (r, x) }));
            match r {
                Ok((r, x)) => {
                    st.transitions += x.transitions;
                    st.outcomes.extend(x.outcomes);
                    if let Err(e) = r {
                        st.fail(format!("{:?} {:?} {:?}", l, s, dd), format!("literal names {:?}, symbolic names {:?}, display names {:?}: {}", l, s, dd, e));
                    }
                }
                Err(e) => st.fail(format!("{:?} {:?} {:?}", l, s, dd), format!("literal names {:?}, symbolic names {:?}, display names {:?}: {}", l, s, dd, e)),
            }
            if st.failed() {
                return;
            }
        }
        st.sample(|| format!("literal {:?} symbolic {:?}", l, s));
    }));
    let m = t.pick(4usize, 5);
    let names: [Option<&'static str>; 7] = [None, Some(""), Some("'x'"), Some("'"), Some("Ab"), Some("aB"), Some("Éa")];
    let tabs = tables(&names, m);
    let chunk = 50;
    v.push(plan("names from one table", format!("all tables of up to {} token names out of {:?}: quoted ones are literals, those with a capital first letter symbols, all are display names", m, names), (tabs.len() + chunk - 1) / chunk, move |i, st| {
        for tab in tabs.iter().skip(i * chunk).take(chunk) {
            let l: Tab = tab.iter().map(|x| x.filter(|x| x.starts_with('\''))).collect();
            let s: Tab = tab.iter().map(|x| x.filter(|x| x.chars().next().map_or(false, |c| c.is_uppercase()))).collect();
            st.states += 1;
            st.traces += 1;
            let r = guard(|| {
                let voc = VocabularyImpl::from_token_names(tab);
                let mut x = Stats::default();
                let r = check(&voc, &l, &s, tab, m as isize + 1, &mut x).and_then(|_| if tab.len() < 4 { sets(&voc, &l, &s, tab, 5, &mut x) } else { Ok(()) });
                (r, x)
            });
            match r {
                Ok((r, x)) => {
                    st.transitions += x.transitions;
                    st.traces += x.traces;
                    st.outcomes.extend(x.outcomes);
                    if let Err(e) = r {
                        st.fail(format!("{:?}", tab), format!("token names {:?}: {}", tab, e));
                    }
                }
                Err(e) => st.fail(format!("{:?}", tab), format!("token names {:?}: {}", tab, e)),
            }
            if st.failed() {
                return;
            }
        }
    }));
    let tx = texts(t.pick(3, 4));
    v.push(plan("printed tokens", format!("tokens of all four factories with types -1, 1, 12, channels 0, 1, 2, 11, six positions, unset and set index, and all texts up to {} characters out of letters, line ends, tabs, quotes, backslashes", t.pick(3, 4)), tx.len(), move |i, st| {
        let text = &tx[i];
        for ty in [-1isize, 1, 12] {
            for ch in [0isize, 1, 2, 11] {
                for (start, stop, line, col) in [(0, -1, 1, 0), (0, 0, 1, 0), (3, 5, 1, 3), (12, 30, 4, 11), (5, 4, 2, 0), (100, 100, 10, 0)] {
                    let k = Tk { ty, ch, start, stop, line, col, text: text.clone() };
                    st.states += 1;
                    st.traces += 4;
                    let r = guard(|| {
                        let mut x = Stats::default();
                        let r = (|| {
                            let none = || None::<&mut InputStream<&'static str>>;
                            let c = CommonTokenFactory.create(none(), ty, Some(text.clone()), ch, start, stop, line, col);
                            token("borrowing factory", &*c, &k, |t: &CommonToken| Token::to_owned(t), |t| t.get_text().to_string(), &mut x)?;
                            let c = OwningTokenFactory.create(none(), ty, Some(text.clone()), ch, start, stop, line, col);
                            token("owning factory", &*c, &k, |t: &OwningToken| Token::to_owned(t), |t| t.get_text().to_string(), &mut x)?;
                            let f = ArenaCommonFactory::default();
                            let c = unsafe_long(&f).create(none(), ty, Some(text.clone()), ch, start, stop, line, col);
                            token("arena of borrowing tokens", c, &k, |t: &CommonToken| Token::to_owned(t), |t| t.get_text().to_string(), &mut x)?;
                            let f = ArenaOwningFactory::default();
                            let c = unsafe_long(&f).create(none(), ty, Some(text.clone()), ch, start, stop, line, col);
                            token("arena of owning tokens", c, &k, |t: &OwningToken| Token::to_owned(t), |t| t.get_text().to_string(), &mut x)
                        })();
                        (r, x)
                    });
                    match r {
                        Ok((r, x)) => {
                            st.transitions += x.transitions;
                            if let Err(e) = r {
                                st.fail(printed(&k, 0), e);
                            }
                        }
                        Err(e) => st.fail(printed(&k, 0), format!("{}: {}", printed(&k, 0), e)),
                    }
                    if st.failed() {
                        return;
                    }
                }
            }
        }
        st.outcome(text);
    }));
    v
}
