//! A small regular-expression model: generator, printer to the target syntax, and an independent
//! backtracking matcher with leftmost-first (ordered choice, greedy) semantics.

use crate::rng::Rng;
use regex::Regex;
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq)]
pub enum Rx {
  Ch(char),
  Esc(usize), // one of the escapes of ESC
  Class(Vec<(char, char)>, bool), // negated?
  Cat(Vec<Rx>),
  Alt(Vec<Rx>),
  Rep(Box<Rx>, usize, Option<usize>), // greedy; body never empty-matching
  Lazy(Box<Rx>, usize, Option<usize>), // the same, shortest first
  Grp(Box<Rx>), // a group that captures nothing
  End, // the end of the text
  Bound, // a word boundary; never first
}

/// escapes that stand for a set of characters: text, membership, samples
pub const ESC: &[(&str, fn(char) -> bool, &[char])] = &[
  ("\\d", |c| c.is_ascii_digit() || c == '٣', &['0', '7', '9']),
  ("\\w", |c| c.is_alphanumeric() || c == '_', &['a', 'Z', '5', '_', 'é', '漢']),
  ("\\s", |c| c.is_whitespace(), &[' ', '\n', '\t', '\u{3000}']),
  ("\\S", |c| !c.is_whitespace(), &['a', '/', '🦀', '\\']),
  ("\\D", |c| !(c.is_ascii_digit() || c == '٣'), &['a', '/', 'é']),
  (".", |c| c != '\n', &['a', '"', '\r', '漢', ' ']),
  ("\\x41", |c| c == 'A', &['A']),
  ("\\u{e9}", |c| c == 'é', &['é']),
  ("\\x{2F}", |c| c == '/', &['/']),
  ("[^\\d\\n]", |c| !(c.is_ascii_digit() || c == '٣' || c == '\n'), &['a', '\\', '"']),
  ("[[:digit:]]", |c| c.is_ascii_digit(), &['0', '4']),
  ("[a-z&&[^aeiou]]", |c| c.is_ascii_lowercase() && !"aeiou".contains(c), &['b', 'z']),
  ("\\p{Lu}", |c| c.is_uppercase(), &['A', 'É']),
  ("[/\\\\]", |c| c == '/' || c == '\\', &['/', '\\']),
  ("\n", |c| c == '\n', &['\n']), // white space as such
  ("\t", |c| c == '\t', &['\t']),
  (" ", |c| c == ' ', &[' ']),
  ("(?i:k)", |c| c == 'k' || c == 'K' || c == '\u{212a}', &['k', 'K']),
];

const DOT: usize = 5;
const WORD: usize = 1;

/// Which characters beyond ASCII belong to a class is a matter of Unicode tables; those are taken from the regex crate.
fn stands_for(k: usize, c: char) -> bool {
  if c.is_ascii() { return (ESC[k].1)(c) }
  thread_local! { static TAB: std::cell::RefCell<HashMap<usize, (Regex, HashMap<char, bool>)>> = Default::default(); }
  TAB.with(|t| {
    let mut t = t.borrow_mut();
    let (re, seen) = t.entry(k).or_insert_with(|| (Regex::new(&format!("^(?:{})$", ESC[k].0)).unwrap(), HashMap::new()));
    *seen.entry(c).or_insert_with(|| re.is_match(c.encode_utf8(&mut [0; 4])))
  })
}
const META: &str = "\\.+*?()|[]{}^$&-~ ";

fn esc(c: char, out: &mut String) {
  match c {
    '\n' => out.push_str("\\n"),
    '\r' => out.push_str("\\r"),
    '\t' => out.push_str("\\t"),
    '\u{c}' => out.push_str("\\f"),
    ' ' => out.push(' '),
    _ => { if META.contains(c) { out.push('\\') } out.push(c) }
  }
}

/// The matcher looks at the first CUT characters, and if it ran into the end of those, at the first FAR.
const CUT: usize = 1000;
const FAR: usize = 20_000;
thread_local! {
  static TOUCHED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
  static FUEL: std::cell::Cell<u64> = std::cell::Cell::new(0);
  static OVERRUN: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
/// Did the backtracking matcher give up since the last call? (then its answers cannot be used)
pub fn overrun() -> bool { OVERRUN.with(|o| o.replace(false)) }

fn burn() -> bool { FUEL.with(|f| { let n = f.get(); if n > 0 { f.set(n - 1) } n == 0 }) }
fn at(s: &[char], i: usize) -> Option<char> { if i >= s.len() { TOUCHED.with(|t| t.set(true)) } s.get(i).copied() }

impl Rx {
  pub fn print(&self) -> String { let mut s = String::new(); self.pr(&mut s, 0); s }
  fn pr(&self, o: &mut String, prec: usize) {
    match self {
      Rx::Ch(c) => esc(*c, o),
      Rx::Esc(k) => o.push_str(ESC[*k].0),
      Rx::Class(rs, neg) => {
        o.push('[');
        if *neg { o.push('^') }
        for (a, b) in rs { esc(*a, o); if a != b { o.push('-'); esc(*b, o) } }
        o.push(']');
      }
      Rx::Cat(v) => { if prec > 1 { o.push('(') } for x in v { x.pr(o, 2) } if prec > 1 { o.push(')') } }
      Rx::Alt(v) => {
        if prec > 0 { o.push('(') }
        for (i, x) in v.iter().enumerate() { if i > 0 { o.push('|') } x.pr(o, 1) }
        if prec > 0 { o.push(')') }
      }
      Rx::Grp(x) => { o.push_str("(?:"); x.pr(o, 0); o.push(')') }
      Rx::End => o.push('$'),
      Rx::Bound => o.push_str("\\b"),
      Rx::Rep(x, lo, hi) | Rx::Lazy(x, lo, hi) => {
        let inner = matches!(**x, Rx::Rep(..) | Rx::Lazy(..)); // a?? would be a lazy operator
        if inner { o.push('(') }
        x.pr(o, 3);
        if inner { o.push(')') }
        match (lo, hi) { (0, None) => o.push('*'), (1, None) => o.push('+'), (0, Some(1)) => o.push('?'), (l, Some(h)) => o.push_str(&format!("{{{},{}}}", l, h)), (l, None) => o.push_str(&format!("{{{},}}", l)) }
        if matches!(self, Rx::Lazy(..)) { o.push('?') }
      }
    }
  }
  /// The literal form used in grammar files: between slashes, inner slashes escaped.
  pub fn literal(&self) -> String { format!("/{}/", self.print().replace('/', "\\/")) }

  /// Does it stand for exactly one character, and is c one of those?
  fn one(&self, c: char) -> Option<bool> {
    match self {
      Rx::Ch(x) => Some(*x == c),
      Rx::Esc(e) => Some(stands_for(*e, c)),
      Rx::Class(rs, neg) => Some(rs.iter().any(|(a, b)| *a <= c && c <= *b) != *neg),
      Rx::Grp(x) => x.one(c),
      Rx::Alt(v) => v.iter().try_fold(false, |r, x| x.one(c).map(|y| r || y)),
      _ => None,
    }
  }
  fn m(&self, s: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    match self {
      Rx::Ch(_) | Rx::Esc(_) | Rx::Class(..) => at(s, i).map_or(false, |c| self.one(c) == Some(true)) && k(i + 1),
      Rx::Cat(v) => Rx::seq(v, s, i, k),
      Rx::Alt(v) => v.iter().any(|x| x.m(s, i, k)),
      Rx::Rep(x, lo, hi) => Rx::rep(x, *lo, *hi, s, i, k),
      Rx::Lazy(x, lo, hi) => Rx::lazy(x, *lo, *hi, s, i, k),
      Rx::Grp(x) => x.m(s, i, k),
      Rx::End => at(s, i).is_none() && k(i),
      Rx::Bound => { let w = |c: Option<&char>| c.map_or(false, |c| stands_for(WORD, *c)); w(if i > 0 { s.get(i - 1) } else { None }) != w(at(s, i).as_ref()) && k(i) }
    }
  }
  fn seq(v: &[Rx], s: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    match v.split_first() { None => k(i), Some((h, t)) => h.m(s, i, &mut |j| Rx::seq(t, s, j, k)) }
  }
  fn rep(x: &Rx, lo: usize, hi: Option<usize>, s: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    if burn() { return false }
    if x.one('a').is_some() {
      let mut n = 0;
      while hi.map_or(true, |h| n < h) && at(s, i + n).map_or(false, |c| x.one(c) == Some(true)) { n += 1 }
      return (lo..n + 1).rev().any(|n| !burn() && k(i + n))
    }
    if hi != Some(0) && x.m(s, i, &mut |j| j > i && Rx::rep(x, lo.saturating_sub(1), hi.map(|h| h - 1), s, j, k)) { return true }
    lo == 0 && k(i)
  }
  fn lazy(x: &Rx, lo: usize, hi: Option<usize>, s: &[char], i: usize, k: &mut dyn FnMut(usize) -> bool) -> bool {
    if burn() { return false }
    if x.one('a').is_some() {
      let mut n = 0;
      loop {
        if burn() { return false }
        if n >= lo && k(i + n) { return true }
        if hi.map_or(false, |h| n >= h) || !at(s, i + n).map_or(false, |c| x.one(c) == Some(true)) { return false }
        n += 1;
      }
    }
    if lo == 0 && k(i) { return true }
    hi != Some(0) && x.m(s, i, &mut |j| j > i && Rx::lazy(x, lo.saturating_sub(1), hi.map(|h| h - 1), s, j, k))
  }
  /// byte length of the preferred match at the start of s
  pub fn prefix(&self, s: &str) -> Option<usize> {
    let mut r = self.within(s, CUT);
    if r.1 { r = self.within(s, FAR) }
    if r.1 { OVERRUN.with(|o| o.set(true)) }
    r.0
  }
  /// The match that is found in the first `cut` characters; had more characters been needed, or more time?
  fn within(&self, s: &str, cut: usize) -> (Option<usize>, bool) {
    let cs: Vec<char> = s.chars().take(cut).collect();
    let mut end = None;
    FUEL.with(|f| f.set(300_000));
    TOUCHED.with(|t| t.set(false));
    self.m(&cs, 0, &mut |j| { end = Some(j); true });
    let unsure = FUEL.with(|f| f.get() == 0) || (cs.len() == cut && TOUCHED.with(|t| t.get()));
    (end.map(|j| cs[..j].iter().map(|c| c.len_utf8()).sum()), unsure)
  }
  pub fn sample(&self, rng: &mut Rng, out: &mut String) {
    match self {
      Rx::Ch(c) => out.push(*c),
      Rx::Esc(k) => out.push(*rng.pick(ESC[*k].2)),
      Rx::Class(rs, neg) => {
        if !neg { let (a, b) = *rng.pick(rs); out.push(char::from_u32(a as u32 + rng.below((b as u32 - a as u32 + 1) as usize) as u32).unwrap_or(a)) }
        else { for c in ['q', 'é', '0', 'Z', '!', '漢', 'w'] { if !rs.iter().any(|(a, b)| *a <= c && c <= *b) { out.push(c); return } } }
      }
      Rx::Cat(v) => for x in v { x.sample(rng, out) },
      Rx::Alt(v) => rng.pick(v).clone().sample(rng, out),
      Rx::Grp(x) => x.sample(rng, out),
      Rx::End | Rx::Bound => {}
      Rx::Rep(x, lo, hi) | Rx::Lazy(x, lo, hi) => { let h = hi.unwrap_or(lo + 3); for _ in 0..rng.range(*lo, h) { x.sample(rng, out) } }
    }
  }
  pub fn nullable(&self) -> bool {
    match self { Rx::Ch(_) | Rx::Esc(_) | Rx::Class(..) => false, Rx::Cat(v) => v.iter().all(|x| x.nullable()), Rx::Alt(v) => v.iter().any(|x| x.nullable()), Rx::Rep(x, lo, _) | Rx::Lazy(x, lo, _) => *lo == 0 || x.nullable(), Rx::Grp(x) => x.nullable(), Rx::End | Rx::Bound => true }
  }
}

pub fn random_rx(rng: &mut Rng, depth: usize) -> Rx {
  const CH: &[char] = &['a', 'b', 'c', 'x', '0', '1', '/', '+', '*', '.', '(', '|', '[', '{', '$', '^', '?', '"', '\'', '-', '=', '<', '\\', 'é', '漢', '#', '&', '~', ':', '\n', '/', ' ', '\t'];
  if rng.chance(1, 12) { return Rx::Esc(rng.below(ESC.len())) }
  match rng.below(if depth == 0 { 2 } else { 6 }) {
    0 => Rx::Ch(*rng.pick(CH)),
    1 => {
      let v = [vec![('a', 'c')], vec![('0', '9')], vec![('a', 'z'), ('A', 'Z'), ('_', '_')], vec![('x', 'x'), ('/', '/')], vec![('é', 'é'), ('a', 'b')], vec![('\\', '\\'), ('+', '+'), ('-', '-')]];
      Rx::Class(rng.pick(&v).clone(), rng.chance(1, 8))
    }
    2 | 3 => Rx::Cat((0..rng.range(2, 3)).map(|_| random_rx(rng, depth - 1)).collect()),
    4 => Rx::Alt((0..rng.range(2, 3)).map(|_| random_rx(rng, depth - 1)).collect()),
    _ => {
      let b = random_rx(rng, depth - 1);
      if b.nullable() { return b }
      let (lo, hi) = *rng.pick(&[(0, None), (1, None), (0, Some(1)), (1, Some(2)), (2, Some(3))]);
      let b = if rng.chance(1, 5) { Rx::Grp(Box::new(b)) } else { b };
      if rng.chance(1, 6) { Rx::Lazy(Box::new(b), lo, hi) } else { Rx::Rep(Box::new(b), lo, hi) }
    }
  }
}

/// Token-like expressions that overlap: keywords versus identifiers, operators that are prefixes of others.
pub fn tokenish_rx(rng: &mut Rng) -> Rx {
  let word = |w: &str| Rx::Cat(w.chars().map(Rx::Ch).collect());
  match rng.below(16) {
    14 => { // quotation marks of Rust's own
      let n = rng.range(1, 6);
      let h = "#".repeat(n);
      Rx::Cat(vec![word(&format!("r{}\"", h)), Rx::Rep(Box::new(Rx::Class(vec![('"', '"')], true)), 0, None), word(&format!("\"{}", h))])
    }
    13 => { let n = rng.range(5, 40); Rx::Cat((0..n).map(|_| Rx::Ch(*rng.pick(&['/', '/', '/', 'a', '\\', '+', '|']))).collect()) } // much to escape
    9 => Rx::Cat(vec![word("//"), Rx::Rep(Box::new(Rx::Esc(DOT)), 0, None)]),
    10 => Rx::Cat(vec![word("/*"), Rx::Lazy(Box::new(Rx::Alt(vec![Rx::Esc(DOT), Rx::Ch('\n')])), 0, None), word("*/")]),
    11 => Rx::Cat(vec![word(rng.pick::<&str>(&["if", "in", "end"])), if rng.chance(1, 3) { Rx::End } else { Rx::Bound }]),
    12 => { // white space at either end
      let b = random_rx(rng, 1);
      let (x, y) = (*rng.pick(&[' ', '\n', '\t']), *rng.pick(&[' ', '\n', '\t']));
      let raw = |c: char| Rx::Esc(ESC.iter().position(|e| e.0.len() == 1 && e.0.starts_with(c)).unwrap());
      Rx::Cat(match rng.below(3) { 0 => vec![raw(x), b], 1 => vec![b, raw(x)], _ => vec![raw(x), b, raw(y)] })
    }
    0 => word(rng.pick::<&str>(&["if", "iff", "in", "int", "ab", "abc", "==", "=", "->", "-", "/", "//", "+", "++", "é", "a", "\\", "::="])),
    1 => Rx::Rep(Box::new(Rx::Class(vec![('a', 'z')], false)), 1, None),
    2 => Rx::Cat(vec![Rx::Class(vec![('a', 'z'), ('A', 'Z')], false), Rx::Rep(Box::new(Rx::Class(vec![('a', 'z'), ('A', 'Z'), ('0', '9'), ('_', '_')], false)), 0, None)]),
    3 => Rx::Rep(Box::new(Rx::Class(vec![('0', '9')], false)), 1, None),
    4 => Rx::Alt(vec![word("a"), word("ab"), word("abc")]), // leftmost-first takes the short one
    5 => Rx::Alt(vec![word("::="), word(":="), word("->"), word(":")]),
    6 => Rx::Cat(vec![Rx::Ch('"'), Rx::Rep(Box::new(Rx::Class(vec![('"', '"')], true)), 0, None), Rx::Ch('"')]),
    7 => Rx::Cat(vec![Rx::Ch('/'), Rx::Rep(Box::new(Rx::Class(vec![('/', '/')], true)), 1, None), Rx::Ch('/')]),
    _ => random_rx(rng, 2),
  }
}
