//! Reference model of context-free grammars: generators, and FIRST / FOLLOW / LL(1) by graph reachability
//! (deliberately a different formulation from the fixpoint iteration of the code under test).

use crate::rng::Rng;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use syntaxis::runtime::token::{Position, Token};
use syntaxis::tool::grammar::{Grammar, Production, ProductionItem};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum S { T(usize), N(usize) }

#[derive(Clone, Debug)]
pub struct Cfg {
  /// every registered nonterminal; None = anonymous
  pub nts: BTreeMap<usize, Option<String>>,
  pub terms: BTreeMap<usize, String>,
  pub prods: Vec<(usize, Vec<S>)>,
}

pub type Prod = (usize, Vec<S>);

pub struct Sets {
  pub nullable: BTreeSet<usize>,
  pub first: BTreeMap<usize, BTreeSet<usize>>,
  pub follow: BTreeMap<usize, BTreeSet<usize>>,
}

impl Cfg {
  pub fn describe(&self) -> Value {
    let p: Vec<String> = self.prods.iter().map(|(l, r)| self.show_prod(*l, r)).collect();
    json!({"nonterminals": self.nts, "terminals": self.terms, "productions": p})
  }
  pub fn show_prod(&self, l: usize, r: &[S]) -> String {
    let r: Vec<String> = r.iter().map(|s| match s { S::T(t) => format!("t{}", t), S::N(n) => format!("n{}", n) }).collect();
    format!("n{} -> {}", l, r.join(" "))
  }
  pub fn text(&self) -> String {
    let mut p: Vec<String> = self.prods.iter().map(|(l, r)| self.show_prod(*l, r)).collect();
    p.sort();
    p.join(";")
  }
  pub fn dedup(&mut self) {
    let mut seen = BTreeSet::new();
    self.prods.retain(|p| seen.insert(p.clone()));
  }
  pub fn to_production(p: &Prod) -> Production {
    let r: Vec<ProductionItem> = p.1.iter().map(|s| match s { S::T(t) => ProductionItem::Terminal(*t), S::N(n) => ProductionItem::NonTerminal(*n) }).collect();
    Production::new(p.0, &r)
  }
  /// Build the grammar through the public API, productions in a random insertion order.
  pub fn build(&self, rng: &mut Rng) -> Grammar {
    let mut g = Grammar::new("generated");
    let mut nts: Vec<_> = self.nts.iter().collect();
    rng.shuffle(&mut nts);
    for (id, name) in nts {
      match name {
        Some(n) => { g.vocabulary.add_named_nonterminal(*id, n); }
        None => { g.vocabulary.add_unnamed_nonterminal(*id); }
      }
    }
    for (id, name) in self.terms.iter() { if *id > 1 { g.vocabulary.add_terminal(*id, name); } }
    let mut ps: Vec<&Prod> = self.prods.iter().collect();
    rng.shuffle(&mut ps);
    for p in ps { g.productions.insert(Cfg::to_production(p)); }
    g
  }

  /// Gives some rules and tokens names longer than any fixed-size field would hold.
  pub fn lengthen_names(&mut self, rng: &mut Rng) {
    let n = rng.range(20, 200);
    for v in self.nts.values_mut().flatten() { if rng.chance(1, 2) { *v = format!("{}{}", "long_name_".repeat(n / 10), v) } }
    for v in self.terms.values_mut() { if rng.chance(1, 2) { *v = format!("{}{}", "LONG_NAME_".repeat(n / 10), v) } }
  }

  pub fn nullable(&self) -> BTreeSet<usize> {
    // worklist with remaining-symbol counters
    let mut set = BTreeSet::new();
    let mut need: Vec<usize> = self.prods.iter().map(|p| p.1.len()).collect();
    let mut work: Vec<usize> = vec![];
    for (i, p) in self.prods.iter().enumerate() {
      if p.1.iter().any(|s| matches!(s, S::T(_))) { need[i] = usize::MAX }
      else if p.1.is_empty() && set.insert(p.0) { work.push(p.0) }
    }
    while let Some(n) = work.pop() {
      for (i, p) in self.prods.iter().enumerate() {
        if need[i] == usize::MAX { continue }
        let k = p.1.iter().filter(|s| **s == S::N(n)).count();
        if k > 0 {
          need[i] -= k;
          if need[i] == 0 && set.insert(p.0) { work.push(p.0) }
        }
      }
    }
    set
  }

  fn reach(edges: &BTreeMap<usize, BTreeSet<usize>>, from: usize) -> BTreeSet<usize> {
    let mut seen = BTreeSet::new();
    let mut st = vec![from];
    seen.insert(from);
    while let Some(x) = st.pop() {
      if let Some(e) = edges.get(&x) { for y in e { if seen.insert(*y) { st.push(*y) } } }
    }
    seen
  }

  pub fn sets(&self, start: usize) -> Sets {
    let nullable = self.nullable();
    let mut edges: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    let mut direct: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for (l, r) in &self.prods {
      for s in r {
        match s {
          S::T(t) => { direct.entry(*l).or_default().insert(*t); break }
          S::N(n) => { edges.entry(*l).or_default().insert(*n); if !nullable.contains(n) { break } }
        }
      }
    }
    let mut first = BTreeMap::new();
    for n in self.nts.keys() {
      let mut f = BTreeSet::new();
      for m in Self::reach(&edges, *n) { if let Some(d) = direct.get(&m) { f.extend(d.iter().copied()) } }
      first.insert(*n, f);
    }
    // FOLLOW: direct contributions, plus inherit edges B <- A when B is followed only by nullable symbols in A's rule
    let mut inherits: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    let mut dfollow: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    dfollow.entry(start).or_default().insert(1);
    for (l, r) in &self.prods {
      for i in 0..r.len() {
        if let S::N(b) = r[i] {
          let (f, eps) = Self::first_of(&r[i + 1..], &first, &nullable);
          dfollow.entry(b).or_default().extend(f);
          if eps { inherits.entry(b).or_default().insert(*l); }
        }
      }
    }
    let mut follow = BTreeMap::new();
    for n in self.nts.keys() {
      let mut f = BTreeSet::new();
      for m in Self::reach(&inherits, *n) { if let Some(d) = dfollow.get(&m) { f.extend(d.iter().copied()) } }
      follow.insert(*n, f);
    }
    Sets { nullable, first, follow }
  }

  pub fn first_of(r: &[S], first: &BTreeMap<usize, BTreeSet<usize>>, nullable: &BTreeSet<usize>) -> (BTreeSet<usize>, bool) {
    let mut out = BTreeSet::new();
    for s in r {
      match s {
        S::T(t) => { out.insert(*t); return (out, false) }
        S::N(n) => { out.extend(first[n].iter().copied()); if !nullable.contains(n) { return (out, false) } }
      }
    }
    (out, true)
  }

  /// cell -> indices of the productions that predict it
  pub fn cells(&self, s: &Sets) -> BTreeMap<(usize, usize), BTreeSet<usize>> {
    let mut out: BTreeMap<(usize, usize), BTreeSet<usize>> = BTreeMap::new();
    for (i, (l, r)) in self.prods.iter().enumerate() {
      let (f, eps) = Self::first_of(r, &s.first, &s.nullable);
      for t in f { out.entry((*l, t)).or_default().insert(i); }
      if eps { for t in &s.follow[l] { out.entry((*l, *t)).or_default().insert(i); } }
    }
    out
  }

  pub fn is_ll1(&self) -> bool {
    let s = self.sets(0);
    self.cells(&s).values().all(|c| c.len() == 1)
  }

  /// minimal derivation height per production (None = unproductive)
  pub fn heights(&self) -> (BTreeMap<usize, usize>, Vec<Option<usize>>) {
    let mut h: BTreeMap<usize, usize> = BTreeMap::new();
    let mut ph: Vec<Option<usize>> = vec![None; self.prods.len()];
    loop {
      let mut ch = false;
      for (i, (l, r)) in self.prods.iter().enumerate() {
        let mut m = 0;
        let mut ok = true;
        for s in r { if let S::N(n) = s { match h.get(n) { Some(x) => m = m.max(*x), None => { ok = false; break } } } }
        if !ok { continue }
        if ph[i].map_or(true, |x| m + 1 < x) { ph[i] = Some(m + 1); ch = true }
        let e = h.entry(*l).or_insert(usize::MAX);
        if m + 1 < *e { *e = m + 1; ch = true }
      }
      if !ch { return (h, ph) }
    }
  }
  pub fn all_productive(&self) -> bool { let (h, _) = self.heights(); self.nts.keys().all(|n| h.contains_key(n)) }
}

/// How nonterminal / terminal identifiers are chosen.
fn ids(rng: &mut Rng, n: usize, t: usize) -> (Vec<usize>, Vec<usize>) {
  match rng.below(5) {
    4 => {
      // far apart, and equal in their low 8, 16 or 32 bits
      const FAR: &[usize] = &[1, 2, 3, 7, 255, 256, 257, 258, 65536, 65537, 65538, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, (1 << 32) + 3, (1 << 63) + 2, usize::MAX - 1, usize::MAX];
      let mut nt: Vec<usize> = FAR.to_vec();
      rng.shuffle(&mut nt);
      nt.truncate(n - 1);
      nt.insert(0, 0);
      let mut ts: Vec<usize> = FAR[1..].to_vec();
      rng.shuffle(&mut ts);
      ts.truncate(t);
      (nt, ts)
    }
    0 | 1 => ((0..n).collect(), (2..2 + t).collect()),
    2 => {
      let mut nt = vec![0];
      for i in 1..n { let p = nt[i - 1] + rng.range(1, 4); nt.push(p) }
      let mut ts = vec![2 + rng.below(3)];
      for i in 1..t { let p = ts[i - 1] + rng.range(1, 3); ts.push(p) }
      (nt, ts)
    }
    _ => {
      // permuted: rule numbers and token numbers overlap heavily
      let mut nt: Vec<usize> = (0..n).collect();
      rng.shuffle(&mut nt);
      let mut ts: Vec<usize> = (2..2 + t).collect();
      rng.shuffle(&mut ts);
      (nt, ts)
    }
  }
}

fn shell(rng: &mut Rng, nt: &[usize], ts: &[usize]) -> Cfg {
  let anon = rng.below(3); // 0: all named, 1: some anonymous, 2: many anonymous
  let mut nts = BTreeMap::new();
  for n in nt {
    let a = *n != 0 && match anon { 0 => false, 1 => rng.chance(1, 3), _ => rng.chance(3, 4) };
    nts.insert(*n, if a { None } else { Some(format!("r{}", n)) });
  }
  let mut terms: BTreeMap<usize, String> = ts.iter().map(|t| (*t, format!("T{}", t))).collect();
  if rng.chance(1, 5) {
    // names that look like numbers, like each other, or like names of the other kind
    let mut odd: Vec<String> = ["0", "1", "2", "12", "7", "-3", "_STOP", "_START", "T2", "T3", "r1", "R1", "r_1", "ε", "a b", "规则", "None", "r", "()", "_", "0x1", "1e3", "a,b", "->", "start", "EOF", "\"", "anonymous", "null"].iter().map(|x| x.to_string()).collect();
    for v in nts.values_mut().flatten() { if rng.chance(2, 3) && !odd.is_empty() { let k = rng.below(odd.len()); *v = odd.swap_remove(k) } }
    let mut odd: Vec<String> = ["0", "3", "12", "5", "r1", "R1", "t2", "T2", "T_2", "ε", "\"x\"", "'a'", "a b", "", "+", "_", "EOF", "规则"].iter().map(|x| x.to_string()).collect();
    for v in terms.values_mut() { if rng.chance(1, 2) && !odd.is_empty() { let k = rng.below(odd.len()); *v = odd.swap_remove(k) } }
    // names stay unique within their kind
    let mut seen = BTreeSet::new();
    for (k, v) in nts.iter_mut() { if let Some(x) = v { if !seen.insert(x.clone()) { *v = Some(format!("rule {}", k)) } } }
    let mut seen = BTreeSet::new();
    for (k, v) in terms.iter_mut() { if !seen.insert(v.clone()) { *v = format!("token {}", k) } }
  }
  Cfg { nts, terms, prods: vec![] }
}

/// Arbitrary grammar: recursion of every kind, nullable chains, unproductive and unreachable rules.
pub fn random_cfg(rng: &mut Rng, big: bool) -> Cfg {
  let n = if big { rng.range(4, 14) } else { rng.range(1, 6) };
  let t = rng.range(1, if big { 9 } else { 5 });
  let (nt, mut ts) = ids(rng, n, t);
  let mut g = shell(rng, &nt, &ts);
  if rng.chance(1, 12) { ts.push(1) } // the end marker used explicitly in a rule
  let eps = rng.range(1, 6);
  let tprob = rng.range(1, 5);
  for l in &nt {
    if rng.chance(1, 25) { continue } // registered, no production
    for _ in 0..rng.range(1, 4) {
      let mut r = vec![];
      if !rng.chance(1, eps + 1) {
        for _ in 0..rng.range(1, 4) {
          r.push(if rng.chance(tprob, 6) { S::T(*rng.pick(&ts)) } else { S::N(*rng.pick(&nt)) });
        }
      }
      g.prods.push((*l, r));
    }
  }
  g.dedup();
  g
}

/// Long dependency chains: information has to travel through many rules (fixpoint depth, iteration order).
pub fn chain_cfg(rng: &mut Rng) -> Cfg { let n = rng.range(5, 30); chain_of(rng, n) }
pub fn chain_of(rng: &mut Rng, n: usize) -> Cfg {
  let t = rng.range(2, 6);
  let mut order: Vec<usize> = (0..n).collect();
  if rng.chance(1, 2) { rng.shuffle(&mut order) }
  if let Some(p) = order.iter().position(|x| *x == 0) { order.swap(0, p) }
  let ts: Vec<usize> = (2..2 + t).collect();
  let mut g = shell(rng, &order, &ts);
  // bare: nothing but the chain, so that the number of passes a fixpoint needs is as large as it gets for the grammar's size
  let kind = rng.below(6);
  let bare = rng.chance(1, 2);
  for i in 0..n {
    let me = order[i];
    let mut r = vec![];
    let next = if i + 1 < n { Some(order[i + 1]) } else { None };
    match kind {
      0 => { // unit chain, terminal at the end
        match next { Some(x) => r.push(S::N(x)), None => r.push(S::T(*rng.pick(&ts))) }
      }
      1 => { // nullable prefix: A_i -> A_{i+1} t ; last nullable
        match next { Some(x) => { r.push(S::N(x)); if rng.chance(1, 3) { r.push(S::T(*rng.pick(&ts))) } } None => {} }
      }
      2 => { // FOLLOW chain: A_i -> t A_{i+1}
        r.push(S::T(*rng.pick(&ts)));
        if let Some(x) = next { r.push(S::N(x)) }
      }
      3 => { // pairs of nullables
        if let Some(x) = next { r.push(S::N(x)); if i + 2 < n { r.push(S::N(order[i + 2])) } }
      }
      4 => { // what follows the first rule is all that follows the others
        if i == 0 { if let Some(x) = next { r.push(S::N(x)); r.push(S::T(*rng.pick(&ts))) } } else { match next { Some(x) => r.push(S::N(x)), None => r.push(S::T(*rng.pick(&ts))) } }
      }
      _ => { // left-recursive ring
        match next { Some(x) => { r.push(S::N(x)); r.push(S::T(*rng.pick(&ts))) } None => r.push(S::N(order[0])) }
      }
    }
    g.prods.push((me, r));
    if bare { continue }
    if rng.chance(1, 5) { g.prods.push((me, if rng.chance(1, 2) { vec![] } else { vec![S::T(*rng.pick(&ts))] })) }
    if rng.chance(1, 10) { g.prods.push((me, vec![S::N(*rng.pick(&order)), S::T(*rng.pick(&ts))])) }
  }
  g.dedup();
  g
}

/// Many tokens, many alternatives or long right-hand sides (bit sets, fixed-size buffers, cut-offs).
pub fn wide_cfg(rng: &mut Rng) -> Cfg {
  let n = rng.range(2, 6);
  let t = *rng.pick(&[17, 40, 70, 140, 270]);
  let nt: Vec<usize> = (0..n).collect();
  let ts: Vec<usize> = (2..2 + t).collect();
  let mut g = shell(rng, &nt, &ts);
  let ll1 = rng.chance(1, 2);
  for l in &nt {
    // each rule takes a share of the tokens as leading tokens
    let mine: Vec<usize> = if ll1 { ts.iter().copied().filter(|x| x % n == *l).collect() } else { ts.iter().copied().filter(|_| rng.chance(1, 3)).collect() };
    for x in mine {
      let mut r = vec![S::T(x)];
      let m = if rng.chance(1, 30) { 40 } else { rng.below(3) };
      for _ in 0..m { r.push(if rng.chance(1, 2) { S::T(*rng.pick(&ts)) } else { S::N(*rng.pick(&nt)) }) }
      g.prods.push((*l, r));
    }
    if *l > 0 && rng.chance(1, 2) { g.prods.push((*l, vec![])) }
  }
  // a long row of rules that may all derive nothing
  let k = rng.range(1, 25);
  let mut row: Vec<S> = (0..k).map(|_| S::N(rng.range(1, n - 1))).collect();
  if rng.chance(1, 2) { row.push(S::T(*rng.pick(&ts))) }
  g.prods.push((0, row));
  g.dedup();
  g
}

/// Grammar that is LL(1), every rule productive (constructed, then filtered by the reference).
pub fn ll1_cfg(rng: &mut Rng, big: bool) -> Cfg {
  loop {
    let n = if big { rng.range(3, 10) } else { rng.range(1, 6) };
    let t = rng.range(2, if big { 10 } else { 6 });
    let (nt, ts) = ids(rng, n, t);
    let mut g = shell(rng, &nt, &ts);
    let style = rng.below(4);
    let empty = if style == 3 { 4 } else { 2 };
    for l in nt.iter() {
      let mut lead = ts.clone();
      rng.shuffle(&mut lead);
      let k = rng.range(1, 3.min(lead.len()));
      let mut rules_only = false;
      for j in 0..k {
        let mut r = vec![];
        match style {
          // nothing but rules, most of which may be empty
          3 if j == 0 && rng.chance(1, 2) => { rules_only = true; for _ in 0..rng.range(2, 4) { r.push(S::N(*rng.pick(&nt))) } g.prods.push((*l, r)); continue }
          0 => r.push(S::T(lead[j])),
          _ => if j == 0 && rng.chance(1, 2) { r.push(S::N(*rng.pick(&nt))) } else { r.push(S::T(lead[j])) },
        }
        for _ in 0..rng.below(4) {
          r.push(if rng.chance(1, 2) { S::T(*rng.pick(&ts)) } else { S::N(*rng.pick(&nt)) });
        }
        g.prods.push((*l, r));
      }
      if rng.chance(if rules_only { 1 } else { empty }, 5) { g.prods.push((*l, vec![])) }
    }
    g.dedup();
    if g.is_ll1() && g.all_productive() { if rng.chance(1, 2) { decorate(rng, &mut g) } return g }
  }
}

/// Further rules, named or not, that keep an LL(1) grammar LL(1): parts given a name, parts that are or may be empty anywhere.
fn decorate(rng: &mut Rng, g: &mut Cfg) {
  if g.prods.is_empty() { return }
  for _ in 0..rng.range(1, 6) {
    let old = g.clone();
    let h = (rng.range(1, 20)..).find(|n| !g.nts.contains_key(n)).unwrap();
    g.nts.insert(h, if rng.chance(1, 2) { None } else { Some(format!("extra{}", h)) });
    let k = rng.below(g.prods.len());
    let len = g.prods[k].1.len();
    let a = rng.below(len + 1);
    match rng.below(4) {
      0 => { // a part (maybe none of it, maybe all) becomes a rule
        let b = rng.range(a, len);
        let part: Vec<S> = g.prods[k].1.splice(a..b, [S::N(h)]).collect();
        g.prods.push((h, part));
      }
      1 => { // a rule that derives nothing
        g.prods[k].1.insert(a, S::N(h));
        g.prods.push((h, vec![]));
      }
      2 => { // something optional
        let t = (rng.range(2, 20)..).find(|t| !g.terms.contains_key(t)).unwrap();
        g.terms.insert(t, format!("OPTION{}", t));
        g.prods[k].1.insert(a, S::N(h));
        let more = if rng.chance(1, 3) { vec![S::T(t), S::N(h)] } else { vec![S::T(t)] };
        g.prods.push((h, more));
        g.prods.push((h, vec![]));
      }
      _ => { // some alternatives move to a rule of their own
        let l = g.prods[k].0;
        for p in g.prods.iter_mut() { if p.0 == l && rng.chance(1, 2) { p.0 = h } }
        if !g.prods.iter().any(|p| p.0 == h) { *g = old; continue }
        g.prods.push((l, vec![S::N(h)]));
      }
    }
    if !g.is_ll1() || !g.all_productive() { *g = old }
  }
}

// ---------------------------------------------------------------- trees

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
  Rule { index: usize, name: String, kids: Vec<Tree> },
  Tok(usize), // position in the token vector
}

pub fn show_tree(t: &Tree) -> String {
  match t {
    Tree::Tok(i) => format!("#{}", i),
    Tree::Rule { name, kids, .. } => format!("{}({})", name, kids.iter().map(show_tree).collect::<Vec<_>>().join(" ")),
  }
}

pub fn nt_name(g: &Cfg, n: usize) -> String { g.nts.get(&n).cloned().flatten().unwrap_or_else(|| n.to_string()) }

/// Random derivation from `start`; terminals are appended to `out`. Children of anonymous nonterminals are spliced in.
pub fn derive(g: &Cfg, rng: &mut Rng, start: usize, budget: usize, max_depth: usize, out: &mut Vec<usize>) -> Tree {
  let (_, ph) = g.heights();
  let mut by: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
  for (i, p) in g.prods.iter().enumerate() { if ph[i].is_some() { by.entry(p.0).or_default().push(i) } }
  let mut left = budget;
  let eager = if max_depth > 200 { 200 } else if rng.chance(1, 2) { 5 } else { 0 };
  Tree::Rule { index: start, name: nt_name(g, start), kids: derive_kids(g, rng, start, &by, &ph, &mut left, max_depth, eager, out) }
}

fn derive_kids(g: &Cfg, rng: &mut Rng, n: usize, by: &BTreeMap<usize, Vec<usize>>, ph: &[Option<usize>], left: &mut usize, depth: usize, eager: usize, out: &mut Vec<usize>) -> Vec<Tree> {
  let alts = &by[&n];
  let pi = if *left == 0 || depth == 0 { *alts.iter().min_by_key(|i| ph[**i]).unwrap() } else {
    // eager: rather the productions that go on, with the odds eager - 1 to 1
    let long: Vec<usize> = alts.iter().copied().filter(|i| g.prods[*i].1.len() > 1 || g.prods[*i].1.iter().any(|s| matches!(s, S::N(_)))).collect();
    if eager > 0 && !long.is_empty() && rng.chance(eager - 1, eager) { *rng.pick(&long) } else { *rng.pick(alts) }
  };
  *left = left.saturating_sub(1);
  let mut kids = vec![];
  for s in g.prods[pi].1.iter() {
    match s {
      S::T(t) => { kids.push(Tree::Tok(out.len())); out.push(*t) }
      S::N(m) => {
        let sub = derive_kids(g, rng, *m, by, ph, left, depth.saturating_sub(1), eager, out);
        if g.nts.get(m).cloned().flatten().is_some() { kids.push(Tree::Rule { index: *m, name: nt_name(g, *m), kids: sub }) }
        else { kids.extend(sub) }
      }
    }
  }
  kids
}

/// Most children under one node.
pub fn widest(t: &Tree) -> usize { match t { Tree::Rule { kids, .. } => kids.iter().map(widest).max().unwrap_or(0).max(kids.len()), _ => 0 } }

/// Reference LL(1) parse (explicit stack of frames). Ok((tree, consumed)) or Err(position where it got stuck).
pub fn ref_parse(g: &Cfg, cells: &BTreeMap<(usize, usize), BTreeSet<usize>>, start: usize, toks: &[usize]) -> Result<(Tree, usize), usize> {
  let mut pos = 0;
  let kids = ref_kids(g, cells, start, toks, &mut pos)?;
  Ok((Tree::Rule { index: start, name: nt_name(g, start), kids }, pos))
}

fn ref_kids(g: &Cfg, cells: &BTreeMap<(usize, usize), BTreeSet<usize>>, n: usize, toks: &[usize], pos: &mut usize) -> Result<Vec<Tree>, usize> {
  if *pos >= toks.len() { return Err(*pos) }
  let c = cells.get(&(n, toks[*pos])).ok_or(*pos)?;
  let p = &g.prods[*c.iter().next().unwrap()];
  let mut kids = vec![];
  for s in p.1.iter() {
    match s {
      S::T(t) => {
        if *pos >= toks.len() || toks[*pos] != *t { return Err(*pos) }
        kids.push(Tree::Tok(*pos));
        *pos += 1;
      }
      S::N(m) => {
        let sub = ref_kids(g, cells, *m, toks, pos)?;
        if g.nts.get(m).cloned().flatten().is_some() { kids.push(Tree::Rule { index: *m, name: nt_name(g, *m), kids: sub }) } else { kids.extend(sub) }
      }
    }
  }
  Ok(kids)
}

/// Is `kids` a possible child list of nonterminal `n`? (anonymous rules are inlined; no left recursion assumed)
pub fn valid_kids(g: &Cfg, n: usize, kids: &[Tree], toks: &[usize], depth: usize) -> bool {
  g.prods.iter().filter(|p| p.0 == n).any(|p| match_syms(g, &p.1, kids, toks, depth).contains(&kids.len()))
}

fn match_syms(g: &Cfg, syms: &[S], kids: &[Tree], toks: &[usize], depth: usize) -> BTreeSet<usize> {
  let mut ends: BTreeSet<usize> = [0].into();
  for s in syms {
    let mut next = BTreeSet::new();
    for e in ends {
      match s {
        S::T(t) => if let Some(Tree::Tok(i)) = kids.get(e) { if toks.get(*i) == Some(t) { next.insert(e + 1); } },
        S::N(m) => {
          if g.nts.get(m).cloned().flatten().is_some() {
            if let Some(Tree::Rule { index, kids: sub, .. }) = kids.get(e) {
              if index == m && valid_kids(g, *m, sub, toks, depth) { next.insert(e + 1); }
            }
          } else if depth > 0 {
            for p in g.prods.iter().filter(|p| p.0 == *m) {
              for k in match_syms(g, &p.1, &kids[e..], toks, depth - 1) { next.insert(e + k); }
            }
          }
        }
      }
    }
    ends = next;
    if ends.is_empty() { break }
  }
  ends
}

pub fn frontier(t: &Tree, out: &mut Vec<usize>) {
  match t { Tree::Tok(i) => out.push(*i), Tree::Rule { kids, .. } => for k in kids { frontier(k, out) } }
}

/// Earley recogniser: is this string derivable from `start`? (any grammar)
pub struct Earley { prods: Vec<Prod>, by: BTreeMap<usize, Vec<usize>>, nullable: BTreeSet<usize> }
impl Earley {
  pub fn new(g: &Cfg) -> Earley {
    let mut by: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    for (i, p) in g.prods.iter().enumerate() { by.entry(p.0).or_default().push(i) }
    Earley { prods: g.prods.clone(), by, nullable: g.nullable() }
  }
  pub fn accepts(&self, start: usize, s: &[usize]) -> bool {
    // item = (production, dot, origin)
    let mut sets: Vec<HashSet<(usize, usize, usize)>> = vec![HashSet::new(); s.len() + 1];
    let mut waiting: Vec<BTreeMap<usize, Vec<(usize, usize, usize)>>> = vec![BTreeMap::new(); s.len() + 1];
    let mut predicted: Vec<HashSet<usize>> = vec![HashSet::new(); s.len() + 1];
    let mut work: Vec<(usize, usize, usize)> = vec![];
    predicted[0].insert(start);
    for p in self.by.get(&start).into_iter().flatten() { work.push((*p, 0, 0)) }
    let mut done = false;
    for i in 0..=s.len() {
      let mut next: Vec<(usize, usize, usize)> = vec![];
      done = false;
      while let Some(it) = work.pop() {
        if !sets[i].insert(it) { continue }
        let (p, d, o) = it;
        match self.prods[p].1.get(d) {
          Some(S::T(t)) => if i < s.len() && s[i] == *t { next.push((p, d + 1, o)) },
          Some(S::N(n)) => {
            waiting[i].entry(*n).or_default().push(it);
            if predicted[i].insert(*n) { for q in self.by.get(n).into_iter().flatten() { work.push((*q, 0, i)) } }
            if self.nullable.contains(n) { work.push((p, d + 1, o)) }
          }
          None => {
            let l = self.prods[p].0;
            if l == start && o == 0 { done = true }
            // a rule finished where it began derives nothing: its uses were advanced when they were found
            if o < i { for w in waiting[o].get(&l).cloned().unwrap_or_default() { work.push((w.0, w.1 + 1, w.2)) } }
          }
        }
      }
      if next.is_empty() && i < s.len() { return false }
      work = next;
    }
    done
  }
}

// ---------------------------------------------------------------- tokens

/// Tokens with distinguishable payloads so that a swapped, dropped or altered token is visible. One sequence in
/// three has payloads that mislead: only the token's type says what it is.
pub fn make_tokens(g: &Cfg, rng: &mut Rng, types: &[usize]) -> Vec<Token> {
  let mut off = rng.below(5);
  let mut idx = rng.below(3);
  let mislead = rng.chance(1, 3);
  let names: Vec<String> = g.terms.values().cloned().chain(g.nts.values().flatten().cloned()).chain(["", "_STOP", "_START", "EOF", "ε", "ERROR", "WHITE_SPACE", "0", "1"].iter().map(|x| x.to_string())).collect();
  types.iter().enumerate().map(|(i, t)| {
    let len = 1 + rng.below(6);
    if mislead && rng.chance(2, 3) {
      let n = |rng: &mut Rng| match rng.below(4) { 0 => 0, 1 => rng.below(300), 2 => 1 << rng.below(64), _ => usize::MAX - rng.below(2) };
      return Token {
        token_type: *t, token_name: rng.pick(&names).clone(),
        start: Position { line: n(rng), char_position: n(rng) }, stop: Position { line: n(rng), char_position: n(rng) },
        channel: if rng.chance(1, 2) { rng.below(4) } else { n(rng) },
        text: if rng.chance(1, 2) { rng.pick(&names).clone() } else { format!("{}\n$`{}", rng.pick::<&str>(&["", "<EOF>", "ε", "漢", " ", "//"]), i) },
        token_index: n(rng), char_start_index: n(rng), char_stop_index: n(rng),
      };
    }
    let name = if *t == 1 { "_STOP".to_string() } else { g.terms.get(t).cloned().unwrap_or_else(|| format!("X{}", t)) };
    let tok = Token {
      token_type: *t, token_name: name,
      start: Position { line: i, char_position: off % 80 }, stop: Position { line: i, char_position: off % 80 + len },
      channel: 0, text: format!("lexeme-{}-{}", i, rng.below(1000)), token_index: idx,
      char_start_index: off, char_stop_index: off + len,
    };
    off += len + rng.below(3);
    idx += 1 + rng.below(2);
    tok
  }).collect()
}

pub fn tok_eq(a: &Token, b: &Token) -> bool {
  a.token_type == b.token_type && a.token_name == b.token_name && a.start.line == b.start.line && a.start.char_position == b.start.char_position
    && a.stop.line == b.stop.line && a.stop.char_position == b.stop.char_position && a.channel == b.channel && a.text == b.text
    && a.token_index == b.token_index && a.char_start_index == b.char_start_index && a.char_stop_index == b.char_stop_index
}

use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};

/// Convert a real tree to the model, resolving each terminal to the token it carries (all fields equal).
/// Err describes a terminal that is no token of the input, or a token used out of order.
pub fn observe(root: &RuleContext, toks: &[Token]) -> Result<Tree, String> {
  fn go(r: &RuleContext, toks: &[Token], cursor: &mut usize) -> Result<Tree, String> {
    let mut kids = vec![];
    for c in r.children.iter() {
      kids.push(match c {
        ASTContext::Rule(x) => go(x, toks, cursor)?,
        ASTContext::Terminal(x) => {
          if *cursor >= toks.len() || !tok_eq(&x.symbol, &toks[*cursor]) { return Err(format!("leaf {} is not token #{} of the input", x.symbol, *cursor)) }
          *cursor += 1;
          Tree::Tok(*cursor - 1)
        }
        ASTContext::Error(x) => return Err(format!("error node {}", x.symbol)),
      });
    }
    Ok(Tree::Rule { index: r.rule_index, name: r.rule_name.clone(), kids })
  }
  go(root, toks, &mut 0)
}
