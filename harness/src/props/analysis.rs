use crate::cfg::*;
use crate::rt::{Cx, Prop};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use syntaxis::tool::grammar::{Collection, Grammar, Production, ProductionItem};

pub fn any_cfg(cx: &mut Cx) -> Cfg {
  let r = &mut cx.rng;
  if r.chance(1, 60) { return wide_cfg(r) }
  if r.chance(1, 100) { let n = *r.pick(&[60, 100, 150, 150, 300]); return chain_of(r, n) }
  let mut g = match r.below(8) {
    0..=2 => random_cfg(r, false),
    3 | 4 => random_cfg(r, true),
    5 | 6 => chain_cfg(r),
    _ => ll1_cfg(r, true),
  };
  if r.chance(1, 12) { g.lengthen_names(r) }
  g
}

fn fixed(cx: &Cx) -> Option<Cfg> {
  use S::*;
  let mk = |n: usize, t: usize, prods: Vec<(usize, Vec<S>)>| Cfg {
    nts: (0..n).map(|i| (i, Some(format!("r{}", i)))).collect(), terms: (2..2 + t).map(|i| (i, format!("T{}", i))).collect(), prods };
  Some(match cx.idx {
    0 => mk(1, 1, vec![(0, vec![])]),
    1 => mk(1, 1, vec![(0, vec![N(0)])]),
    2 => mk(2, 1, vec![(0, vec![N(1), T(2)]), (1, vec![N(0)]), (1, vec![])]),
    3 => mk(3, 2, vec![(0, vec![N(1), N(2)]), (1, vec![N(2), N(2)]), (2, vec![]), (2, vec![T(2)])]),
    // classic expression grammar
    4 => mk(5, 5, vec![(0, vec![N(1), N(2)]), (2, vec![T(2), N(1), N(2)]), (2, vec![]), (1, vec![N(3), N(4)]), (4, vec![T(3), N(3), N(4)]), (4, vec![]), (3, vec![T(4), N(0), T(5)]), (3, vec![T(6)])]),
    // dangling else
    5 => mk(2, 3, vec![(0, vec![T(2), N(0), N(1)]), (0, vec![T(4)]), (1, vec![T(3), N(0)]), (1, vec![])]),
    6 => mk(2, 1, vec![(0, vec![N(0), N(0)]), (0, vec![T(2)]), (0, vec![])]),
    7 => mk(1, 1, vec![]),
    _ => return None,
  })
}

fn pick(cx: &mut Cx) -> Cfg { match fixed(cx) { Some(g) => g, None => any_cfg(cx) } }

fn note(cx: &mut Cx, g: &Cfg) {
  cx.sample(|| g.describe());
  if g.prods.len() >= 2 { cx.nontrivial(&g.text()) }
  cx.max("productions", g.prods.len() as u64);
  cx.max("nonterminals", g.nts.len() as u64);
}

fn prod_of(p: &Production) -> Prod {
  (p.left, p.right.iter().map(|i| match i { ProductionItem::Terminal(t) => S::T(*t), ProductionItem::NonTerminal(n) => S::N(*n) }).collect())
}

fn c04(cx: &mut Cx) {
  let mut g = pick(cx);
  note(cx, &g);
  let mut s = g.sets(0);
  if !s.nullable.is_empty() { cx.count("grammars_with_nullable_rules", 1) }
  let mut gr = g.build(&mut cx.rng);
  for rep in 0..4 {
    match rep { 0 => {} 3 if g.prods.len() < 200 => { rewrite(cx, &mut g, &mut gr); s = g.sets(0) } _ => gr = g.build(&mut cx.rng) }
    let got = match cx.must("first_set", || g.describe(), || gr.first_set()) { Some(x) => x, None => return };
    cx.count("first_set_runs", 1);
    let keys: BTreeSet<usize> = got.0.keys().copied().collect();
    if keys != g.nts.keys().copied().collect() {
      cx.violate("FIRST is not given for exactly the nonterminals", json!({"grammar": g.describe(), "keys": keys}));
      return;
    }
    for (n, c) in &got.0 {
      let have: BTreeSet<usize> = c.set.iter().copied().collect();
      cx.count("first_sets_compared", 1);
      if have != s.first[n] || c.allow_epsilon != s.nullable.contains(n) {
        cx.violate("FIRST set of a nonterminal is wrong", json!({"grammar": g.describe(), "nonterminal": n, "got": have, "got_epsilon": c.allow_epsilon, "expected": s.first[n], "expected_epsilon": s.nullable.contains(n), "rep": rep}));
        return;
      }
    }
    let keys: BTreeSet<Prod> = got.1.keys().map(prod_of).collect();
    if keys != g.prods.iter().cloned().collect() {
      cx.violate("FIRST is not given for exactly the productions", json!({"grammar": g.describe()}));
      return;
    }
    for (p, c) in &got.1 {
      let (l, rhs) = prod_of(p);
      let (f, e) = Cfg::first_of(&rhs, &s.first, &s.nullable);
      let have: BTreeSet<usize> = c.set.iter().copied().collect();
      cx.count("production_firsts_compared", 1);
      if have != f || c.allow_epsilon != e {
        cx.violate("FIRST set of a production is wrong", json!({"grammar": g.describe(), "production": g.show_prod(l, &rhs), "got": have, "got_epsilon": c.allow_epsilon, "expected": f, "expected_epsilon": e}));
        return;
      }
    }
  }
}

/// Give some rules of the grammar other alternatives, in the model and in the grammar object alike.
fn rewrite(cx: &mut Cx, g: &mut Cfg, gr: &mut Grammar) {
  let terms: Vec<usize> = g.terms.keys().copied().filter(|t| *t > 1).collect();
  let nts: Vec<usize> = g.nts.keys().copied().collect();
  let before = g.prods.len();
  for _ in 0..cx.rng.range(1, 3) {
    if g.prods.is_empty() { return }
    let k = cx.rng.below(g.prods.len());
    let mut p = g.prods[k].clone();
    match cx.rng.below(5) {
      0 => { p.1.pop(); }
      1 => { let i = cx.rng.below(p.1.len() + 1); p.1.insert(i, S::N(*cx.rng.pick(&nts))) }
      2 if !terms.is_empty() => { let i = cx.rng.below(p.1.len() + 1); p.1.insert(i, S::T(*cx.rng.pick(&terms))) }
      3 => p.0 = *cx.rng.pick(&nts),
      _ => if p.1.len() > 1 { p.1.swap(0, 1) } else { p.1.clear() }
    }
    let old = g.prods[k].clone();
    if g.prods.contains(&p) { continue }
    if cx.rng.chance(2, 3) { gr.productions.remove(&Cfg::to_production(&old)); g.prods.remove(k); }
    gr.productions.insert(Cfg::to_production(&p));
    g.prods.push(p);
  }
  cx.count("grammars_changed_between_calls", 1);
  if g.prods.len() == before { cx.count("grammars_changed_keeping_their_size", 1) }
}

pub fn ref_first(g: &Cfg, s: &Sets) -> HashMap<usize, Collection> {
  g.nts.keys().map(|n| (*n, Collection { allow_epsilon: s.nullable.contains(n), set: s.first[n].iter().copied().collect() })).collect()
}
pub fn ref_prod_first(g: &Cfg, s: &Sets) -> HashMap<Production, Collection> {
  g.prods.iter().map(|p| { let (f, e) = Cfg::first_of(&p.1, &s.first, &s.nullable); (Cfg::to_production(p), Collection { allow_epsilon: e, set: f.into_iter().collect() }) }).collect()
}
pub fn ref_follow(s: &Sets) -> HashMap<usize, HashSet<usize>> { s.follow.iter().map(|(n, f)| (*n, f.iter().copied().collect())).collect() }

fn c05(cx: &mut Cx) {
  let mut g = pick(cx);
  note(cx, &g);
  let mut s = g.sets(0);
  let mut gr = g.build(&mut cx.rng);
  for rep in 0..4 {
    match rep { 0 => {} 3 if g.prods.len() < 200 => { rewrite(cx, &mut g, &mut gr); s = g.sets(0) } _ => gr = g.build(&mut cx.rng) }
    let first = ref_first(&g, &s);
    let got = match cx.must("follow_set", || g.describe(), || gr.follow_set(&first)) { Some(x) => x, None => return };
    cx.count("follow_set_runs", 1);
    let have: BTreeMap<usize, BTreeSet<usize>> = got.iter().map(|(k, v)| (*k, v.iter().copied().collect())).collect();
    cx.count("follow_sets_compared", have.len() as u64);
    cx.count("follow_elements", have.values().map(|v| v.len() as u64).sum());
    if have != s.follow {
      let n = s.follow.iter().find(|(k, v)| have.get(k) != Some(v)).map(|x| *x.0);
      cx.violate("FOLLOW sets are wrong", json!({"grammar": g.describe(), "nonterminal": n, "got": n.and_then(|n| have.get(&n)), "expected": n.map(|n| &s.follow[&n])}));
      return;
    }
  }
}

fn c06(cx: &mut Cx) {
  let mut g = if fixed(cx).is_none() && cx.rng.chance(1, 3) { ll1_cfg(&mut cx.rng, cx.idx % 2 == 0) } else { pick(cx) };
  note(cx, &g);
  let mut gr = g.build(&mut cx.rng);
  for rep in 0..4 {
    match rep { 0 => {} 3 if g.prods.len() < 200 => rewrite(cx, &mut g, &mut gr), _ => gr = g.build(&mut cx.rng) }
    let s = g.sets(0);
    let cells = g.cells(&s);
    let ll1 = cells.values().all(|c| c.len() == 1);
    if rep == 0 || rep == 3 { cx.count(if ll1 { "ll1_grammars" } else { "conflicting_grammars" }, 1) }
    let (pf, fo) = (ref_prod_first(&g, &s), ref_follow(&s));
    cx.printed();
    let got = match cx.must("ll1_table", || g.describe(), || gr.ll1_table(&pf, &fo)) { Some(x) => x, None => return };
    let said = cx.printed();
    cx.count("cells_compared", got.len() as u64);
    let keys: BTreeSet<(usize, usize)> = got.keys().copied().collect();
    let want: BTreeSet<(usize, usize)> = cells.keys().copied().collect();
    if keys != want {
      cx.violate("the table has wrong cells", json!({"grammar": g.describe(), "missing": want.difference(&keys).collect::<Vec<_>>(), "extra": keys.difference(&want).collect::<Vec<_>>()}));
      return;
    }
    for (k, p) in &got {
      let p = prod_of(p);
      if !cells[k].iter().any(|i| g.prods[*i] == p) {
        cx.violate("a table cell holds a production that does not predict it", json!({"grammar": g.describe(), "cell": [k.0, k.1], "production": g.show_prod(p.0, &p.1)}));
        return;
      }
    }
    if ll1 && !said.trim().is_empty() {
      cx.violate("a conflict is reported for an LL(1) grammar", json!({"grammar": g.describe(), "printed": said}));
      return;
    }
    if !ll1 && said.trim().is_empty() {
      cx.violate("an LL(1) conflict is not reported", json!({"grammar": g.describe(), "cell": cells.iter().find(|c| c.1.len() > 1).map(|c| [c.0.0, c.0.1])}));
      return;
    }
    if !ll1 {
      // the competitors of every contested cell are shown, each together with another one
      let shown: Vec<String> = g.prods.iter().map(|p| format!("{:?}", Cfg::to_production(p))).collect();
      let lines: Vec<BTreeSet<usize>> = said.lines().collect::<BTreeSet<_>>().into_iter().map(|l| (0..shown.len()).filter(|i| l.contains(&shown[*i])).collect()).collect();
      for (k, c) in cells.iter().filter(|c| c.1.len() > 1) {
        cx.count("contested_cells", 1);
        if let Some(i) = c.iter().find(|i| !lines.iter().any(|l| l.contains(i) && c.iter().any(|j| j != *i && l.contains(j)))) {
          cx.violate("a competitor for a table cell is not reported", json!({"grammar": g.describe(), "cell": [k.0, k.1], "production": g.show_prod(g.prods[*i].0, &g.prods[*i].1), "printed": said}));
          return;
        }
      }
    }
  }
}

const RULE: &str = "Random grammars: dense/sparse/permuted numbering, nullable and left-recursive rules, long dependency chains, unproductive and unreachable rules, LL(1) by construction; every grammar is analysed several times with different hash iteration orders. Non-trivial = at least two productions; distinct by production list.";

pub fn props() -> Vec<Prop> {
  vec![
    Prop { id: "C04", level: "exploration", quick: 100000, thorough: 2000000, run: c04, rule: RULE,
      required: &["first_sets_compared", "production_firsts_compared", "grammars_with_nullable_rules", "grammars_changed_keeping_their_size"], assumptions: &["every nonterminal used in a production is registered"] },
    Prop { id: "C05", level: "exploration", quick: 120000, thorough: 2000000, run: c05, rule: RULE,
      required: &["follow_sets_compared", "follow_elements", "grammars_changed_keeping_their_size"], assumptions: &["every nonterminal used in a production is registered", "rule 0 is the start rule and exists", "FIRST sets are handed in correct (they are C04)"] },
    Prop { id: "C06", level: "exploration", quick: 100000, thorough: 2000000, run: c06, rule: RULE,
      required: &["cells_compared", "ll1_grammars", "conflicting_grammars", "contested_cells", "grammars_changed_keeping_their_size"], assumptions: &["FIRST and FOLLOW sets are handed in correct (they are C04, C05)", "a report shows productions in their Debug form"] },
  ]
}
