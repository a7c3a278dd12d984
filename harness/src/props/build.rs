use crate::cfg::{derive, Cfg, Earley, S};
use crate::ebnf::{self, Alt, Atom, Decl, Elem, GenOpts, Spec, BOOT};
use crate::rng::Rng;
use crate::rt::{Cx, Prop};
use crate::rx::{self, Rx};
use regex::Regex;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::token::Token;
use syntaxis::tool::grammar::{Grammar, ProductionItem};
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::visitor::grammar_visitor::{ProductionVisitor, StringLiteralToTokenVisitor, SymbolVisitor};
use syntaxis::tool::visitor::lexer_rule_visitor::{LexerRuleData, LexerRuleVisitor, StringLiteralVisitor};

pub struct Built { pub grammar: Grammar, pub data: Vec<LexerRuleData>, pub next_token: usize, pub next_rule: usize, pub next_anon: usize }

/// The three passes, exactly as the command-line program runs them.
pub fn build_full(ast: &RuleContext, first_token: usize, first_rule: usize) -> Built { build_parts(std::slice::from_ref(ast), first_token, first_rule) }

/// The same on a grammar whose declarations come in several trees.
pub fn build_parts(asts: &[RuleContext], first_token: usize, first_rule: usize) -> Built {
  let mut grammar = Grammar::new("g");
  let (next, data) = { let mut v = StringLiteralToTokenVisitor::new(&mut grammar, first_token); for a in asts { a.accept(&mut v); } (v.next_token_id, v.data) };
  let (next_token, next_rule, data) = { let mut v = SymbolVisitor::new(&mut grammar, next, first_rule, data); for a in asts { a.accept(&mut v); } (v.next_token_id, v.next_rule_id, v.data) };
  let next_anon = { let mut v = ProductionVisitor::new(&mut grammar, next_rule); for a in asts { a.accept(&mut v); } v.next_rule_id };
  Built { grammar, data, next_token, next_rule, next_anon }
}

/// Now and then the declarations of one tree are handed over as two or three trees.
fn parts(cx: &mut Cx, ast: &RuleContext) -> Vec<RuleContext> {
  if !cx.rng.chance(1, 5) { return vec![ast.clone()] }
  cx.count("grammars_in_several_trees", 1);
  let n = ast.children.len();
  let mut cuts = vec![0, cx.rng.below(n + 1), cx.rng.below(n + 1), n];
  cuts.sort();
  cuts.windows(2).map(|w| RuleContext { rule_index: ast.rule_index, rule_name: ast.rule_name.clone(), children: ast.children[w[0]..w[1]].to_vec() }).collect()
}
pub fn build_grammar(ast: &RuleContext) -> (Grammar, Vec<LexerRuleData>) { let b = build_full(ast, 2, 0); (b.grammar, b.data) }

/// Read a built grammar back into the model.
pub fn read_back(g: &Grammar) -> Cfg {
  let v = &g.vocabulary;
  Cfg {
    nts: v.get_all_nonterminals().iter().map(|n| (*n, v.get_nonterminal_name_by_id(*n))).collect(),
    terms: v.get_all_terminals().iter().map(|t| (*t, v.get_terminal_name(*t))).collect(),
    prods: {
      let mut p: Vec<_> = g.productions.iter().map(|p| (p.left, p.right.iter().map(|i| match i { ProductionItem::Terminal(t) => S::T(*t), ProductionItem::NonTerminal(n) => S::N(*n) }).collect::<Vec<_>>())).collect();
      p.sort();
      p
    },
  }
}

fn simple_rx(_: &mut Rng) -> Rx { Rx::Ch('x') }

/// Specs that stress sharing of anonymous rules: few symbols, the same sub-expressions again and again under
/// different operators, and token numbers that coincide with rule numbers.
fn sharing_spec(rng: &mut Rng) -> Spec {
  let nr = rng.range(2, 5);
  let nt = rng.range(1, 4);
  let mut pool: Vec<Elem> = vec![];
  for _ in 0..rng.range(1, 3) { pool.push(Elem { atom: if rng.chance(1, 2) { Atom::Tok(rng.below(nt)) } else { Atom::Rule(rng.below(nr)) }, suffix: None, lazy: false }) }
  // groups that are nearly the same: with and without an alternative, with and without ε, reordered, one level deeper
  let lone = |rng: &mut Rng, pool: &Vec<Elem>| { let mut e = rng.pick(pool).clone(); if rng.chance(1, 3) { e.suffix = *rng.pick(&[Some('*'), Some('+'), Some('?')]) } e };
  let len = if rng.chance(1, 6) { 5 } else { 2 };
  let base: Vec<Alt> = (0..rng.range(1, 3)).map(|_| Alt::Seq((0..rng.range(1, len)).map(|_| lone(rng, &pool)).collect())).collect();
  let mut groups: Vec<Vec<Alt>> = vec![base.clone()];
  for _ in 0..rng.range(1, 3) {
    let mut g = rng.pick(&groups).clone();
    match rng.below(7) {
      6 => for a in g.iter_mut() { if let Alt::Seq(v) = a { v.reverse() } }
      0 | 1 => { let k = rng.below(g.len() + 1); g.insert(k, Alt::Eps) }
      2 => { let e = lone(rng, &pool); g.push(Alt::Seq(vec![e])) }
      3 if g.len() > 1 => { let k = rng.below(g.len()); g.remove(k); }
      4 => { g.reverse() }
      _ => { let s = *rng.pick(&[None, Some('*'), Some('?'), Some('+')]); g = vec![Alt::Seq(vec![Elem { atom: Atom::Group(g), suffix: s, lazy: false }])] }
    }
    groups.push(g);
  }
  let grouped = rng.chance(1, 2);
  let pick = |rng: &mut Rng, pool: &Vec<Elem>| -> Elem {
    let mut e = if grouped && rng.chance(2, 3) { Elem { atom: Atom::Group(rng.pick(&groups).clone()), suffix: None, lazy: false } }
      else if rng.chance(2, 3) { rng.pick(pool).clone() } else { Elem { atom: if rng.chance(1, 2) { Atom::Tok(rng.below(nt)) } else { Atom::Rule(rng.below(nr)) }, suffix: None, lazy: false } };
    if !grouped && rng.chance(1, 4) { e = Elem { atom: Atom::Group(vec![Alt::Seq(vec![e.clone()]), if rng.chance(1, 3) { Alt::Eps } else { Alt::Seq(vec![rng.pick(pool).clone()]) }]), suffix: None, lazy: false } }
    e.suffix = *rng.pick(&[None, None, Some('*'), Some('+'), Some('?'), Some('?'), Some('*')]);
    e
  };
  let mut decls = vec![];
  for r in 0..nr {
    let alts: Vec<Alt> = (0..rng.range(1, 3)).map(|_| if rng.chance(1, 10) { Alt::Eps } else { Alt::Seq((0..rng.range(1, 3)).map(|_| pick(rng, &pool)).collect()) }).collect();
    decls.push(Decl::Rule(r, alts));
  }
  for t in 0..nt { decls.push(Decl::Tok(t, Rx::Ch('x'))) }
  if rng.chance(1, 2) { rng.shuffle(&mut decls) }
  Spec { rule_names: ebnf::names(rng, nr, false), tok_names: ebnf::names(rng, nt, true), decls }
}

/// Large rules: alternatives of many elements, groups of many alternatives, deep nesting, and groups that differ from
/// one another late or in one place only.
fn large_spec(rng: &mut Rng) -> Spec {
  let nr = rng.range(1, 4);
  let nt = *rng.pick(&[2usize, 3, 6, 12, 40]);
  let lone = |rng: &mut Rng, suffix: bool| Elem { atom: if rng.chance(6, 7) { Atom::Tok(rng.below(nt)) } else { Atom::Rule(rng.below(nr)) }, suffix: if suffix && rng.chance(1, 6) { *rng.pick(&[Some('*'), Some('+'), Some('?')]) } else { None }, lazy: false };
  let seq = |rng: &mut Rng, n: usize| Alt::Seq((0..n).map(|_| lone(rng, true)).collect());
  let block = |rng: &mut Rng| -> Vec<Alt> {
    let mut b: Vec<Alt> = match rng.below(4) {
      0 => { let n = rng.range(8, 70); vec![seq(rng, n)] }
      1 => { let n = rng.range(5, 60); (0..n).map(|_| { let m = rng.range(1, 3); seq(rng, m) }).collect() }
      2 => { let n = rng.range(2, 8); (0..n).map(|_| { let m = rng.range(4, 20); seq(rng, m) }).collect() }
      _ => { // nested
        let mut b = vec![seq(rng, 1)];
        for _ in 0..rng.range(3, 20) {
          let mut v = vec![Elem { atom: Atom::Group(b), suffix: *rng.pick(&[None, None, Some('*'), Some('+'), Some('?')]), lazy: false }];
          if rng.chance(1, 2) { let e = lone(rng, false); let k = rng.below(2); v.insert(k, e) }
          b = vec![Alt::Seq(v)];
          if rng.chance(1, 4) { let a = seq(rng, 1); b.push(a) }
        }
        b
      }
    };
    if rng.chance(1, 6) { let k = rng.below(b.len() + 1); b.insert(k, Alt::Eps) }
    b
  };
  let mut pool: Vec<Vec<Alt>> = vec![];
  for _ in 0..rng.range(1, 3) {
    let b = block(rng);
    for _ in 0..rng.range(0, 2) {
      let mut c = b.clone();
      let k = if rng.chance(1, 2) { c.len() - 1 } else { rng.below(c.len()) };
      match rng.below(6) {
        5 => { // every alternative cut to its first few items
          let n = rng.range(1, 10);
          for a in c.iter_mut() { if let Alt::Seq(v) = a { v.truncate(n) } }
        }
        0 if c.len() > 1 => { c.remove(k); }
        1 => { let a = seq(rng, 1); c.push(a) }
        2 => { c.reverse() }
        _ => if let Alt::Seq(v) = &mut c[k] {
          let e = lone(rng, true);
          match rng.below(4) { 0 => { v.pop(); if v.is_empty() { v.push(e) } } 1 => v.push(e), 2 => { let j = v.len() - 1; v[j] = e } _ => { let j = rng.below(v.len()); v[j].suffix = if v[j].suffix.is_some() { None } else { Some('?') } } }
        },
      }
      pool.push(c);
    }
    pool.push(b);
  }
  let mut decls = vec![];
  for r in 0..nr {
    let alts: Vec<Alt> = (0..rng.range(1, 3)).map(|_| Alt::Seq((0..rng.range(1, 3)).map(|_| if rng.chance(3, 4) { Elem { atom: Atom::Group(rng.pick(&pool).clone()), suffix: *rng.pick(&[None, None, None, Some('*'), Some('+'), Some('?')]), lazy: false } } else { Elem { atom: Atom::Tok(rng.below(nt)), suffix: None, lazy: false } }).collect())).collect();
    let alts = if rng.chance(1, 4) { rng.pick(&pool).clone() } else { alts };
    decls.push(Decl::Rule(r, alts));
  }
  for t in 0..nt { decls.push(Decl::Tok(t, Rx::Ch('x'))) }
  if rng.chance(1, 2) { rng.shuffle(&mut decls) }
  Spec { rule_names: ebnf::names(rng, nr, false), tok_names: ebnf::names(rng, nt, true), decls }
}

/// Sentences of one grammar against the recogniser of the other, and strings near them against both.
fn sampled_difference(cx: &mut Cx, a: &Cfg, b: &Cfg, starts: &BTreeMap<usize, usize>, n: usize, long: usize) -> Option<Value> {
  let rec = [Earley::new(a), Earley::new(b)];
  let terms: Vec<usize> = a.terms.keys().copied().collect();
  let heights = [a.heights().0, b.heights().0];
  for id in starts.values() {
    if heights[0].contains_key(id) != heights[1].contains_key(id) { return Some(json!({"rule": id, "derives_anything": [heights[0].contains_key(id), heights[1].contains_key(id)]})) }
    if !heights[0].contains_key(id) { continue }
    for k in 0..n {
      let from = k % 2;
      let mut s = vec![];
      let budget = cx.rng.range(0, long);
      derive(if from == 0 { a } else { b }, &mut cx.rng, *id, budget, 60, &mut s);
      if s.len() > 3 * long { continue }
      cx.count("sentences_recognised", 1);
      cx.max("sentence_tokens", s.len() as u64);
      if !rec[1 - from].accepts(*id, &s) { return Some(json!({"rule": id, "sentence": s, "of": if from == 0 { "the file" } else { "the lowered grammar" }, "not_of": if from == 1 { "the file" } else { "the lowered grammar" }})) }
      if s.len() > long || terms.is_empty() { continue }
      let mut m = s.clone();
      for _ in 0..cx.rng.range(1, 2) {
        let i = cx.rng.below(m.len() + 1);
        match cx.rng.below(3) { 0 if i < m.len() => { m.remove(i); } 1 if i < m.len() => m[i] = *cx.rng.pick(&terms), _ => m.insert(i, *cx.rng.pick(&terms)) }
      }
      cx.count("near_sentences_compared", 1);
      let (x, y) = (rec[0].accepts(*id, &m), rec[1].accepts(*id, &m));
      if x != y { return Some(json!({"rule": id, "string": m, "in_the_file": x, "in_the_lowered_grammar": y})) }
    }
  }
  None
}

fn has_plus(alts: &[Alt]) -> bool {
  alts.iter().any(|a| match a { Alt::Eps => false, Alt::Seq(v) => v.iter().any(|e| e.suffix == Some('+') || match &e.atom { Atom::Group(b) => has_plus(b), _ => false }) })
}

fn c10(cx: &mut Cx) {
  // two fixed cases: string literals in rules
  if cx.idx < 2 {
    let lit = Elem { atom: Atom::Lit("'abc'".into()), suffix: None, lazy: false };
    let e = if cx.idx == 0 { lit } else { Elem { atom: Atom::Group(vec![Alt::Seq(vec![lit])]), suffix: None, lazy: false } };
    let spec = Spec { rule_names: vec!["start".into()], tok_names: vec![], decls: vec![Decl::Rule(0, vec![Alt::Seq(vec![e])])] };
    let ast = spec.cst(&BOOT, &mut cx.rng).to_ctx();
    let r = cx.sut(|| { let b = build_full(&ast, 2, 0); (b.grammar.productions.len(), b.data.len()) });
    cx.count("string_literal_grammars", 1);
    match r {
      Err(m) => cx.violate(if cx.idx == 0 { "a rule with a string literal cannot be processed" } else { "a rule with a string literal inside a group cannot be processed" }, json!({"grammar": spec.text(), "panic": m})),
      Ok((p, d)) => if p == 0 || d == 0 { cx.violate("a string literal in a rule is dropped", json!({"grammar": spec.text(), "productions": p, "token_rules": d})) },
    }
    return;
  }
  let large = cx.rng.chance(1, 16);
  let plus = cx.rng.chance(1, 2);
  let guarded = if cx.rng.chance(1, 4) { ebnf::ll1_spec(&mut cx.rng, 20, true, &mut simple_rx) } else { None };
  let mut spec = if large { large_spec(&mut cx.rng) } else if let Some(s) = guarded { s } else if cx.rng.chance(1, 2) { sharing_spec(&mut cx.rng) } else {
    let o = GenOpts { rules: (1, 5), toks: (1, 4), depth: 3, plus, dups: true, lits: false };
    ebnf::random_spec(&mut cx.rng, &o, &mut simple_rx)
  };
  if cx.rng.chance(1, 3) {
    let taken: Vec<String> = spec.tok_names.iter().chain(&spec.rule_names).map(|n| format!("'{}'", n)).collect();
    spec.literalize(&mut cx.rng, |r| if r.chance(1, 4) { r.pick(&taken).clone() } else { literal(r).0 });
    if !spec.lits().is_empty() { cx.count("grammars_with_literals", 1) }
  }
  let text = spec.text();
  cx.sample(|| json!({"grammar": text}));
  cx.nontrivial(&text);
  let ast = spec.cst(&BOOT, &mut cx.rng).to_ctx();
  let asts = parts(cx, &ast);
  let b = match cx.must("lowering a grammar", || json!(text), || build_parts(&asts, 2, 0)) { Some(b) => b, None => return };
  let low = read_back(&b.grammar);
  cx.count("grammars_lowered", 1);
  let rid = spec.rule_ids();
  let nums = ebnf::Nums::of(&spec);
  let tid = nums.toks;
  let token_numbers: BTreeMap<String, usize> = tid.iter().map(|(t, i)| (spec.tok_names[*t].clone(), *i)).chain(nums.lits.clone()).collect();
  // every symbol of every production is registered; named rules keep their names; the rest is anonymous
  for (l, r) in &low.prods {
    let known = low.nts.contains_key(l) && r.iter().all(|s| match s { S::N(n) => low.nts.contains_key(n), S::T(t) => low.terms.contains_key(t) });
    if !known { cx.violate("a production uses an unregistered symbol", json!({"grammar": text, "production": low.show_prod(*l, r)})); return }
  }
  for (n, name) in &low.nts {
    let want = rid.iter().find(|x| x.1 == n).map(|x| spec.rule_names[*x.0].clone());
    if *name != want { cx.violate("an auxiliary rule is named, or a declared rule is not", json!({"grammar": text, "rule": n, "name": name, "expected": want})); return }
    if !low.prods.iter().any(|p| p.0 == *n) { cx.violate("a rule without any production", json!({"grammar": text, "rule": n})); return }
  }
  // sampled sentences
  let naive = spec.lower();
  if large || cx.rng.chance(1, 8) {
    if large { cx.count("large_grammars", 1) }
    if let Some(why) = sampled_difference(cx, &naive, &low, &rid, if large { 24 } else { 8 }, if large { 60 } else { 20 }) {
      cx.violate("lowering changes the language of a rule", json!({"grammar": text, "sampled": why, "lowered": low.describe(), "rules": rid.iter().map(|(r, i)| (spec.rule_names[*r].clone(), *i)).collect::<BTreeMap<_, _>>(), "token_numbers": token_numbers}));
      return;
    }
  }
  // bounded language of every declared rule
  let (want, have) = if large { Default::default() } else { (ebnf::ebnf_langs(&spec, bound(tid.len() + nums.lits.len())), ebnf::cfg_langs(&low, bound(tid.len() + nums.lits.len()))) };
  for (r, id) in rid.iter().filter(|_| !large) {
    cx.count("languages_compared", 1);
    cx.count("strings_compared", want[r].len() as u64);
    let h = match have.get(id) { Some(h) => h, None => { cx.violate("a declared rule is missing", json!({"grammar": text, "rule": spec.rule_names[*r]})); return } };
    if *h != want[r] {
      let extra: Vec<_> = h.difference(&want[r]).take(3).collect();
      let missing: Vec<_> = want[r].difference(h).take(3).collect();
      cx.violate("lowering changes the language of a rule", json!({"grammar": text, "rule": spec.rule_names[*r], "extra": extra, "missing": missing, "lowered": low.describe(), "token_numbers": token_numbers}));
      return;
    }
  }
  // predictive parsing stays possible
  if !spec.rule_alts().values().any(|a| has_plus(a)) && naive.is_ll1() {
    cx.count("ll1_grammars", 1);
    if !low.is_ll1() { cx.violate("lowering makes an LL(1) grammar conflicting", json!({"grammar": text, "lowered": low.describe()})); return }
  }
}

fn bound(tokens: usize) -> usize { match tokens { 0 | 1 => 7, 2 => 5, 3 | 4 => 4, _ => 3 } }

/// does a token rule's expression text, as handed to the generator, match exactly what the rule denotes?
fn rx_agrees(cx: &mut Cx, pattern: &str, want: &Rx) -> Option<Value> {
  let re = match Regex::new(pattern) { Ok(r) => r, Err(e) => return Some(json!({"pattern": pattern, "does_not_compile": e.to_string()})) };
  for i in 0..12 {
    let mut s = String::new();
    if i > 0 { want.sample(&mut cx.rng, &mut s) }
    if i > 2 {
      let mut cs: Vec<char> = s.chars().collect();
      match cx.rng.below(4) {
        0 => { let k = cx.rng.below(cs.len() + 1); cs.insert(k, *cx.rng.pick(&['a', '/', '\\', 'x', '|', '+', 'é', '\n', ' '])) }
        1 if !cs.is_empty() => { let k = cx.rng.below(cs.len()); cs.remove(k); }
        2 => cs.extend(['a', 'b', 'c']),
        _ => {}
      }
      s = cs.into_iter().collect();
    }
    let have = re.find(&s).map(|m| (m.start(), m.end()));
    let exp = want.prefix(&s).map(|n| (0, n));
    if rx::overrun() { continue }
    cx.count("matches_compared", 1);
    if have != exp { return Some(json!({"pattern": pattern, "on": s, "matches": have, "expected": exp})) }
  }
  None
}

/// the same without lazy marks (they mean nothing for the language)
fn plain_alt(a: &Alt) -> Alt {
  match a { Alt::Eps => Alt::Eps, Alt::Seq(v) => Alt::Seq(v.iter().map(|e| Elem { atom: match &e.atom { Atom::Group(b) => Atom::Group(b.iter().map(plain_alt).collect()), x => x.clone() }, suffix: e.suffix, lazy: false }).collect()) }
}
/// (alternatives that occur twice side by side at the top, the same anywhere inside)
fn repeats(alts: &[Alt]) -> (usize, bool) {
  let p: Vec<Alt> = alts.iter().map(plain_alt).collect();
  let top = (0..p.len()).filter(|i| p[..*i].contains(&p[*i])).count();
  let inside = p.iter().any(|a| match a { Alt::Eps => false, Alt::Seq(v) => v.iter().any(|e| match &e.atom { Atom::Group(b) => { let r = repeats(b); r.0 > 0 || r.1 } _ => false }) });
  (top, inside)
}

/// What the file declares again must be named in what was printed; a file without any repetition prints nothing.
fn wrong_reports(cx: &mut Cx, spec: &Spec, said: &str, rules_too: bool) -> Option<Value> {
  let (mut seen, mut again) = (BTreeSet::new(), BTreeMap::<String, usize>::new());
  for d in &spec.decls {
    let n = match d { Decl::Tok(t, _) => spec.tok_names[*t].clone(), Decl::Rule(r, _) if rules_too => spec.rule_names[*r].clone(), _ => continue };
    if !seen.insert(n.clone()) { *again.entry(n).or_insert(0) += 1 }
  }
  for (n, k) in &again {
    let lines = said.lines().filter(|l| l.split(|c: char| !c.is_ascii_alphanumeric() && c != '_').any(|w| w == n)).count();
    cx.count("repetitions_reported", lines as u64);
    if lines < *k { return Some(json!({"declared_again": n, "times": k, "lines_naming_it": lines, "printed": said})) }
  }
  let clean = again.is_empty() && (!rules_too || spec.rule_alts().values().all(|a| repeats(a) == (0, false)));
  if clean {
    cx.count("files_without_repetition", 1);
    if !said.trim().is_empty() { return Some(json!({"no_repetition": true, "printed": said})) }
  } else if rules_too {
    let lost: usize = spec.rule_alts().values().map(|a| repeats(a).0).sum::<usize>() + again.values().sum::<usize>();
    if said.lines().filter(|l| !l.trim().is_empty()).count() < lost { return Some(json!({"repetitions": lost, "printed": said})) }
  }
  None
}

fn c11(cx: &mut Cx) {
  let many = cx.rng.chance(1, 150);
  let o = GenOpts { rules: if many { (1, 150) } else { (1, 7) }, toks: if many { (60, 300) } else { (0, 8) }, depth: if many { 1 } else { 2 }, plus: true, dups: true, lits: cx.rng.chance(1, 3) };
  let mut spec = ebnf::random_spec(&mut cx.rng, &o, &mut |r| if r.chance(1, 3) { rx::random_rx(r, 3) } else { rx::tokenish_rx(r) });
  // more duplicates than the generator makes on its own, and names that differ only in part
  for _ in 0..cx.rng.below(4) {
    let d = cx.rng.pick(&spec.decls).clone();
    let at = cx.rng.below(spec.decls.len() + 1);
    let d = match d { Decl::Tok(t, _) => Decl::Tok(t, rx::tokenish_rx(&mut cx.rng)), x => x };
    spec.decls.insert(at, d);
  }
  let text = spec.text();
  cx.sample(|| json!({"grammar": text}));
  if spec.decls.len() > 2 { cx.nontrivial(&text) }
  let ft = *cx.rng.pick(&[2usize, 2, 2, 5, 17]);
  let fr = *cx.rng.pick(&[0usize, 0, 0, 3]);
  let ast = spec.cst(&BOOT, &mut cx.rng).to_ctx();
  cx.printed();
  let asts = parts(cx, &ast);
  let b = match cx.must("numbering a grammar's symbols", || json!(text), || build_parts(&asts, ft, fr)) { Some(b) => b, None => return };
  let said = cx.printed();
  if let Some(why) = wrong_reports(cx, &spec, &said, true) { cx.violate("repeated declarations are not reported as such", json!({"grammar": text, "by": "grammar passes", "why": why})); return }
  let rid = spec.rule_ids();
  let lits = spec.lits(); // numbered first, by the first pass
  let nl = lits.len();
  if nl > 0 { cx.count("files_with_literals", 1) }
  let tid = spec.tok_ids(ft + nl);
  let v = &b.grammar.vocabulary;
  for (r, i) in &rid {
    let i = i + fr;
    let n = &spec.rule_names[*r];
    cx.count("rules_checked", 1);
    if v.get_nonterminal_id_by_name(n) != Some(i) || v.get_nonterminal_name_by_id(i).as_ref() != Some(n) {
      cx.violate("a rule does not get the next number in declaration order", json!({"grammar": text, "rule": n, "expected": i, "got": v.get_nonterminal_id_by_name(n), "first": fr}));
      return;
    }
  }
  for (t, i) in &tid {
    let n = &spec.tok_names[*t];
    cx.count("tokens_checked", 1);
    if v.get_terminal_id_by_name(n) != Some(*i) || v.get_terminal_name_by_id(*i).as_ref() != Some(n) {
      cx.violate("a token does not get the next number in declaration order", json!({"grammar": text, "token": n, "expected": i, "got": v.get_terminal_id_by_name(n), "first": ft}));
      return;
    }
  }
  if v.get_all_terminals().len() != nl + tid.len() + 2 { cx.violate("the vocabulary has extra tokens", json!({"grammar": text, "terminals": v.get_all_terminals().len(), "expected": nl + tid.len() + 2})); return }
  if b.next_token != ft + nl + tid.len() || b.next_rule != fr + rid.len() {
    cx.violate("numbering leaves gaps", json!({"grammar": text, "next_token": b.next_token, "expected_token": ft + nl + tid.len(), "next_rule": b.next_rule, "expected_rule": fr + rid.len()}));
    return;
  }
  // auxiliary rules are numbered densely after the declared ones
  let aux: BTreeSet<usize> = v.get_all_nonterminals().iter().copied().filter(|n| *n >= b.next_rule).collect();
  let dense: BTreeSet<usize> = (b.next_rule..b.next_rule + aux.len()).collect();
  if v.get_all_nonterminals().len() != rid.len() + aux.len() || aux != dense || b.next_anon != b.next_rule + aux.len() {
    cx.violate("auxiliary rules are not numbered after the declared ones without gaps", json!({"grammar": text, "auxiliary": aux, "next": b.next_anon}));
    return;
  }
  // the token-rule data, from both visitors that produce it
  let only = match cx.must("collecting token rules", || json!(text), || { 
    let (data, next) = if nl > 0 { let mut l = StringLiteralVisitor::new(); l.next_token_type = ft; ast.accept(&mut l); (l.data, l.next_token_type) } else { (vec![], ft) };
    let mut v = LexerRuleVisitor::new(data, next); ast.accept(&mut v); (v.data, v.next_token_type)
   }) { Some(x) => x, None => return };
  let said = cx.printed();
  if let Some(why) = wrong_reports(cx, &spec, &said, false) { cx.violate("repeated declarations are not reported as such", json!({"grammar": text, "by": "token-rule visitor", "why": why})); return }
  if only.1 != ft + nl + tid.len() { cx.violate("numbering leaves gaps", json!({"grammar": text, "next_token": only.1, "expected": ft + nl + tid.len()})); return }
  for (who, data) in [("grammar passes", &b.data), ("token-rule visitor", &only.0)] {
    let mut order: Vec<(usize, usize)> = tid.iter().map(|(t, i)| (*i, *t)).collect();
    order.sort();
    if data.len() != nl + order.len() { cx.violate("token rules are lost or invented", json!({"grammar": text, "by": who, "got": data.len(), "expected": nl + order.len()})); return }
    for (k, d) in data[..nl].iter().enumerate() {
      if d.token_type != ft + k { cx.violate("token-rule data disagrees with the numbering", json!({"grammar": text, "by": who, "literal": lits[k], "got": d.token_type, "expected": ft + k})); return }
    }
    for (d, (i, t)) in data[nl..].iter().zip(order) {
      if d.token_type != i || d.token_name != spec.tok_names[t] {
        cx.violate("token-rule data disagrees with the numbering", json!({"grammar": text, "by": who, "got": [d.token_type.to_string(), d.token_name.clone()], "expected": [i.to_string(), spec.tok_names[t].clone()]}));
        return;
      }
      if let Some(why) = rx_agrees(cx, &d.regex, spec.tok_rx(t)) {
        cx.violate("a token rule's expression does not mean what the file says", json!({"grammar": text, "by": who, "token": d.token_name, "literal": spec.tok_rx(t).literal(), "why": why}));
        return;
      }
    }
  }
  c11_continued(cx, &spec, &text, &ast);
  if cx.rng.chance(1, 3) { c11_broken(cx, &spec, &text, &ast, ft) }
}

/// Token rules without an expression (in a tree that was made by other means than the parser) are reported and take
/// no number; everything else stays as it is, wherever they stand and whatever their name.
fn c11_broken(cx: &mut Cx, spec: &Spec, text: &str, ast: &RuleContext, ft: usize) {
  let term = |t: usize, n: &str, x: &str| ASTContext::Terminal(TerminalContext { symbol: Token::new(t, n, x) });
  let mut ast = ast.clone();
  let mut added = vec![];
  for _ in 0..cx.rng.range(1, 3) {
    let name = if !spec.tok_names.is_empty() && cx.rng.chance(1, 2) { cx.rng.pick(&spec.tok_names).clone() } else { format!("BROKEN{}", cx.rng.below(3)) };
    let x = *cx.rng.pick(&["", "/", "x"]);
    let n = ASTContext::Rule(RuleContext { rule_index: ebnf::LEXER_RULE, rule_name: "lexer_rule".into(), children: vec![
      term(BOOT.token_ref, "TOKEN_REF", &name), term(BOOT.colon, "COLON", ":"),
      ASTContext::Rule(RuleContext { rule_index: ebnf::REGULAR, rule_name: "regular".into(), children: vec![term(BOOT.regular, "REGULAR_LITERAL", x)] }), term(BOOT.semi, "SEMI", ";")] });
    let at = cx.rng.below(ast.children.len() + 1);
    ast.children.insert(at, n);
    added.push(json!([at, name, x]));
  }
  let w = |why: Value| json!({"grammar": text, "token_rules_without_expression_at": added, "first_token": ft, "why": why});
  let tid = spec.tok_ids(ft);
  let mut order: Vec<(usize, usize)> = tid.iter().map(|(t, i)| (*i, *t)).collect();
  order.sort();
  let want: Vec<(usize, String)> = order.iter().map(|(i, t)| (*i, spec.tok_names[*t].clone())).collect();
  cx.printed();
  let one = match cx.must("collecting token rules, some without expression", || w(json!(null)), || { let mut v = LexerRuleVisitor::new(vec![], ft); ast.accept(&mut v); (v.data, v.next_token_type) }) { Some(x) => x, None => return };
  let said1 = cx.printed();
  let two = match cx.must("numbering symbols, some token rules without expression", || w(json!(null)), || {
    let mut g = Grammar::new("g");
    let (d, t) = { let mut v = SymbolVisitor::new(&mut g, ft, 0, vec![]); ast.accept(&mut v); (v.data, v.next_token_id) };
    (d, t, g)
  }) { Some(x) => x, None => return };
  let said2 = cx.printed();
  cx.count("token_rules_without_expression", added.len() as u64);
  for (who, data, next, said) in [("token-rule visitor", &one.0, one.1, &said1), ("grammar passes", &two.0, two.1, &said2)] {
    let got: Vec<(usize, String)> = data.iter().map(|d| (d.token_type, d.token_name.clone())).collect();
    if got != want || next != ft + want.len() { cx.violate("a token rule without expression changes the numbering", w(json!({"by": who, "got": got, "expected": want, "next": next}))); return }
    if said.trim().is_empty() { cx.violate("a token rule without expression is not reported", w(json!({"by": who}))); return }
  }
  if two.2.vocabulary.get_all_terminals().len() != want.len() + 2 { cx.violate("the vocabulary has extra tokens", w(json!(two.2.vocabulary.get_all_terminals().len()))) }
}

/// Token rules that are already there (from string literals, say) stay as they are, in front; numbering goes on from
/// the number handed in.
fn c11_continued(cx: &mut Cx, spec: &Spec, text: &str, ast: &RuleContext) {
  let k = cx.rng.range(1, 5);
  let before: Vec<(usize, String, String)> = (0..k).map(|i| (i + 2, format!("{}{}", cx.rng.pick::<&str>(&["T_", "_T_", "'+'#", "literal "]), i + 2), format!("^({})", cx.rng.pick::<&str>(&["\\+", "if", "=>", "é", "a|b"])))).collect();
  let make = || before.iter().map(|b| LexerRuleData { token_type: b.0, token_name: b.1.clone(), regex: b.2.clone() }).collect::<Vec<_>>();
  let first = if cx.rng.chance(1, 2) { k + 2 } else { *cx.rng.pick(&[40usize, 1000, 65536, 1 << 33]) };
  let fr = *cx.rng.pick(&[0usize, 7, 300]);
  let tid = spec.tok_ids(first);
  let rid = spec.rule_ids();
  let w = |why: Value| json!({"grammar": text, "token_rules_before": before, "first_token": first, "first_rule": fr, "why": why});
  let asts = parts(cx, ast);
  let lexer_only = match cx.must("collecting token rules", || w(json!(null)), || { let mut v = LexerRuleVisitor::new(make(), first); for a in &asts { a.accept(&mut v); } (v.data, v.next_token_type) }) { Some(x) => x, None => return };
  let symbols = match cx.must("numbering a grammar's symbols", || w(json!(null)), || {
    let mut g = Grammar::new("g");
    for b in &before { g.vocabulary.add_terminal(b.0, &b.1); }
    let (d, t, r) = { let mut v = SymbolVisitor::new(&mut g, first, fr, make()); for a in &asts { a.accept(&mut v); } (v.data, v.next_token_id, v.next_rule_id) };
    (d, t, r, g)
  }) { Some(x) => x, None => return };
  cx.printed();
  cx.count("continued_numberings", 1);
  if symbols.2 != fr + rid.len() { cx.violate("numbering leaves gaps", w(json!({"next_rule": symbols.2}))); return }
  for (who, data, next) in [("token-rule visitor", &lexer_only.0, lexer_only.1), ("grammar passes", &symbols.0, symbols.1)] {
    if next != first + tid.len() || data.len() != k + tid.len() { cx.violate("numbering does not go on from where it was", w(json!({"by": who, "next": next, "rules": data.len()}))); return }
    for (d, b) in data.iter().zip(&before) { if (d.token_type, &d.token_name, &d.regex) != (b.0, &b.1, &b.2) { cx.violate("token rules that were there before are changed", w(json!({"by": who, "got": [d.token_type.to_string(), d.token_name.clone(), d.regex.clone()]}))); return } }
    let mut order: Vec<(usize, usize)> = tid.iter().map(|(t, i)| (*i, *t)).collect();
    order.sort();
    for (d, (i, t)) in data[k..].iter().zip(order) { if d.token_type != i || d.token_name != spec.tok_names[t] { cx.violate("token-rule data disagrees with the numbering", w(json!({"by": who, "got": [d.token_type.to_string(), d.token_name.clone()], "expected": [i.to_string(), spec.tok_names[t].clone()]}))); return } }
  }
  let v = &symbols.3.vocabulary;
  for (r, i) in &rid { if v.get_nonterminal_id_by_name(&spec.rule_names[*r]) != Some(fr + i) { cx.violate("a rule does not get the next number in declaration order", w(json!(spec.rule_names[*r]))); return } }
  for (t, i) in &tid { if v.get_terminal_id_by_name(&spec.tok_names[*t]) != Some(*i) { cx.violate("a token does not get the next number in declaration order", w(json!(spec.tok_names[*t]))); return } }
  for b in &before { if v.get_terminal_id_by_name(&b.1) != Some(b.0) { cx.violate("token rules that were there before are changed", w(json!(b.1))); return } }
}

/// (literal text as written, the string it denotes)
pub fn literal(rng: &mut Rng) -> (String, String) {
  let mut lit = String::from("'");
  let mut val = String::new();
  let n = match rng.below(40) { 0 | 1 => 0, 2 => rng.range(30, 300), 3..=10 => rng.range(1, 2), _ => rng.range(1, 8) };
  for _ in 0..n {
    match rng.below(9) {
      0 => { let (a, b) = *rng.pick(&[("\\n", '\n'), ("\\t", '\t'), ("\\r", '\r'), ("\\\\", '\\'), ("\\'", '\''), ("\\a", '\u{7}'), ("\\f", '\u{c}'), ("\\v", '\u{b}')]); lit.push_str(a); val.push(b) }
      8 => { // by number, in any of the spellings the notation allows
        let c = if rng.chance(1, 3) { char::from_u32(rng.below(0x110000) as u32).unwrap_or('\u{e000}') } else { *rng.pick(&['A', '\0', '\'', '\\', '+', '*', '{', '}', ' ', '\n', 'é', '漢', '🦀', '\u{10ffff}', '\u{1f}', '-', '0', 'x']) };
        lit.push_str(&format!("\\u{{{}{}{:x}}}", *rng.pick::<&str>(&["", "", "0x", "0"]), &"0000000000"[..*rng.pick(&[0usize, 0, 0, 1, 3, 9])], c as u32));
        val.push(c)
      }
      1 | 2 | 3 => { let c = *rng.pick(&['+', '*', '.', '?', '(', ')', '[', ']', '{', '}', '|', '^', '$', '/', '#', '-', '&', '~', ' ', '"', '`', ':', '=', '<', '!', ',', ';', '%', '@']); lit.push(c); val.push(c) }
      _ => { let c = *rng.pick(&['a', 'b', 'n', 't', 'r', 'd', 'w', 's', 'Z', '0', '9', '_', 'é', '漢', '🦀', 'u', 'x', '\u{301}', '\u{2028}', '\u{feff}', '\u{7f}', 'İ']); lit.push(c); val.push(c) }
    }
  }
  lit.push('\'');
  (lit, val)
}

fn c12(cx: &mut Cx) {
  let mut lits: Vec<(String, String)> = (0..cx.rng.range(1, 7)).map(|_| literal(&mut cx.rng)).collect();
  if cx.rng.chance(1, 3) { let d = cx.rng.pick(&lits).clone(); lits.push(d) }
  if cx.rng.chance(1, 3) { let d = lits[0].clone(); let k = cx.rng.below(lits.len() + 1); lits.insert(k, d) }
  if cx.rng.chance(1, 4) { // a literal that is a prefix of another one
    let d = lits[0].clone();
    lits.push((format!("{}x'", &d.0[..d.0.len() - 1]), format!("{}x", d.1)));
  }
  if cx.idx < 6 || cx.rng.chance(1, 4000) { // very many of them, all different
    let n = *cx.rng.pick(&[70usize, 140, 300, 600]);
    for k in 0..n { let (a, b) = literal(&mut cx.rng); if b.len() < 12 { lits.push((format!("{}_{}'", &a[..a.len() - 1], k), format!("{}_{}", b, k))) } else { lits.push((format!("'k{}'", k), format!("k{}", k))) } }
    for _ in 0..cx.rng.range(0, 60) { let d = cx.rng.pick(&lits).clone(); let k = cx.rng.below(lits.len() + 1); lits.insert(k, d) } // and again
  }
  if cx.rng.chance(1, 4) { // literals that differ only in case
    let d = lits[0].clone();
    let (a, b) = *cx.rng.pick(&[("k", "K"), ("if", "IF"), ("End", "end"), ("é", "É")]);
    let v = vec![(format!("{}{}'", &d.0[..d.0.len() - 1], a), format!("{}{}", d.1, a)), (format!("{}{}'", &d.0[..d.0.len() - 1], b), format!("{}{}", d.1, b))];
    let k = cx.rng.below(lits.len() + 1);
    for x in v { lits.insert(k, x) }
  }
  let written: Vec<&str> = lits.iter().map(|l| l.0.as_str()).collect();
  cx.sample(|| json!({"literals": written}));
  cx.nontrivial(&written.join(" "));
  // literals spread over a file: some at top level of a rule, some in groups
  let elem = |l: &str| -> ASTContext { ASTContext::Rule(RuleContext { rule_index: ebnf::ELEMENT, rule_name: "element".into(), children: vec![ASTContext::Terminal(TerminalContext { symbol: Token::new(BOOT.string, "STRING_LITERAL", l) })] }) };
  let wrap = |i: usize, kids: Vec<ASTContext>| ASTContext::Rule(RuleContext { rule_index: i, rule_name: ebnf::RULE_NAMES[i].into(), children: kids });
  let term = |t: usize, n: &str, x: &str| ASTContext::Terminal(TerminalContext { symbol: Token::new(t, n, x) });
  let mut rules = vec![];
  for (k, l) in lits.iter().enumerate() {
    let mut e = elem(&l.0);
    if cx.rng.chance(1, 3) { e = wrap(ebnf::ELEMENT, vec![term(BOOT.lparen, "LPAREN", "("), wrap(ebnf::BLOCK, vec![wrap(ebnf::ALTERNATIVE, vec![e])]), term(BOOT.rparen, "RPAREN", ")")]) }
    rules.push(wrap(ebnf::PARSER_RULE, vec![term(BOOT.rule_ref, "RULE_REF", &format!("rule{}", k)), term(BOOT.colon, "COLON", ":"),
      wrap(ebnf::BLOCK, vec![wrap(ebnf::ALTERNATIVE, vec![term(BOOT.token_ref, "TOKEN_REF", "'abc'"), e])]), term(BOOT.semi, "SEMI", ";")]));
  }
  let root = RuleContext { rule_index: 0, rule_name: "rule_list".into(), children: rules };
  let roots = parts(cx, &root);
  let got = match cx.must("collecting string literals", || json!(written), || { let mut v = StringLiteralVisitor::new(); for a in &roots { a.accept(&mut v); } (v.data, v.next_token_type) }) { Some(x) => x, None => return };
  let mut uniq: Vec<&(String, String)> = vec![];
  for l in &lits { if !uniq.iter().any(|u| u.0 == l.0) { uniq.push(l) } }
  if got.0.len() != uniq.len() || got.1 != 2 + uniq.len() { cx.violate("string literals are lost, repeated or misnumbered", json!({"literals": written, "got": got.0.len(), "expected": uniq.len(), "next": got.1})); return }
  // tokens of other names may be there already, also some called like the inside of a literal
  let mut before: Vec<String> = vec![];
  if cx.rng.chance(1, 3) { for l in &uniq { let n = l.0[1..l.0.len() - 1].to_string(); if cx.rng.chance(1, 2) && !before.contains(&n) && !uniq.iter().any(|u| u.0 == n) { before.push(n) } } }
  before.retain(|n| n != "_START" && n != "_STOP");
  // the first pass over a grammar collects the same, and registers each literal as a token under its own text
  let (next, data, voc) = match cx.must("collecting string literals", || json!(written), || {
    let mut g = Grammar::new("g");
    for (k, l) in before.iter().enumerate() { g.vocabulary.add_terminal(100_000 + k, l); }
    let (n, d) = { let mut v = StringLiteralToTokenVisitor::new(&mut g, 2); for a in &roots { a.accept(&mut v); } (v.next_token_id, v.data) };
    (n, d, g.vocabulary)
  }) { Some(x) => x, None => return };
  if data.len() != uniq.len() || next != 2 + uniq.len() || voc.get_all_terminals().len() != 2 + before.len() + uniq.len() { cx.violate("string literals are lost, repeated or misnumbered", json!({"literals": written, "by": "grammar pass", "got": data.len(), "expected": uniq.len(), "next": next, "registered": voc.get_all_terminals().len()})); return }
  for (i, l) in uniq.iter().enumerate() {
    if voc.get_terminal_id_by_name(&l.0) != Some(2 + i) { cx.violate("a string literal is not registered as a token under its own text", json!({"literals": written, "literal": l.0, "got": voc.get_terminal_id_by_name(&l.0), "expected": 2 + i})); return }
  }
  cx.count("literals_registered", uniq.len() as u64);
  let first_pass = cx.rng.chance(1, 2);
  let mut names = BTreeSet::new();
  for (i, (d, l)) in (if first_pass { &data } else { &got.0 }).iter().zip(&uniq).enumerate() {
    if d.token_type != i + 2 || !names.insert(d.token_name.clone()) { cx.violate("string literals are lost, repeated or misnumbered", json!({"literals": written, "entry": i, "type": d.token_type, "name": d.token_name})); return }
    let re = match Regex::new(&d.regex) { Ok(r) => r, Err(e) => { cx.violate("a literal's expression is not a regular expression", json!({"literal": l.0, "expression": d.regex, "error": e.to_string()})); return } };
    let v = &l.1;
    let mut probes: Vec<String> = vec![v.clone(), format!("{}tail", v), format!("x{}", v), String::new()];
    for (k, c) in v.char_indices() {
      let mut del = v.clone();
      del.remove(k);
      probes.push(del);
      let rest = &v[k + c.len_utf8()..];
      for r in ["Q", "a", "\n", "\\", "0", " "] { probes.push(format!("{}{}{}", &v[..k], r, rest)) }
      probes.push(format!("{}{}{}{}", &v[..k], c, c, rest));
      let other: String = if c.is_uppercase() { c.to_lowercase().collect() } else { c.to_uppercase().collect() };
      probes.push(format!("{}{}{}", &v[..k], other, rest));
    }
    probes.push(l.0.clone());
    probes.push(l.0[1..l.0.len() - 1].to_string());
    for p in probes {
      let have = re.find(&p).map(|m| (m.start(), m.end()));
      let want = if p.starts_with(v.as_str()) { Some((0, v.len())) } else { None };
      cx.count("probes_compared", 1);
      if have != want { cx.violate("a string literal's token does not match exactly its text", json!({"literal": l.0, "denotes": v, "expression": d.regex, "on": p, "matches": have, "expected": want})); return }
    }
  }
}

pub fn props() -> Vec<Prop> {
  vec![
    Prop { id: "C10", level: "exploration", quick: 16000, thorough: 300000, run: c10,
      rule: "Random EBNF grammar files (nested groups, ? * + and their lazy forms, repeated sub-expressions under different operators, token and rule numbers that coincide, duplicate declarations, any order) through the three real passes; the bounded language of every declared rule is compared with the EBNF denotation, and sampled sentences (also of large rules: up to 70 elements, 60 alternatives, 20 levels, groups differing late) are recognised in the other grammar. Every case is non-trivial; distinct by text.",
      required: &["grammars_lowered", "grammars_with_literals", "languages_compared", "strings_compared", "ll1_grammars", "large_grammars", "sentences_recognised", "near_sentences_compared"], assumptions: &["every referenced token and rule is declared", "languages are compared completely up to length 3 to 7, depending on the number of tokens, and on sampled sentences and strings near them beyond (Earley recognisers of both grammars)"] },
    Prop { id: "C11", level: "exploration", quick: 40000, thorough: 600000, run: c11,
      rule: "Random grammar files with duplicate declarations, names equal up to case or beginning with one another, any order, different first numbers; numbering, the reports of repeated declarations, token-rule data and the meaning of each expression (on sampled and perturbed strings, against an independent matcher) are compared. Non-trivial = more than two declarations; distinct by text.",
      required: &["rules_checked", "tokens_checked", "matches_compared", "repetitions_reported", "files_without_repetition", "continued_numberings", "files_with_literals"], assumptions: &["expressions come from the common regular-expression core"] },
    Prop { id: "C12", level: "exploration", quick: 60000, thorough: 1000000, run: c12,
      rule: "Random string literals (every regular-expression metacharacter, all simple escapes, multi-byte characters, duplicates, prefixes of each other, equal up to case) in rules and groups; each resulting expression is probed with the denoted text and every one-character deletion, substitution, doubling and change of case of it. Every case is non-trivial; distinct by literals.",
      required: &["probes_compared", "literals_registered"], assumptions: &["escapes are \\n \\t \\r \\' and \\\\ (the numeric and class escapes of the notation are not claimed)"] },
  ]
}
