//! Reference model of grammar files (rules in extended BNF plus token rules): generator, printer, syntax
//! tree builder, bounded-language semantics, naive lowering, and derivation of sentences with their trees.

use crate::cfg::{Cfg, Tree, S};
use crate::rng::Rng;
use crate::rx::Rx;
use std::collections::{BTreeMap, BTreeSet};
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::token::Token;

#[derive(Clone, Debug, PartialEq)]
pub enum Atom { Tok(usize), Rule(usize), Lit(String), Group(Vec<Alt>) }
#[derive(Clone, Debug, PartialEq)]
pub enum Alt { Eps, Seq(Vec<Elem>) }
#[derive(Clone, Debug, PartialEq)]
pub struct Elem { pub atom: Atom, pub suffix: Option<char>, pub lazy: bool }

#[derive(Clone, Debug)]
pub enum Decl { Rule(usize, Vec<Alt>), Tok(usize, Rx) }

#[derive(Clone, Debug)]
pub struct Spec {
  pub rule_names: Vec<String>,
  pub tok_names: Vec<String>,
  /// in file order; a rule or token may be declared more than once
  pub decls: Vec<Decl>,
}

/// Numbers of the notation's own token types (they differ between the bootstrap and the self-hosted front end).
#[derive(Clone, Copy)]
pub struct Ids { pub token_ref: usize, pub rule_ref: usize, pub colon: usize, pub or: usize, pub semi: usize, pub star: usize, pub plus: usize, pub question: usize, pub lparen: usize, pub rparen: usize, pub string: usize, pub regular: usize, pub epsilon: usize }
pub const BOOT: Ids = Ids { token_ref: 6, rule_ref: 7, colon: 8, or: 9, semi: 10, star: 11, plus: 12, question: 13, lparen: 16, rparen: 17, string: 19, regular: 21, epsilon: 22 };
pub const V1: Ids = Ids { token_ref: 3, rule_ref: 2, colon: 4, or: 6, semi: 5, star: 8, plus: 9, question: 10, lparen: 11, rparen: 12, string: 13, regular: 14, epsilon: 7 };
pub const RULE_LIST: usize = 0;
pub const PARSER_RULE: usize = 1;
pub const BLOCK: usize = 2;
pub const ALTERNATIVE: usize = 3;
pub const EPSILON: usize = 4;
pub const ELEMENT: usize = 5;
pub const EBNF_SUFFIX: usize = 6;
pub const LEXER_RULE: usize = 7;
pub const REGULAR: usize = 8;
pub const RULE_NAMES: [&str; 9] = ["rule_list", "parser_rule", "block", "alternative", "epsilon", "element", "ebnf_suffix", "lexer_rule", "regular"];

/// Concrete syntax tree of a grammar file, token texts only.
#[derive(Clone, Debug, PartialEq)]
pub enum Cst { Node(usize, Vec<Cst>), Leaf(usize, &'static str, String) }

impl Cst {
  pub fn to_ctx(&self) -> RuleContext {
    match self {
      Cst::Node(i, kids) => RuleContext { rule_index: *i, rule_name: RULE_NAMES[*i].into(), children: kids.iter().map(|k| match k {
        Cst::Node(..) => ASTContext::Rule(k.to_ctx()),
        Cst::Leaf(t, n, x) => ASTContext::Terminal(TerminalContext { symbol: Token::new(*t, n, x) }),
      }).collect() },
      _ => unreachable!(),
    }
  }
  pub fn to_json(&self) -> serde_json::Value {
    match self {
      Cst::Node(i, kids) => serde_json::json!({"rule_index": i, "rule_name": RULE_NAMES[*i], "children": kids.iter().map(|k| k.to_json()).collect::<Vec<_>>()}),
      Cst::Leaf(t, n, x) => serde_json::json!({"token_type": t, "token_name": n, "text": x}),
    }
  }
  pub fn leaves<'a>(&'a self, out: &mut Vec<(usize, &'a str)>) {
    match self { Cst::Node(_, k) => for x in k { x.leaves(out) }, Cst::Leaf(t, _, x) => out.push((*t, x)) }
  }
}

impl Spec {
  pub fn cst(&self, ids: &Ids, rng: &mut Rng) -> Cst {
    Cst::Node(RULE_LIST, self.decls.iter().map(|d| self.decl_cst(d, ids, rng)).collect())
  }
  pub fn decl_cst(&self, d: &Decl, ids: &Ids, rng: &mut Rng) -> Cst {
    let colon = rng.pick::<&str>(&[":", ":", ":", "::=", ":=", "->", "=>", "="]).to_string();
    match d {
      Decl::Rule(r, alts) => Cst::Node(PARSER_RULE, vec![
        Cst::Leaf(ids.rule_ref, "RULE_REF", self.rule_names[*r].clone()), Cst::Leaf(ids.colon, "COLON", colon),
        self.block(alts, ids), Cst::Leaf(ids.semi, "SEMI", ";".into())]),
      Decl::Tok(t, rx) => Cst::Node(LEXER_RULE, vec![
        Cst::Leaf(ids.token_ref, "TOKEN_REF", self.tok_names[*t].clone()), Cst::Leaf(ids.colon, "COLON", colon),
        Cst::Node(REGULAR, vec![Cst::Leaf(ids.regular, "REGULAR_LITERAL", rx.literal())]), Cst::Leaf(ids.semi, "SEMI", ";".into())]),
    }
  }
  pub fn block(&self, alts: &[Alt], ids: &Ids) -> Cst {
    let mut kids = vec![];
    for (i, a) in alts.iter().enumerate() {
      if i > 0 { kids.push(Cst::Leaf(ids.or, "OR", "|".into())) }
      kids.push(self.alt(a, ids));
    }
    Cst::Node(BLOCK, kids)
  }
  pub fn alt(&self, a: &Alt, ids: &Ids) -> Cst {
    Cst::Node(ALTERNATIVE, match a {
      Alt::Eps => vec![Cst::Node(EPSILON, vec![Cst::Leaf(ids.epsilon, "EPSILON", "ε".into())])],
      Alt::Seq(v) => v.iter().map(|e| self.elem(e, ids)).collect(),
    })
  }
  pub fn elem(&self, e: &Elem, ids: &Ids) -> Cst {
    let mut kids = match &e.atom {
      Atom::Tok(t) => vec![Cst::Leaf(ids.token_ref, "TOKEN_REF", self.tok_names[*t].clone())],
      Atom::Rule(r) => vec![Cst::Leaf(ids.rule_ref, "RULE_REF", self.rule_names[*r].clone())],
      Atom::Lit(s) => vec![Cst::Leaf(ids.string, "STRING_LITERAL", s.clone())],
      Atom::Group(b) => vec![Cst::Leaf(ids.lparen, "LPAREN", "(".into()), self.block(b, ids), Cst::Leaf(ids.rparen, "RPAREN", ")".into())],
    };
    if let Some(c) = e.suffix { kids.push(self.suffix(c, e.lazy, ids)) }
    Cst::Node(ELEMENT, kids)
  }
  pub fn suffix(&self, c: char, lazy: bool, ids: &Ids) -> Cst {
    let mut v = vec![match c { '*' => Cst::Leaf(ids.star, "STAR", "*".into()), '+' => Cst::Leaf(ids.plus, "PLUS", "+".into()), _ => Cst::Leaf(ids.question, "QUESTION", "?".into()) }];
    if lazy { v.push(Cst::Leaf(ids.question, "QUESTION", "?".into())) }
    Cst::Node(EBNF_SUFFIX, v)
  }
  pub fn text(&self) -> String {
    let mut v = vec![];
    let c = self.cst(&BOOT, &mut Rng::new(0));
    let mut l = vec![];
    c.leaves(&mut l);
    for x in l { v.push(x.1.to_string()); }
    v.join(" ")
  }

  /// the alternatives of every rule, all declarations of it together
  pub fn rule_alts(&self) -> BTreeMap<usize, Vec<Alt>> {
    let mut m: BTreeMap<usize, Vec<Alt>> = BTreeMap::new();
    for d in &self.decls { if let Decl::Rule(r, a) = d { m.entry(*r).or_default().extend(a.iter().cloned()) } }
    m
  }
  /// rule -> expected number, in order of first declaration
  pub fn rule_ids(&self) -> BTreeMap<usize, usize> {
    let mut m = BTreeMap::new();
    for d in &self.decls { if let Decl::Rule(r, _) = d { let n = m.len(); m.entry(*r).or_insert(n); } }
    m
  }
  /// token -> expected type, in order of first declaration, starting at `first`
  pub fn tok_ids(&self, first: usize) -> BTreeMap<usize, usize> {
    let mut m = BTreeMap::new();
    for d in &self.decls { if let Decl::Tok(t, _) = d { let n = m.len() + first; m.entry(*t).or_insert(n); } }
    m
  }
  /// The string literals of all rules as written, in order of first appearance.
  pub fn lits(&self) -> Vec<String> {
    fn block(alts: &[Alt], o: &mut Vec<String>) {
      for a in alts { if let Alt::Seq(v) = a { for e in v { match &e.atom { Atom::Lit(l) => if !o.contains(l) { o.push(l.clone()) }, Atom::Group(b) => block(b, o), _ => {} } } } }
    }
    let mut o = vec![];
    for d in &self.decls { if let Decl::Rule(_, a) = d { block(a, &mut o) } }
    o
  }
  /// literal -> expected type: literals come before the declared tokens
  pub fn lit_ids(&self, first: usize) -> BTreeMap<String, usize> { self.lits().into_iter().enumerate().map(|(i, l)| (l, first + i)).collect() }
  /// (type, name or literal, is a literal, expression) of everything a lexer for this file must know, in order of type
  pub fn lexicon(&self) -> Vec<(usize, String, bool, Rx)> {
    let lits = self.lits();
    let n = lits.len();
    let mut v: Vec<(usize, String, bool, Rx)> = lits.into_iter().enumerate().map(|(i, l)| { let x = Rx::Cat(denoted(&l).chars().map(Rx::Ch).collect()); (2 + i, l, true, x) }).collect();
    for (t, i) in self.tok_ids(2 + n) { v.push((i, self.tok_names[t].clone(), false, self.tok_rx(t).clone())) }
    v.sort_by_key(|x| x.0);
    v
  }

  /// Some tokens are written as literals in all rules (one literal per token, so nothing about the language changes);
  /// their declarations go or stay.
  pub fn literalize(&mut self, rng: &mut Rng, mut fresh: impl FnMut(&mut Rng) -> String) {
    let mut lit: BTreeMap<usize, String> = BTreeMap::new();
    for t in 0..self.tok_names.len() {
      if !rng.chance(1, 2) { continue }
      let l = fresh(rng);
      if lit.values().all(|x| *x != l) { lit.insert(t, l); }
    }
    fn block(alts: &mut [Alt], lit: &BTreeMap<usize, String>) {
      for a in alts { if let Alt::Seq(v) = a { for e in v { match &mut e.atom { Atom::Group(b) => block(b, lit), Atom::Tok(t) => if let Some(l) = lit.get(t) { e.atom = Atom::Lit(l.clone()) }, _ => {} } } } }
    }
    for d in self.decls.iter_mut() { if let Decl::Rule(_, a) = d { block(a, &lit) } }
    let gone: Vec<usize> = lit.keys().copied().filter(|_| rng.chance(1, 2)).collect();
    self.decls.retain(|d| !matches!(d, Decl::Tok(t, _) if gone.contains(t)));
  }

  pub fn tok_rx(&self, t: usize) -> &Rx {
    self.decls.iter().find_map(|d| match d { Decl::Tok(x, r) if *x == t => Some(r), _ => None }).unwrap()
  }

  /// Naive lowering: a fresh anonymous nonterminal per group / operator occurrence, + as x x*.
  pub fn lower(&self) -> Cfg {
    let rid = self.rule_ids();
    let tid = Nums::of(self);
    let mut g = Cfg { nts: BTreeMap::new(), terms: BTreeMap::new(), prods: vec![] };
    for (r, i) in &rid { g.nts.insert(*i, Some(self.rule_names[*r].clone())); }
    for (t, i) in &tid.toks { g.terms.insert(*i, self.tok_names[*t].clone()); }
    for (l, i) in &tid.lits { g.terms.insert(*i, l.clone()); }
    let mut next = rid.len();
    for (r, alts) in self.rule_alts() {
      for a in alts { let rhs = lower_alt(&a, &mut g, &mut next, &rid, &tid); g.prods.push((rid[&r], rhs)) }
    }
    g.dedup();
    g
  }
}

/// Token numbers: literals first, then the declared tokens.
pub struct Nums { pub lits: BTreeMap<String, usize>, pub toks: BTreeMap<usize, usize> }
impl Nums { pub fn of(s: &Spec) -> Nums { let lits = s.lit_ids(2); let toks = s.tok_ids(2 + lits.len()); Nums { lits, toks } } }

/// The text a literal stands for.
pub fn denoted(lit: &str) -> String {
  let c: Vec<char> = lit.chars().collect();
  let c = &c[1..c.len() - 1];
  let mut o = String::new();
  let mut i = 0;
  while i < c.len() {
    if c[i] != '\\' { o.push(c[i]); i += 1; continue }
    match c[i + 1] {
      'u' => {
        let end = (i..c.len()).find(|k| c[*k] == '}').unwrap();
        let hex: String = c[i + 3..end].iter().collect();
        let hex = hex.strip_prefix("0x").unwrap_or(&hex).to_string();
        o.push(char::from_u32(u32::from_str_radix(&hex, 16).unwrap()).unwrap());
        i = end + 1;
      }
      x => { o.push(match x { 'n' => '\n', 't' => '\t', 'r' => '\r', 'a' => '\u{7}', 'f' => '\u{c}', 'v' => '\u{b}', x => x }); i += 2 }
    }
  }
  o
}

fn fresh(g: &mut Cfg, next: &mut usize) -> usize { let n = *next; *next += 1; g.nts.insert(n, None); n }

fn lower_alt(a: &Alt, g: &mut Cfg, next: &mut usize, rid: &BTreeMap<usize, usize>, tid: &Nums) -> Vec<S> {
  match a {
    Alt::Eps => vec![],
    Alt::Seq(v) => v.iter().map(|e| {
      let s = match &e.atom {
        Atom::Tok(t) => S::T(tid.toks[t]),
        Atom::Rule(r) => S::N(rid[r]),
        Atom::Lit(l) => S::T(tid.lits[l]),
        Atom::Group(b) => { let rhs: Vec<Vec<S>> = b.iter().map(|a| lower_alt(a, g, next, rid, tid)).collect(); let n = fresh(g, next); for r in rhs { g.prods.push((n, r)) } S::N(n) }
      };
      match e.suffix {
        None => s,
        Some('*') => { let n = fresh(g, next); g.prods.push((n, vec![])); g.prods.push((n, vec![s, S::N(n)])); S::N(n) }
        Some('+') => { let n = fresh(g, next); let p = fresh(g, next); g.prods.push((n, vec![])); g.prods.push((n, vec![s, S::N(n)])); g.prods.push((p, vec![s, S::N(n)])); S::N(p) }
        _ => { let n = fresh(g, next); g.prods.push((n, vec![])); g.prods.push((n, vec![s])); S::N(n) }
      }
    }).collect(),
  }
}

// ---------------------------------------------------------------- bounded languages

pub type Lang = BTreeSet<Vec<u16>>;

fn cat(a: &Lang, b: &Lang, k: usize) -> Lang {
  let mut o = Lang::new();
  for x in a { for y in b { if x.len() + y.len() <= k { let mut z = x.clone(); z.extend(y); o.insert(z); } } }
  o
}

/// Denotation of every rule, strings of token types up to length k (least fixpoint of the EBNF equations).
pub fn ebnf_langs(spec: &Spec, k: usize) -> BTreeMap<usize, Lang> {
  let alts = spec.rule_alts();
  let tid = Nums::of(spec);
  let mut cur: BTreeMap<usize, Lang> = alts.keys().map(|r| (*r, Lang::new())).collect();
  loop {
    let mut ch = false;
    for (r, a) in &alts {
      let l = block_lang(a, &cur, &tid, k);
      if l != cur[r] { cur.insert(*r, l); ch = true }
    }
    if !ch { return cur }
  }
}
fn block_lang(alts: &[Alt], cur: &BTreeMap<usize, Lang>, tid: &Nums, k: usize) -> Lang {
  let mut o = Lang::new();
  for a in alts {
    match a {
      Alt::Eps => { o.insert(vec![]); }
      Alt::Seq(v) => {
        let mut l: Lang = [vec![]].into();
        for e in v { l = cat(&l, &elem_lang(e, cur, tid, k), k); if l.is_empty() { break } }
        o.extend(l);
      }
    }
  }
  o
}
fn elem_lang(e: &Elem, cur: &BTreeMap<usize, Lang>, tid: &Nums, k: usize) -> Lang {
  let base: Lang = match &e.atom {
    Atom::Tok(t) => [vec![tid.toks[t] as u16]].into(),
    Atom::Rule(r) => cur[r].clone(),
    Atom::Lit(l) => [vec![tid.lits[l] as u16]].into(),
    Atom::Group(b) => block_lang(b, cur, tid, k),
  };
  match e.suffix {
    None => base,
    Some('?') => { let mut l = base; l.insert(vec![]); l }
    Some(c) => {
      let mut star: Lang = [vec![]].into();
      loop {
        let mut n = cat(&star, &base, k);
        n.insert(vec![]);
        if n == star { break }
        n.extend(star.iter().cloned());
        if n == star { break }
        star = n;
      }
      if c == '+' { cat(&base, &star, k) } else { star }
    }
  }
}

/// Bounded languages of the nonterminals of a context-free grammar.
pub fn cfg_langs(g: &Cfg, k: usize) -> BTreeMap<usize, Lang> {
  let mut cur: BTreeMap<usize, Lang> = g.nts.keys().map(|n| (*n, Lang::new())).collect();
  loop {
    let mut ch = false;
    for (l, r) in &g.prods {
      let mut x: Lang = [vec![]].into();
      for s in r {
        x = match s { S::T(t) => cat(&x, &[vec![*t as u16]].into(), k), S::N(n) => cat(&x, cur.get(n).unwrap_or(&Lang::new()), k) };
        if x.is_empty() { break }
      }
      let e = cur.get_mut(l).unwrap();
      for y in x { if e.insert(y) { ch = true } }
    }
    if !ch { return cur }
  }
}

// ---------------------------------------------------------------- generator

/// Distinct names of tokens (capital first) or rules: numbered ones, ones that differ only in case, and ones that
/// begin with one another.
pub fn names(rng: &mut Rng, n: usize, tokens: bool) -> Vec<String> {
  let near: &[&str] = if tokens { &["Id", "ID", "Idx", "ID2", "IDX", "IdX", "NUM", "Num", "NUM_", "NuM", "T0", "T01", "T0_", "Tab", "TAB", "TaB", "STAR", "Star", "EPSILON", "Fragment", "AB", "Ab", "ABC", "A0", "S_"] }
    else { &["id", "iD", "idx", "id2", "iDX", "idX", "num", "nUM", "num_", "nuM", "t0", "t01", "t0_", "tab", "tAB", "taB", "star", "sTAR", "eps", "ab", "aB", "abc", "a0", "s_", "rule_list"] };
  let style = rng.below(3);
  let long = if rng.chance(1, 12) { *rng.pick(&[3usize, 7, 15, 30, 120]) } else { 0 };
  let mut out: Vec<String> = vec![];
  for i in 0..n {
    let plain = if tokens { format!("{}{}", rng.pick::<&str>(&["TOK_", "T", "Id", "NUM", "X_"]), i) } else { format!("{}{}", rng.pick::<&str>(&["rule_", "r", "expr", "stmtList", "x_"]), i) };
    let mut x = if style == 0 || (style == 1 && rng.chance(1, 2)) { plain.clone() } else { rng.pick(near).to_string() };
    if long > 0 && rng.chance(1, 2) { x = format!("{}{}{}", if tokens { "L" } else { "l" }, "ong_Name9".repeat(long), i) } // told apart only at the end
    let k = rng.below(near.len());
    for j in 0..=near.len() { // taken: the next near name, or a long one
      if !out.contains(&x) { break }
      x = if j < near.len() { near[(k + j) % near.len()].to_string() } else { format!("{}_{}", plain, i) };
    }
    out.push(x);
  }
  out
}

pub struct GenOpts { pub rules: (usize, usize), pub toks: (usize, usize), pub depth: usize, pub plus: bool, pub dups: bool, pub lits: bool }

pub fn random_spec(rng: &mut Rng, o: &GenOpts, rx: &mut dyn FnMut(&mut Rng) -> Rx) -> Spec {
  let nr = rng.range(o.rules.0, o.rules.1);
  let nt = rng.range(o.toks.0, o.toks.1);
  let rule_names = names(rng, nr, false);
  let tok_names = names(rng, nt, true);
  let mut decls: Vec<Decl> = vec![];
  for r in 0..nr { let b = random_block(rng, o, nr, nt, o.depth, true); decls.push(Decl::Rule(r, b)) }
  for t in 0..nt { let x = rx(rng); decls.push(Decl::Tok(t, x)) }
  if o.dups {
    if rng.chance(1, 4) { let r = rng.below(nr); let b = random_block(rng, o, nr, nt, 1, true); decls.push(Decl::Rule(r, b)) }
    if rng.chance(1, 4) && nt > 0 { let t = rng.below(nt); let x = rx(rng); decls.push(Decl::Tok(t, x)) }
  }
  match rng.below(3) {
    0 => {}
    1 => { rng.shuffle(&mut decls) }
    _ => { let k = rng.below(decls.len()); decls.rotate_left(k) }
  }
  Spec { rule_names, tok_names, decls }
}

fn random_block(rng: &mut Rng, o: &GenOpts, nr: usize, nt: usize, depth: usize, top: bool) -> Vec<Alt> {
  let n = if top { rng.range(1, 3) } else { rng.range(1, 3) };
  (0..n).map(|_| if rng.chance(1, 7) { Alt::Eps } else {
    let m = rng.range(1, 3);
    Alt::Seq((0..m).map(|_| random_elem(rng, o, nr, nt, depth)).collect())
  }).collect()
}

fn random_elem(rng: &mut Rng, o: &GenOpts, nr: usize, nt: usize, depth: usize) -> Elem {
  let atom = match rng.below(10) {
    0 | 1 if depth > 0 => Atom::Group(random_block(rng, o, nr, nt, depth - 1, false)),
    2 | 3 | 4 => Atom::Rule(rng.below(nr)),
    5 if o.lits => Atom::Lit(rng.pick::<&str>(&["'abc'", "'+'", "'a b'", "'\\n'", "'\\''", "''", "'é'"]).to_string()),
    _ => if nt > 0 { Atom::Tok(rng.below(nt)) } else { Atom::Rule(rng.below(nr)) },
  };
  let suffix = match rng.below(8) { 0 | 1 => Some('*'), 2 if o.plus => Some('+'), 3 | 4 => Some('?'), _ => None };
  Elem { atom, lazy: suffix.is_some() && rng.chance(1, 6), suffix }
}

fn guarded_block(rng: &mut Rng, nr: usize, nt: usize, depth: usize, eps: bool) -> Vec<Alt> {
  let mut lead: Vec<usize> = (0..nt).collect();
  rng.shuffle(&mut lead);
  let n = rng.range(1, 3.min(nt));
  let mut v: Vec<Alt> = lead[..n].iter().map(|t| {
    let mut e = vec![Elem { atom: Atom::Tok(*t), suffix: None, lazy: false }];
    for _ in 0..rng.below(4) { e.push(guarded_elem(rng, nr, nt, depth)) }
    if rng.chance(1, 8) { let k = rng.below(e.len()); e.rotate_left(k) }
    Alt::Seq(e)
  }).collect();
  if rng.chance(1, 6) { v.push(Alt::Seq(vec![Elem { atom: Atom::Rule(rng.below(nr)), suffix: None, lazy: false }])) }
  if eps && rng.chance(1, 5) { let k = rng.below(v.len() + 1); v.insert(k, Alt::Eps) }
  v
}
fn guarded_elem(rng: &mut Rng, nr: usize, nt: usize, depth: usize) -> Elem {
  let atom = match rng.below(8) { 0 | 1 | 2 if depth > 0 => Atom::Group(guarded_block(rng, nr, nt, depth - 1, false)), 3 | 4 => Atom::Tok(rng.below(nt)), _ => Atom::Rule(rng.below(nr)) };
  let suffix = match rng.below(6) { 0 | 1 => Some('*'), 2 => Some('?'), _ => None };
  Elem { atom, lazy: suffix.is_some() && rng.chance(1, 6), suffix }
}

/// A spec whose alternatives are mostly told apart by a leading token; LL(1) (no `+`), every rule productive, found
/// by rejection. None if unlucky.
pub fn ll1_spec(rng: &mut Rng, tries: usize, dups: bool, rx: &mut dyn FnMut(&mut Rng) -> Rx) -> Option<Spec> {
  for _ in 0..tries {
    let nr = rng.range(1, 7);
    let nt = rng.range(3, 9);
    let mut decls: Vec<Decl> = (0..nr).map(|r| Decl::Rule(r, guarded_block(rng, nr, nt, 2, true))).collect();
    for t in 0..nt { let x = rx(rng); decls.push(Decl::Tok(t, x)) }
    if dups && rng.chance(1, 2) { // the alternatives of a rule spread over two declarations
      let r = rng.below(nr);
      if let Decl::Rule(_, a) = &mut decls[r] { if a.len() > 1 { let b = a.split_off(1); let at = rng.below(decls.len() + 1); decls.insert(at, Decl::Rule(r, b)) } }
    }
    match rng.below(3) { 0 => {} 1 => rng.shuffle(&mut decls), _ => { let k = rng.below(decls.len()); decls.rotate_left(k) } }
    let s = Spec { rule_names: vec![String::new(); nr], tok_names: vec![String::new(); nt], decls };
    let g = s.lower();
    if g.prods.len() < 3 || !g.is_ll1() || !g.all_productive() { continue }
    return Some(Spec { rule_names: names(rng, nr, false), tok_names: names(rng, nt, true), decls: s.decls });
  }
  None
}

/// Random sentence of rule r with its syntax tree (groups and operators leave no node).
pub fn sentence(spec: &Spec, g: &Cfg, rng: &mut Rng, start: usize, budget: usize, out: &mut Vec<usize>) -> Tree {
  let _ = spec;
  crate::cfg::derive(g, rng, start, budget, 14, out)
}
