use crate::cfg::*;
use crate::ebnf::{self, Cst, Decl, GenOpts, Spec, V1};
use crate::rng::Rng;
use crate::rt::{Cx, Prop};
use crate::rx;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext};
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::token::Token;
use syntaxis::tool::grammar::{Grammar, Production};
use syntaxis::tool::parser::ll1_parser::LL1Parser;
use syntaxis::tool::serde_ast;
use syntaxis::tool::v1::{syntaxis_lexer::SyntaxisLexer, syntaxis_parser::SyntaxisParser};

pub type Table = HashMap<(usize, usize), Rc<Production>>;

fn ref_table(g: &Cfg, cells: &BTreeMap<(usize, usize), BTreeSet<usize>>) -> Table {
  cells.iter().map(|(k, c)| (*k, Rc::new(Cfg::to_production(&g.prods[*c.iter().next().unwrap()])))).collect()
}

fn sut_table(g: &Grammar) -> Table {
  let (f, pf) = g.first_set();
  let fo = g.follow_set(&f);
  g.ll1_table(&pf, &fo)
}

fn has_left_recursion(g: &Cfg) -> bool {
  // LL(1) grammars with productive rules are never left-recursive; kept as a guard for the validity checker
  let nullable = g.nullable();
  let mut e: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
  for (l, r) in &g.prods { for s in r { match s { S::N(n) => { e.entry(*l).or_default().insert(*n); if !nullable.contains(n) { break } } _ => break } } }
  g.nts.keys().any(|n| {
    let mut seen = BTreeSet::new();
    let mut st: Vec<usize> = e.get(n).map_or(vec![], |x| x.iter().copied().collect());
    while let Some(x) = st.pop() { if x == *n { return true } if seen.insert(x) { if let Some(y) = e.get(&x) { st.extend(y.iter().copied()) } } }
    false
  })
}

/// The grammar the parser is exercised on.
fn grammar(cx: &mut Cx) -> Cfg {
  loop {
    if cx.rng.chance(1, 100) {
      let g = wide_cfg(&mut cx.rng);
      if g.is_ll1() && g.all_productive() && !has_left_recursion(&g) { return g }
    }
    let big = cx.rng.chance(1, 3);
    let mut g = ll1_cfg(&mut cx.rng, big);
    if cx.rng.chance(1, 12) { g.lengthen_names(&mut cx.rng) }
    if g.nts.contains_key(&0) && !has_left_recursion(&g) { return g }
  }
}

/// `before`: a sentence the same parser object parses first.
fn run_parser(cx: &mut Cx, which: usize, g: &Cfg, before: Option<&[Token]>, toks: &[Token], cells: &BTreeMap<(usize, usize), BTreeSet<usize>>) -> Result<RuleContext, String> {
  let gr = g.build(&mut cx.rng);
  let t = toks.to_vec();
  let rt = ref_table(g, cells);
  let first = before.map(|b| b.to_vec());
  if first.is_some() { cx.count("parsers_used_again", 1) }
  cx.sut(move || {
    let tb = if which % 2 == 0 { sut_table(&gr) } else { rt };
    let (now, later) = match first { Some(f) => (f, Some(t)), None => (t, None) };
    if which < 2 {
      let mut p = LL1Parser::new(now, tb, gr);
      match later { Some(t) => { p.parse(); p.parse(); p.tokens = t; p.parse() } None => p.parse() }
    } else {
      let mut p = SyntaxisParser::new(now, tb, gr.vocabulary);
      match later { Some(t) => { p.parse(); p.rule_list(); p.tokens = t; p.parse() } None => p.parse() }
    }
  })
}
const WHICH: [&str; 4] = ["generic parser, computed table", "generic parser, given table", "self-hosted parser, computed table", "self-hosted parser, given table"];

/// Long and deep sentences of a fixed grammar: item lists and nesting, through named and unnamed rules.
fn deep(i: u64) -> Option<(Cfg, Vec<usize>)> {
  use S::*;
  let g = |named: bool| Cfg {
    nts: [(0, Some("list".to_string())), (1, if named { Some("more".to_string()) } else { None }), (2, Some("item".to_string()))].into(),
    terms: [(2, "X"), (3, "OPEN"), (4, "CLOSE")].iter().map(|(a, b)| (*a, b.to_string())).collect(),
    prods: vec![(0, vec![N(1)]), (1, vec![N(2), N(1)]), (1, vec![]), (2, vec![T(2)]), (2, vec![T(3), N(0), T(4)])] };
  Some(match i {
    0 => (g(true), vec![2; 1200]),
    1 => (g(false), vec![2; 1200]),
    2 => (g(false), [vec![3; 300], vec![4; 300]].concat()),
    3 => (g(true), [vec![3; 500], vec![2], vec![4; 500]].concat()),
    4 => (g(false), (0..400).flat_map(|k| if k % 3 == 0 { vec![3, 4] } else { vec![2] }).collect()),
    _ => return None,
  })
}

fn c07(cx: &mut Cx) {
  if let Some((g, mut types)) = deep(cx.idx) {
    let cells = g.cells(&g.sets(0));
    types.push(1);
    let toks = make_tokens(&g, &mut cx.rng, &types);
    let tree = ref_parse(&g, &cells, 0, &types).expect("a sentence").0;
    for which in 0..4 {
      cx.printed();
      let r = run_parser(cx, which, &g, None, &toks, &cells);
      let said = cx.printed();
      cx.count("long_sentences_parsed", 1);
      let ok = match &r { Ok(ast) => observe(ast, &toks).map_or(false, |t| t == tree), Err(_) => false };
      if !ok || !said.trim().is_empty() {
        cx.violate("a long or deeply nested sentence is not parsed to its tree", json!({"grammar": g.describe(), "tokens": types.len(), "with": WHICH[which], "panic": r.err(), "printed": said.chars().take(200).collect::<String>()}));
        return;
      }
    }
    return;
  }
  let g = grammar(cx);
  let s = g.sets(0);
  let cells = g.cells(&s);
  let mut last: Option<Vec<Token>> = None;
  for k in 0..3 {
    let mut types = vec![];
    let budget = match k { 0 => cx.rng.below(6), 1 => cx.rng.range(5, 40), _ => cx.rng.range(30, 160) };
    let tree = derive(&g, &mut cx.rng, 0, budget, 18, &mut types);
    if types.len() > 2000 { continue }
    types.push(1);
    if cx.rng.chance(1, 4) { for _ in 0..cx.rng.below(3) { let t = *cx.rng.pick(&g.terms.keys().copied().collect::<Vec<_>>()); types.push(t) } } // what follows the end marker is irrelevant
    let toks = make_tokens(&g, &mut cx.rng, &types);
    cx.sample(|| json!({"grammar": g.describe(), "tokens": types, "tree": show_tree(&tree)}));
    if types.len() > 2 { cx.nontrivial(&format!("{}|{:?}", g.text(), types)) }
    cx.max("sentence_tokens", types.len() as u64);
    for which in [k, (k + 1) % 4, 3] {
      cx.printed();
      let before = if k > 0 && cx.rng.chance(1, 3) { last.clone() } else { None };
      let r = run_parser(cx, which, &g, before.as_deref(), &toks, &cells);
      let said = cx.printed();
      cx.count("sentences_parsed", 1);
      let w = |extra: Value| json!({"grammar": g.describe(), "tokens": types, "with": WHICH[which], "with_a_parser_used_before": before.is_some(), "detail": extra});
      match r {
        Err(m) => { cx.violate("parsing a sentence panics", w(json!(m))); return }
        Ok(ast) => match observe(&ast, &toks) {
          Err(m) => { cx.violate("the tree does not carry the sentence's tokens unaltered and in order", w(json!(m))); return }
          Ok(t) if t != tree => { cx.violate("the tree is not the derivation of the sentence", w(json!({"got": show_tree(&t), "expected": show_tree(&tree)}))); return }
          Ok(t) => {
            let mut f = vec![];
            frontier(&t, &mut f);
            cx.count("leaves_observed", f.len() as u64);
            if !said.trim().is_empty() { cx.violate("an error is reported for a sentence", w(json!(said))); return }
          }
        },
      }
    }
    last = Some(toks);
  }
}

fn mutate(rng: &mut Rng, types: &mut Vec<usize>, terms: &[usize]) {
  for _ in 0..rng.range(1, 3) {
    let n = types.len();
    match rng.below(6) {
      0 if n > 0 => { let i = rng.below(n); types.remove(i); }
      1 => { let i = rng.below(n + 1); types.insert(i, *rng.pick(terms)) }
      2 if n > 0 => { let i = rng.below(n); types[i] = *rng.pick(terms) }
      3 if n > 1 => { let i = rng.below(n - 1); types.swap(i, i + 1) }
      4 if n > 0 => { let i = rng.below(n); types.truncate(i) }
      _ => { let i = rng.below(n + 1); types.insert(i, 1) }
    }
  }
}

fn c08(cx: &mut Cx) {
  let g = grammar(cx);
  let s = g.sets(0);
  let cells = g.cells(&s);
  let mut terms: Vec<usize> = g.terms.keys().copied().collect();
  if cx.rng.chance(1, 3) { terms.push(97) } // a token the grammar does not know
  for k in 0..4 {
    let mut types = vec![];
    match cx.rng.below(5) {
      0 => for _ in 0..cx.rng.below(8) { types.push(*cx.rng.pick(&terms)) },
      _ => {
        let b = cx.rng.range(0, 30);
        derive(&g, &mut cx.rng, 0, b, 14, &mut types);
        if types.len() > 300 { continue }
        mutate(&mut cx.rng, &mut types, &terms);
      }
    }
    if !cx.rng.chance(1, 6) { types.push(1) }
    let toks = make_tokens(&g, &mut cx.rng, &types);
    let expect = ref_parse(&g, &cells, 0, &types);
    cx.sample(|| json!({"grammar": g.describe(), "tokens": types, "is_prefix_acceptable": expect.is_ok()}));
    cx.count(if expect.is_ok() { "inputs_with_a_derivable_prefix" } else { "inputs_without_a_derivation" }, 1);
    if expect.is_err() { cx.nontrivial(&format!("{}|{:?}", g.text(), types)) }
    for which in [k % 4, 1, 3] {
      cx.printed();
      let r = run_parser(cx, which, &g, None, &toks, &cells);
      let said = cx.printed();
      let w = |extra: Value| json!({"grammar": g.describe(), "tokens": types, "with": WHICH[which], "detail": extra});
      match r {
        Err(_) => {
          cx.count("loud_rejections", 1);
          if let Ok((t, n)) = &expect { cx.violate("an input that starts with a sentence is rejected", w(json!({"tree": show_tree(t), "consumed": n}))); return }
        }
        Ok(ast) => {
          if !said.trim().is_empty() {
            cx.count("reported_mismatches", 1);
            if let Ok((t, _)) = &expect { cx.violate("a mismatch is reported although the input starts with a sentence", w(json!({"tree": show_tree(t), "printed": said}))); return }
            continue;
          }
          // silent success: the result must be a derivation tree of what it consumed
          cx.count("silent_acceptances", 1);
          match observe(&ast, &toks) {
            Err(m) => { cx.violate("a silently accepted input gives a tree with foreign leaves", w(json!(m))); return }
            Ok(t) => {
              if let Ok((e, _)) = &expect { if *e == t { continue } }
              let ok = match &t { Tree::Rule { index: 0, kids, name } => *name == nt_name(&g, 0) && valid_kids(&g, 0, kids, &types, 5000), _ => false };
              if !ok { cx.violate("a wrong input is accepted silently", w(json!({"tree": show_tree(&t)}))); return }
              if let Ok((e, _)) = &expect { if *e != t { cx.violate("the tree is not the predicted derivation", w(json!({"got": show_tree(&t), "expected": show_tree(e)}))); return } }
            }
          }
        }
      }
    }
  }
}

// ---------------------------------------------------------------- the notation's own front end

pub fn notation_grammar() -> Grammar {
  let f = std::fs::File::open("src/tool/syntaxis/syntaxis2.json").expect("bundled grammar");
  let ast = serde_ast::from_reader(f).expect("bundled grammar loads");
  crate::props::build::build_grammar(&ast).0
}

/// regular expressions whose printed form does not end in a backslash (that would escape the closing slash)
fn notation_rx(r: &mut Rng) -> rx::Rx {
  loop {
    let x = rx::tokenish_rx(r);
    let p = x.print();
    if !p.ends_with('\\') && !p.is_empty() { return x }
  }
}

pub fn lay_out(rng: &mut Rng, leaves: &[(usize, &str)], style: usize) -> String {
  let mut s = String::new();
  let blank = |r: &mut Rng| if r.chance(1, 400) { r.pick::<&str>(&[" ", "\n", "\r\n\t"]).repeat(r.range(100, 3000)) } else { r.pick::<&str>(&[" ", "\n", "\t", "\r\n", "  ", "\n\n  ", " \u{c} "]).to_string() };
  if style > 0 && rng.chance(1, 2) { s.push_str(&blank(rng)) }
  for (i, (_, x)) in leaves.iter().enumerate() {
    s.push_str(x);
    let word = |c: Option<char>| c.map_or(false, |c| c.is_alphanumeric() || c == '_');
    let next = leaves.get(i + 1).map(|l| l.1);
    // a separator is needed only between two words, colon-like runs, and before another literal of the same kind
    let needs = match next {
      None => false,
      Some(n) => (word(x.chars().last()) && word(n.chars().next())) || (":=->".contains(x.chars().last().unwrap()) && ":=->/".contains(n.chars().next().unwrap())) || x.starts_with('/') || n.starts_with('/') || x.starts_with('\'') || n.starts_with('\''),
    };
    if needs || (style > 0 && rng.chance(2, 3)) { s.push_str(&if style == 1 { " ".to_string() } else { blank(rng) }) }
  }
  if style > 0 && rng.chance(1, 2) { s.push_str(&blank(rng)) }
  s
}

fn cst_show(c: &Cst) -> String {
  match c { Cst::Leaf(_, _, x) => format!("{:?}", x), Cst::Node(i, k) => format!("{}({})", ebnf::RULE_NAMES[*i], k.iter().map(cst_show).collect::<Vec<_>>().join(" ")) }
}

/// compare a real tree with the denoted one
fn cst_diff(c: &Cst, r: &RuleContext, path: &str) -> Option<String> {
  let (i, kids) = match c { Cst::Node(i, k) => (*i, k), _ => unreachable!() };
  let path = format!("{}/{}", path, ebnf::RULE_NAMES[i]);
  if r.rule_index != i || r.rule_name != ebnf::RULE_NAMES[i] { return Some(format!("{}: node is {} ({})", path, r.rule_name, r.rule_index)) }
  if kids.len() != r.children.len() { return Some(format!("{}: {} children, expected {}: {}", path, r.children.len(), kids.len(), cst_show(c))) }
  for (n, (a, b)) in kids.iter().zip(r.children.iter()).enumerate() {
    match (a, b) {
      (Cst::Node(..), ASTContext::Rule(x)) => if let Some(m) = cst_diff(a, x, &format!("{}[{}]", path, n)) { return Some(m) },
      (Cst::Leaf(t, name, text), ASTContext::Terminal(x)) => {
        if x.symbol.token_type != *t || x.symbol.token_name != *name || x.symbol.text != *text { return Some(format!("{}[{}]: leaf {} instead of {} {:?}", path, n, x.symbol, name, text)) }
      }
      _ => return Some(format!("{}[{}]: wrong kind of child", path, n)),
    }
  }
  None
}

fn elems(d: &[ebnf::Alt]) -> Vec<ebnf::Elem> { d.iter().flat_map(|a| match a { ebnf::Alt::Eps => vec![], ebnf::Alt::Seq(v) => v.clone() }).collect() }

/// Many alternatives, or many elements in one, somewhere in the file.
fn widen(rng: &mut Rng, spec: &mut Spec) {
  let all: Vec<ebnf::Alt> = spec.decls.iter().flat_map(|d| match d { Decl::Rule(_, a) => a.clone(), _ => vec![] }).collect();
  let es = elems(&all);
  if all.is_empty() { return }
  for d in spec.decls.iter_mut() {
    if let (Decl::Rule(_, a), true) = (d, rng.chance(1, 2)) {
      let n = *rng.pick(&[4usize, 6, 10, 17, 33, 70]);
      if rng.chance(1, 2) || es.is_empty() { while a.len() < n { let k = rng.below(a.len() + 1); a.insert(k, rng.pick(&all).clone()) } }
      else { let k = rng.below(a.len()); let mut v = elems(&a[k..k + 1]); while v.len() < n { v.push(rng.pick(&es).clone()) } a[k] = ebnf::Alt::Seq(v) }
    }
  }
}

fn c09(cx: &mut Cx) {
  let lits = cx.rng.chance(1, 2);
  let depth = if cx.rng.chance(1, 6) { 6 } else { 2 };
  let o = GenOpts { rules: (1, 6), toks: (0, 6), depth, plus: true, dups: true, lits };
  let mut spec = ebnf::random_spec(&mut cx.rng, &o, &mut notation_rx);
  if cx.idx == 0 { spec.decls.clear() }
  if cx.rng.chance(1, 5) { widen(&mut cx.rng, &mut spec); cx.count("files_with_long_blocks", 1) }
  let mut ids_rng = cx.rng.clone();
  let style = cx.rng.below(3);
  if style == 0 { cx.count("minimally_spaced_inputs", 1) }
  cx.count("grammar_files", 1);
  let table_and_vocab = |cx: &mut Cx| -> Option<(Grammar, Table)> {
    let g = cx.must("loading the bundled grammar", || json!("syntaxis2.json"), notation_grammar)?;
    cx.printed();
    let t = cx.must("table of the bundled grammar", || json!("syntaxis2.json"), || sut_table(&g))?;
    let said = cx.printed();
    if !said.trim().is_empty() { cx.violate("the bundled grammar is reported as conflicting", json!({"printed": said})); return None }
    Some((g, t))
  };
  let lex = |cx: &mut Cx, text: &str| -> Option<Vec<Token>> {
    let t = cx.must("scanning a grammar file", || json!(text), || SyntaxisLexer::new(text).scan_all_on_channel_tokens(0));
    t
  };
  // the whole file
  let cst = spec.cst(&V1, &mut ids_rng);
  let mut l = vec![];
  cst.leaves(&mut l);
  let text = lay_out(&mut cx.rng, &l, style);
  cx.sample(|| json!({"text": text, "tree": cst_show(&cst)}));
  if spec.decls.len() > 1 { cx.nontrivial(&text) }
  cx.count("leaves_compared", l.len() as u64);
  let (g, t) = match table_and_vocab(cx) { Some(x) => x, None => return };
  let toks = match lex(cx, &text) { Some(t) => t, None => return };
  cx.printed();
  let via_entry = cx.rng.chance(1, 2);
  let ast = match cx.must("parsing a grammar file", || json!(text), || { let p = SyntaxisParser::new(toks, t, g.vocabulary); if via_entry { p.rule_list().as_rule().clone() } else { p.parse() } }) { Some(a) => a, None => return };
  let said = cx.printed();
  if let Some(m) = cst_diff(&cst, &ast, "") { cx.violate("the tree of a grammar file is not what the text denotes", json!({"text": text, "why": m})); return }
  if !said.trim().is_empty() { cx.violate("an error is reported for a grammar file", json!({"text": text, "printed": said})); return }
  // one typed entry point on a fragment
  let (g, t) = match table_and_vocab(cx) { Some(x) => x, None => return };
  let d = if spec.decls.is_empty() { return } else { cx.rng.pick(&spec.decls).clone() };
  fragment(cx, &spec, &d, style, g, t);
}

fn fragment(cx: &mut Cx, spec: &Spec, d: &Decl, style: usize, g: Grammar, t: Table) {
  let mut r = cx.rng.clone();
  let dc = spec.decl_cst(d, &V1, &mut r);
  // what may follow the node
  let after_elem: &[&str] = &[";", ")", "|", " Tok", " rule", "( Tok )"];
  let (kind, cst, tail): (&str, Cst, &[&str]) = match d {
    Decl::Tok(_, x) => match cx.rng.below(2) {
      0 => ("lexer_rule", dc, &[""]),
      _ => ("regular", Cst::Node(ebnf::REGULAR, vec![Cst::Leaf(V1.regular, "REGULAR_LITERAL", x.literal())]), &[";"]),
    },
    Decl::Rule(_, alts) => {
      let es = elems(alts);
      match cx.rng.below(6) {
        0 => ("parser_rule", dc, &[""]),
        1 => ("block", spec.block(alts, &V1), &[";", ")", ")*", ") ?;"]),
        2 => ("alternative", { let a = cx.rng.pick(alts).clone(); spec.alt(&a, &V1) }, &[";", ")", "|", "| Tok"]),
        3 => ("epsilon", Cst::Node(ebnf::EPSILON, vec![Cst::Leaf(V1.epsilon, "EPSILON", "ε".into())]), &[";", ")", "|"]),
        4 if !es.is_empty() => ("element", { let e = cx.rng.pick(&es).clone(); spec.elem(&e, &V1) }, after_elem),
        _ => { let c = *cx.rng.pick(&['*', '+', '?']); let z = cx.rng.chance(1, 2); ("ebnf_suffix", spec.suffix(c, z, &V1), after_elem) }
      }
    }
  };
  let mut l = vec![];
  cst.leaves(&mut l);
  let mut text = lay_out(&mut cx.rng, &l, style);
  let tail = *cx.rng.pick(tail);
  if tail.is_empty() && style == 0 { text.push(' ') }
  text.push_str(tail);
  if cx.rng.chance(1, 2) { // and anything after that: the node ends where it ends
    cx.count("fragments_with_more_text", 1);
    let more = Spec { rule_names: spec.rule_names.clone(), tok_names: spec.tok_names.clone(), decls: (0..cx.rng.range(1, 3)).map(|_| cx.rng.pick(&spec.decls).clone()).collect() };
    text.push('\n');
    text.push_str(&more.text());
  }
  cx.count(&format!("entry_{}", kind), 1);
  let w = || json!({"entry": kind, "text": text});
  let toks = match cx.must("scanning a fragment", w, || SyntaxisLexer::new(&text).scan_all_on_channel_tokens(0)) { Some(t) => t, None => return };
  cx.printed();
  let p = SyntaxisParser::new(toks, t, g.vocabulary);
  // tree, plus what the typed accessors of the returned object say: (accessor, texts)
  let txt = |x: Option<&syntaxis::runtime::ast::terminal_context::TerminalContext>| x.map_or(vec![], |t| vec![t.symbol.text.clone()]);
  let got = cx.must("a typed entry point", w, || -> (RuleContext, Vec<(&'static str, Vec<String>)>) {
    match kind {
      "parser_rule" => { let c = p.parser_rule(); (c.as_rule().clone(), vec![("rule_ref", txt(c.rule_ref())), ("colon", txt(c.colon())), ("semi", txt(c.semi())), ("#block", vec![c.block().is_some().to_string()])]) }
      "lexer_rule" => { let c = p.lexer_rule(); (c.as_rule().clone(), vec![("token_ref", txt(c.token_ref())), ("colon", txt(c.colon())), ("semi", txt(c.semi())), ("regular", c.regular().map_or(vec![], |r| txt(r.regular_literal())))]) }
      "regular" => { let c = p.regular(); (c.as_rule().clone(), vec![("regular_literal", txt(c.regular_literal()))]) }
      "block" => { let c = p.block(); (c.as_rule().clone(), vec![("or_list", c.or_list().iter().map(|t| t.symbol.text.clone()).collect()), ("#alternatives", vec![c.alternative_list().len().to_string()])]) }
      "alternative" => { let c = p.alternative(); (c.as_rule().clone(), vec![("#elements", vec![c.element_list().len().to_string()]), ("epsilon", c.epsilon().map_or(vec![], |e| txt(e.epsilon())))]) }
      "epsilon" => { let c = p.epsilon(); (c.as_rule().clone(), vec![("epsilon", txt(c.epsilon()))]) }
      "element" => { let c = p.element(); (c.as_rule().clone(), vec![("token_ref", txt(c.token_ref())), ("rule_ref", txt(c.rule_ref())), ("string_literal", txt(c.string_literal())), ("lparen", txt(c.lparen())), ("rparen", txt(c.rparen())), ("#block", vec![c.block().is_some().to_string()]), ("#suffix", vec![c.ebnf_suffix().is_some().to_string()])]) }
      _ => { let c = p.ebnf_suffix(); (c.as_rule().clone(), vec![("star", txt(c.star())), ("plus", txt(c.plus())), ("question_list", c.question_list().iter().map(|t| t.symbol.text.clone()).collect())]) }
    }
  });
  let (ast, acc) = match got { Some(x) => x, None => return };
  let said = cx.printed();
  if let Some(m) = cst_diff(&cst, &ast, "") { cx.violate("a typed entry point gives the wrong tree", json!({"entry": kind, "text": text, "why": m})); return }
  if !said.trim().is_empty() { cx.violate("an error is reported for a grammar fragment", json!({"entry": kind, "text": text, "printed": said})); return }
  // expected accessor answers, read off the denoted tree
  let kids = match &cst { Cst::Node(_, k) => k.clone(), _ => vec![] };
  let leaf = |id: usize| -> Vec<String> { kids.iter().filter_map(|k| match k { Cst::Leaf(t, _, x) if *t == id => Some(x.clone()), _ => None }).collect() };
  let nodes = |i: usize| kids.iter().filter(|k| matches!(k, Cst::Node(j, _) if *j == i)).count();
  let deep = |i: usize| -> Vec<String> { kids.iter().find_map(|k| match k { Cst::Node(j, g) if *j == i => g.iter().find_map(|x| match x { Cst::Leaf(_, _, t) => Some(vec![t.clone()]), _ => None }), _ => None }).unwrap_or_default() };
  for (name, have) in acc {
    let want = match (kind, name) {
      (_, "rule_ref") => leaf(V1.rule_ref), (_, "token_ref") => leaf(V1.token_ref), (_, "colon") => leaf(V1.colon), (_, "semi") => leaf(V1.semi),
      (_, "regular_literal") => leaf(V1.regular), (_, "regular") => deep(ebnf::REGULAR), (_, "or_list") => leaf(V1.or), (_, "string_literal") => leaf(V1.string),
      ("epsilon", "epsilon") => leaf(V1.epsilon), (_, "epsilon") => deep(ebnf::EPSILON), (_, "lparen") => leaf(V1.lparen), (_, "rparen") => leaf(V1.rparen),
      (_, "star") => leaf(V1.star), (_, "plus") => leaf(V1.plus), (_, "question_list") => leaf(V1.question),
      (_, "#alternatives") => vec![nodes(ebnf::ALTERNATIVE).to_string()], (_, "#elements") => vec![nodes(ebnf::ELEMENT).to_string()],
      (_, "#block") => vec![(nodes(ebnf::BLOCK) > 0).to_string()], (_, "#suffix") => vec![(nodes(ebnf::EBNF_SUFFIX) > 0).to_string()],
      _ => unreachable!("{} {}", kind, name),
    };
    cx.count("accessors_compared", 1);
    if have != want { cx.violate("an accessor of a typed entry point's result is wrong", json!({"entry": kind, "text": text, "accessor": name, "got": have, "expected": want})); return }
  }
}


pub fn props() -> Vec<Prop> {
  vec![
    Prop { id: "C07", level: "exploration", quick: 150000, thorough: 1000000, run: c07,
      rule: "Random LL(1) grammars (named and anonymous rules, nullable rules, any numbering) with sentences derived from them, every token carrying a unique payload; both parsers, with the table computed by the code under test and with a reference table. Non-trivial = at least two tokens; distinct by grammar and token sequence.",
      required: &["sentences_parsed", "leaves_observed", "long_sentences_parsed"], assumptions: &["the token sequence ends with the end marker", "the start rule (0) is named"] },
    Prop { id: "C08", level: "exploration", quick: 150000, thorough: 1000000, run: c08,
      rule: "Mutated sentences (deletions, insertions, substitutions, swaps, truncations, early end markers, unknown tokens) and random token strings; a silent success must be a derivation tree of a prefix. Non-trivial = no prefix has a derivation; distinct by grammar and token sequence.",
      required: &["loud_rejections", "reported_mismatches", "silent_acceptances", "inputs_without_a_derivation"], assumptions: &["a panic or any printed message is a loud report", "a sentence followed by further tokens may be accepted (the parser reads one instance of the start rule)"] },
    Prop { id: "C09", level: "exploration", quick: 6000, thorough: 200000, run: c09,
      rule: "Random grammar files (rules, token rules, groups, operators, literals, ε, every colon spelling) laid out with minimal or random white space, parsed by the bundled front end as the program does; plus a random typed entry point on a fragment with all its accessors. Non-trivial = at least two declarations; distinct by text.",
      required: &["grammar_files", "leaves_compared", "entry_parser_rule", "entry_lexer_rule", "entry_block", "entry_alternative", "entry_epsilon", "entry_element", "entry_ebnf_suffix", "entry_regular", "accessors_compared", "minimally_spaced_inputs", "fragments_with_more_text", "files_with_long_blocks"],
      assumptions: &["names have at least two characters (as the notation requires)", "a regular expression does not end in a backslash (it would escape the closing slash)"] },
  ]
}
