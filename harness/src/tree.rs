//! Random syntax trees (any shape, including empty rules and error leaves) and naive reference accessors.

use crate::rng::Rng;
use syntaxis::runtime::ast::{ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::token::{Position, Token};

pub struct TreeOpts { pub max_nodes: usize, pub max_depth: usize, pub errors: bool, pub rule_ids: usize, pub tok_ids: usize, pub weird_text: bool,
  /// token texts and positions unrelated to the laid-out text, misleading names, numbers far apart, very wide nodes
  pub wild: bool }

pub const WEIRD: &[&str] = &["a", "hello", "", "`", "${x}", "$", "$$", "{", "${", "\\", "\\\\", "\\`", "\\${", "</script>", "</SCRIPT >", "<script>", "<!--", "-->", "<!-- <script>", "]]>", "\n", "\r", "\r\n", "\t", "\u{0}", "\u{7f}", "\u{2028}", "\u{2029}", "é", "漢字", "🦀", "\"", "'", "&amp;", "&", "<", ">", "//", "/*", "*/", "{{ x }}", "{% if %}", "{# c #}", "\\u0041", "\\x41", "\\0", "\u{feff}", "`+alert(1)+`", ";", "</title>", "0", "undefined", "null", "__proto__", "\\n", "${`nested`}", "$`", "\u{0}1", "\\\r", "_STOP", "_START", "<no text>", "epsilon", "ε", "error", "<error>", "WHITE_SPACE", "text", "name", "children", "id", "true", "NaN", "-1", "1e3", " ", "  x  ", "\u{85}", "\u{1}", "\u{1b}[0m", "\u{202e}", "e\u{301}", "\u{10ffff}", "\u{fffd}", "%s", "{}", "{:?}", "{0}", "(", ")", "( )", ","];

pub fn weird(rng: &mut Rng) -> String {
  let mut s = String::new();
  for _ in 0..rng.range(0, 4) { s.push_str(rng.pick::<&str>(WEIRD)) }
  s
}

/// A tree whose leaves are laid out over a real text; returns (root, text).
pub fn random_tree(rng: &mut Rng, o: &TreeOpts) -> (RuleContext, String) {
  let mut text = String::new();
  let mut left = rng.range(1, o.max_nodes);
  let mut n = 0;
  let root = node(rng, o, &mut left, o.max_depth, &mut text, &mut n);
  (root, text)
}

fn node(rng: &mut Rng, o: &TreeOpts, left: &mut usize, depth: usize, text: &mut String, n: &mut usize) -> RuleContext {
  let far = |rng: &mut Rng, x: usize| if o.wild && rng.chance(1, 8) { x + *rng.pick(&[256usize, 65536, 1 << 16, 1 << 32, 3 << 32, 1 << 40, 1 << 63]) } else { x };
  let idx = rng.below(o.rule_ids);
  let idx = far(rng, idx);
  let mut kids = vec![];
  let want = match rng.below(6) { 0 => 0, 1 => 1, _ => if o.wild && rng.chance(1, 25) { rng.range(20, 600) } else { rng.range(1, 5) } };
  for _ in 0..want {
    if *left == 0 { break }
    *left -= 1;
    if depth > 0 && rng.chance(1, 2) { kids.push(ASTContext::Rule(node(rng, o, left, depth - 1, text, n))) }
    else {
      if rng.chance(1, 3) { text.push_str(rng.pick::<&str>(&[" ", "\n", "  ", "漢"])) }
      if o.wild && rng.chance(1, 150) { text.push_str(&rng.pick::<&str>(&[" ", "\r\n", "é"]).repeat(rng.range(300, 40_000))) }
      let lex = if rng.chance(1, 300) { rng.pick::<&str>(&["long ", "é", "\\n`"]).repeat(rng.range(20, 3000)) } else if o.weird_text { weird(rng) } else { rng.pick::<&str>(&["x", "abc", "é", "12", "+", "if", "漢字"]).to_string() };
      let start = text.len();
      text.push_str(&lex);
      let t = rng.below(o.tok_ids);
      let t = far(rng, t);
      let mut tok = Token { token_type: t, token_name: if o.weird_text && rng.chance(1, 3) { weird(rng) } else { format!("T{}", t) },
        start: Position { line: *n, char_position: start }, stop: Position { line: *n, char_position: text.len() }, channel: 0, text: lex,
        token_index: *n, char_start_index: start, char_stop_index: text.len() };
      *n += 1;
      if o.wild {
        if rng.chance(1, 2) { tok.text = rng.pick::<&str>(&["", "_STOP", "a longer text than the slice", "é", "\n\n", "y"]).to_string() }
        if rng.chance(1, 4) { tok.token_name = rng.pick::<&str>(&["RULE_REF", "TOKEN_REF", "COLON", "block", "", "T1", "_STOP", "ERROR"]).to_string() }
        if rng.chance(1, 4) { tok.start = Position { line: rng.below(9), char_position: rng.below(90) }; tok.stop = Position { line: rng.below(9), char_position: rng.below(90) } }
        if rng.chance(1, 4) { tok.token_index = rng.below(7) }
        if rng.chance(1, 4) { tok.channel = rng.below(3) }
      }
      kids.push(if o.errors && rng.chance(1, 5) { ASTContext::Error(ErrorContext { symbol: tok }) } else { ASTContext::Terminal(TerminalContext { symbol: tok }) });
    }
  }
  if o.wild && rng.chance(1, 4) { return RuleContext { rule_index: idx, rule_name: rng.pick::<&str>(&["rule_list", "parser_rule", "block", "alternative", "epsilon", "element", "ebnf_suffix", "lexer_rule", "regular", "", "12", "error"]).to_string(), children: kids } }
  if o.wild && rng.chance(1, 20) { return RuleContext { rule_index: idx, rule_name: "long_name_".repeat(rng.range(3, 40)), children: kids } }
  RuleContext { rule_index: idx, rule_name: if o.weird_text && rng.chance(1, 3) { weird(rng) } else { format!("rule{}", idx) }, children: kids }
}

pub fn leaves<'a>(r: &'a RuleContext, out: &mut Vec<(bool, &'a Token)>) {
  for c in r.children.iter() {
    match c { ASTContext::Rule(x) => leaves(x, out), ASTContext::Terminal(x) => out.push((true, &x.symbol)), ASTContext::Error(x) => out.push((false, &x.symbol)) }
  }
}

pub fn show(r: &RuleContext) -> String {
  let k: Vec<String> = r.children.iter().map(|c| match c {
    ASTContext::Rule(x) => show(x),
    ASTContext::Terminal(x) => format!("{}={:?}@{}", x.symbol.token_type, x.symbol.text, x.symbol.token_index),
    ASTContext::Error(x) => format!("!{}={:?}@{}", x.symbol.token_type, x.symbol.text, x.symbol.token_index),
  }).collect();
  format!("{}#{}[{}]", r.rule_name, r.rule_index, k.join(", "))
}

pub fn all_rules<'a>(r: &'a RuleContext, out: &mut Vec<&'a RuleContext>) {
  out.push(r);
  for c in r.children.iter() { if let ASTContext::Rule(x) = c { all_rules(x, out) } }
}

pub fn same(a: &RuleContext, b: &RuleContext) -> bool {
  a.rule_index == b.rule_index && a.rule_name == b.rule_name && a.children.len() == b.children.len()
    && a.children.iter().zip(b.children.iter()).all(|(x, y)| match (x, y) {
      (ASTContext::Rule(x), ASTContext::Rule(y)) => same(x, y),
      (ASTContext::Terminal(x), ASTContext::Terminal(y)) => crate::cfg::tok_eq(&x.symbol, &y.symbol),
      (ASTContext::Error(x), ASTContext::Error(y)) => crate::cfg::tok_eq(&x.symbol, &y.symbol),
      _ => false,
    })
}
