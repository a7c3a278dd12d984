use crate::lexspec::*;
use crate::rt::{Cx, Prop};
use serde_json::json;
use syntaxis::runtime::lexer::Lexer;
use syntaxis::tool::syntaxis::syntaxis_lexer::SyntaxisLexer as BootLexer;
use syntaxis::tool::v1::syntaxis_lexer::SyntaxisLexer as V1Lexer;

pub const TEXT: &str = r####"
  rule_list: (parser_rule | lexer_rule)*;

  parser_rule: RULE_REF COLON block SEMI;
  block: alternative (OR alternative)*;

  alternative: element+ | epsilon;
  epsilon: EPSILON;
  element: (
      TOKEN_REF
      | STRING_LITERAL
      | RULE_REF
      | LPAREN block RPAREN
    ) ebnf_suffix?;

  ebnf_suffix: (STAR | PLUS | QUESTION) QUESTION?;


  lexer_rule: TOKEN_REF COLON regular SEMI;
  regular: REGULAR_LITERAL;

  RULE_REF: /[a-z][a-zA-Z0-9_]+/;
  TOKEN_REF: /[A-Z][a-zA-Z0-9_]+/;
  COLON: /::=|:=|->|=>|:|=/;
  SEMI: /;/;
  OR: /\|/;
  EPSILON: /ε|epsilon/;
  STAR: /\* /;
  PLUS: /\+/;
  QUESTION: /\?/;
  LPAREN: /\(/;
  RPAREN: /\)/;
  STRING_LITERAL: /"((\\\\|\\"|\\a|\\d|\\n|\\r|\\t|\\f|\\v|\\u\{(0x|0)?[a-f0-9]+\})|\d|[^\a\d\n\r\t\f\v\\"])*"/;
  REGULAR_LITERAL: /\/(\\\/|[^\/])+\//;
  WHITE_SPACE: /[ \r\n\t\f]+/;
  
  "####;

fn input(cx: &mut Cx) -> String {
  match cx.idx {
    0 => String::new(),
    1 => TEXT.to_string(),
    2 => "\n\n".into(),
    3 => "aa".into(),
    4 => "rule_a : B?;\r\n// c\n/* d\n e */ TOK -> /x\\/y/;".into(),
    5 => "εε 'é漢'\n ε;".into(),
    6 => (0..600).map(|i| format!("rule_{} : TOK_{} | 'lit\\n{}' ;\n", i, i, i)).collect(),
    // long lines, many lines, many tokens: beyond 16-bit counters
    7 => format!("{} bb\ncc;", "ab_9".repeat(17_000)),
    8 => format!("{}bb : CC ;\n'x'", "\n".repeat(70_000)),
    9 => format!("{} aa", ";|".repeat(34_000)),
    10 => format!("{}aa /x\n{}/ ? @", "; \n".repeat(33_500), "\r\n".repeat(66_000)),
    // single tokens of more than a megabyte
    12 => format!("aa{}Bb {} ;", " \n".repeat(600_000), "x".repeat(1_200_000)),
    13 => format!("/{}/ 'é{}' ??", "[ab]\\/\n".repeat(180_000), "z".repeat(1_100_000)),
    11 => format!("'{}' 'q' // c\n", "é".repeat(40_000)),
    _ => { let m = if cx.rng.chance(1, 10) { 60 } else { 12 }; notation_text(&mut cx.rng, m) }
  }
}

thread_local! {
  static V1R: std::rc::Rc<Vec<LexRule>> = std::rc::Rc::new(v1_rules());
  static BR: std::rc::Rc<Vec<LexRule>> = std::rc::Rc::new(boot_rules());
}

fn both(cx: &mut Cx, tiling: bool, classes: bool) {
  let s = input(cx);
  let v1 = V1R.with(|r| r.clone());
  let br = BR.with(|r| r.clone());
  cx.sample(|| json!({"input": s}));
  if s.chars().any(|c| !c.is_whitespace()) { cx.nontrivial(&s) }
  cx.max("input_bytes", s.len() as u64);
  if let Some(log) = monitor_lexer(cx, "self-hosted lexer", &s, &v1, true, tiling, classes, |i| Box::new(V1Lexer::new(i)) as Box<dyn Lexer>) {
    if tiling && cx.violations.is_empty() { check_failure(cx, "self-hosted lexer", &s, &log, |i| Box::new(V1Lexer::new(i)) as Box<dyn Probe>) }
  }
  if let Some(log) = monitor_lexer(cx, "bootstrap lexer", &s, &br, false, tiling, classes, |i| Box::new(BootLexer::new(i)) as Box<dyn Lexer>) {
    if tiling && cx.violations.is_empty() { check_failure(cx, "bootstrap lexer", &s, &log, |i| Box::new(BootLexer::new(i)) as Box<dyn Probe>) }
  }
}

impl Probe for V1Lexer { fn state(&self) -> (usize, usize, usize, usize) { (self.cursor, self.position.line, self.position.char_position, self.token_index) } }
impl Probe for BootLexer { fn state(&self) -> (usize, usize, usize, usize) { (self.cursor, self.position.line, self.position.char_position, self.token_index) } }

macro_rules! consts { ($l:ident: $($c:ident)*) => { [$((stringify!($c), $l::$c)),*] } }

/// the public token numbers are those of the rules
fn wrong_constants(cx: &mut Cx) {
  let v1 = consts!(V1Lexer: _START _STOP RULE_REF TOKEN_REF COLON SEMI OR EPSILON STAR PLUS QUESTION LPAREN RPAREN STRING_LITERAL REGULAR_LITERAL WHITE_SPACE);
  let boot = consts!(BootLexer: _START _STOP LINE_COMMENT BLOCK_COMMENT WS FRAGMENT TOKEN_REF RULE_REF COLON OR SEMI STAR PLUS QUESTION DOT NOT LPAREN RPAREN POUND STRING_LITERAL RANGE REGULAR_LITERAL EPSILON);
  for (who, list, rules) in [("self-hosted lexer", &v1[..], v1_rules()), ("bootstrap lexer", &boot[..], boot_rules())] {
    for (name, n) in list {
      let want = match *name { "_START" => 0, "_STOP" => 1, x => rules.iter().find(|r| r.name == x).expect("reference rule").token_type };
      cx.count("constants_compared", 1);
      if *n != want { cx.violate("a token constant has the wrong number", json!({"lexer": who, "constant": name, "value": n, "expected": want})) }
    }
  }
}

fn c01(cx: &mut Cx) { both(cx, true, false) }
fn c02(cx: &mut Cx) { if cx.idx == 0 { wrong_constants(cx) } both(cx, false, true) }

pub fn props() -> Vec<Prop> {
  vec![
    Prop { id: "C01", level: "exploration", quick: 30000, thorough: 1000000, run: c01,
      rule: "Input texts assembled from notation fragments, near misses, multi-byte characters, CR/LF mixes and random bytes of the notation's alphabet; non-trivial = contains a non-blank character; distinct by text.",
      required: &["tokens_observed", "end_markers_observed", "lexing_failures_observed", "failed_scans_repeated"],
      assumptions: &["columns and offsets are counted in bytes, as get_text slices by them"] },
    Prop { id: "C02", level: "exploration", quick: 16000, thorough: 600000, run: c02,
      rule: "As C01; each scanned token is compared with hand-written recognisers of the 14 and 21 lexical rules under longest-match/earliest-rule, and channel collections (also after partial scans, also on other channels) with the same oracle.",
      required: &["tokens_observed", "channel_collections", "lexing_failures_observed", "constants_compared"],
      assumptions: &["the lexical rules are those of the committed notation (syntaxis2.json / syntaxis.g4 comment)"] },
  ]
}
