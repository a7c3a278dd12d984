//! Generated lexers as the code under test: token rules are pushed through the real visitors and the real
//! template, the resulting Rust sources are compiled into a crate, and the compiled lexers are then driven
//! under the monitors (C03), alone and as the front half of a complete generated front end (C19).

use crate::cfg::{self, Cfg};
use crate::ebnf::{self, Decl, GenOpts, Spec, BOOT};
use crate::lexspec::{self, LexRule};
use crate::rng::Rng;
use crate::rt::{self, Cx, Prop};
use crate::rx::{self, Rx};
use crate::tree;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::fs;
use std::path::PathBuf;
use std::process::Command;
use std::rc::Rc;
use std::sync::OnceLock;
use std::time::Instant;
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::token::Token;
use syntaxis::tool::grammar::Grammar;
use syntaxis::tool::parser::ll1_parser::LL1Parser;
use syntaxis::tool::serde_ast;
use syntaxis::tool::syntaxis::syntaxis_context::RuleListContext;
use syntaxis::tool::visitor::lexer_rule_visitor::{LexerRuleData, LexerRuleVisitor, StringLiteralVisitor};

/// One compiled lexer: constructor and the values of its public token constants.
pub struct Compiled { pub make: fn(&str) -> Box<dyn Lexer>, pub consts: &'static [(&'static str, usize)] }
pub static TABLE: OnceLock<Vec<Compiled>> = OnceLock::new();

fn lexers(id: &str, thorough: bool) -> usize { match (id, thorough) { ("C22", _) => 1, ("C03", false) => 80, ("C03", true) => 400, (_, false) => 60, (_, true) => 300 } }

fn ws_rx() -> Rx { Rx::Rep(Box::new(Rx::Class(vec![(' ', ' '), ('\n', '\n'), ('\r', '\r'), ('\t', '\t')], false)), 1, None) }

/// Spec number k of a C03 run: token rules only.
fn spec_c03(seed: u64, k: usize) -> Spec {
  let mut rng = Rng::for_case(seed, "C03-spec", k as u64);
  if k == 0 { // a fixed set, for inputs beyond 16-bit counters
    let w = |s: &str| Rx::Cat(s.chars().map(Rx::Ch).collect());
    let id = Rx::Rep(Box::new(Rx::Class(vec![('a', 'z')], false)), 1, None);
    return Spec { rule_names: vec!["start".into()], tok_names: vec!["SEMI".into(), "ID".into(), "WHITE_SPACE".into()],
      decls: vec![Decl::Tok(0, w(";")), Decl::Tok(1, id), Decl::Tok(2, ws_rx())] };
  }
  let n = if k % 8 == 7 { rng.range(10, 30) } else { rng.range(1, 9) };
  let mut tok_names = ebnf::names(&mut rng, n, true);
  // names that look like the one with a special meaning
  if rng.chance(1, 2) {
    let x = rng.pick::<&str>(&["NO_WHITE_SPACE", "WHITE_SPACE2", "WHITE_SPACES", "White_Space", "WHITE", "WHITE_SPAC", "STOP", "START", "SKIP", "COMMENT", "EOF", "WHITESPACE"]).to_string();
    let at = rng.below(n);
    if !tok_names.contains(&x) { tok_names[at] = x }
  }
  let mut decls: Vec<Decl> = (0..n).map(|i| Decl::Tok(i, nonempty(&mut rng))).collect();
  if rng.chance(2, 3) {
    tok_names.push("WHITE_SPACE".into());
    decls.push(Decl::Tok(n, ws_rx()));
  }
  // a rule that can match nothing must never win
  if rng.chance(1, 6) {
    let t = tok_names.len();
    tok_names.push(format!("OPT{}", t));
    decls.push(Decl::Tok(t, Rx::Rep(Box::new(Rx::Ch(*rng.pick(&['q', 'a', '0']))), 0, None)));
  }
  if k % 8 == 3 || k % 8 == 4 { for n in tok_names.iter_mut() { if n != "WHITE_SPACE" { *n = format!("{}{}", "LONG_name_".repeat(2 + k % 7), n) } } }
  // string literals of rules come first, whatever the position of the rules
  if k % 3 == 2 {
    let lits: Vec<String> = (0..rng.range(1, 6)).map(|_| some_literal(&mut rng)).collect();
    for l in lits.chunks(2) {
      let alts = l.iter().map(|x| ebnf::Alt::Seq(vec![ebnf::Elem { atom: ebnf::Atom::Lit(x.clone()), suffix: *rng.pick(&[None, Some('*'), Some('?')]), lazy: false }])).collect::<Vec<_>>();
      let alts = if rng.chance(1, 2) { alts } else { vec![ebnf::Alt::Seq(vec![ebnf::Elem { atom: ebnf::Atom::Group(alts), suffix: None, lazy: false }])] };
      let at = rng.below(decls.len() + 1);
      decls.insert(at, Decl::Rule(0, alts));
    }
  }
  if rng.chance(1, 4) { let t = rng.below(tok_names.len()); decls.push(Decl::Tok(t, nonempty(&mut rng))) } // declared twice: first wins
  if rng.chance(1, 2) { let k = rng.below(decls.len()); decls.rotate_left(k) }
  Spec { rule_names: vec!["start".into()], tok_names, decls }
}

/// A literal as grammar files have them, not empty.
fn some_literal(rng: &mut Rng) -> String {
  loop {
    let l = match rng.below(3) {
      0 => rng.pick::<&str>(&["'if'", "'else'", "'+'", "'++'", "'+='", "'('", "')'", "'*'", "'/'", "'=='", "'='", "'in'", "'int'", "'a'", "'0'", "'->'", "'\\''", "'\\\\'", "'.'", "'..'", "'\"'", "'\"####'", "'\"###'", "'{'", "'}'", "'[^a]'", "'$'", "'|'", "'\\u{41}b'", "'漢字'", "'end if'", "'#'", "'\\r\\n'"]).to_string(),
      _ => crate::props::build::literal(rng).0,
    };
    let v = ebnf::denoted(&l);
    if !v.is_empty() && v.chars().count() < 40 { return l }
  }
}

fn nonempty(rng: &mut Rng) -> Rx {
  loop {
    let x = rx::tokenish_rx(rng);
    if !x.nullable() { return x }
  }
}

/// Spec number k of a C19 run: an LL(1) grammar over token rules with a separator.
fn spec_c19(seed: u64, k: usize) -> Spec {
  let mut rng = Rng::for_case(seed, "C19-spec", k as u64);
  loop {
    let dups = rng.chance(1, 3);
    let mut s = if k % 3 > 0 { match ebnf::ll1_spec(&mut rng, 200, dups, &mut |r| nonempty(r)) { Some(s) => s, None => continue } } else {
      let o = GenOpts { rules: (1, 5), toks: (3, 8), depth: 2, plus: false, dups, lits: false };
      ebnf::random_spec(&mut rng, &o, &mut |r| nonempty(r))
    };
    if k % 2 == 1 { s.literalize(&mut rng, some_literal) }
    let t = s.tok_names.len();
    s.tok_names.push("WHITE_SPACE".into());
    s.decls.push(Decl::Tok(t, ws_rx()));
    let g = s.lower();
    if g.prods.len() < 3 || !g.is_ll1() || !g.all_productive() { continue }
    // every token can be written, and most grammars have long sentences
    let rules = ref_rules(&s, &[]);
    if s.lexicon().iter().any(|(i, n, _, r)| (0..20).all(|_| lexeme(&mut rng, &rules, n, r, *i).is_none())) { continue }
    if k % 5 > 0 && (0..20).all(|_| { let mut o = vec![]; cfg::derive(&g, &mut rng, 0, 60, 30, &mut o); o.len() < 8 }) { continue }
    return s;
  }
}

/// A text that, followed by a blank, is this token.
fn lexeme(rng: &mut Rng, rules: &[LexRule], name: &str, rx: &Rx, ty: usize) -> Option<String> {
  let mut x = String::new();
  rx.sample(rng, &mut x);
  match lexspec::munch(rules, &format!("{} ", x)) { Some((n, r)) if n == x.len() && rules[r].token_type == ty => Some(x), _ => if name == "WHITE_SPACE" { Some(x) } else { None } }
}

const OWN: [&str; 14] = ["RULE_REF", "TOKEN_REF", "COLON", "SEMI", "OR", "EPSILON", "STAR", "PLUS", "QUESTION", "LPAREN", "RPAREN", "STRING_LITERAL", "REGULAR_LITERAL", "WHITE_SPACE"];
const BUNDLED: &str = "/repo/src/tool/syntaxis/syntaxis2.json";

/// C22 takes its token rules from the bundled grammar; only the names matter here.
fn spec_own() -> Spec {
  Spec { rule_names: vec!["rule_list".into()], tok_names: OWN.iter().map(|x| x.to_string()).collect(), decls: (0..OWN.len()).map(|i| Decl::Tok(i, Rx::Ch('x'))).collect() }
}

fn spec(id: &str, seed: u64, k: usize) -> Spec { if id == "C22" { spec_own() } else if id == "C03" { spec_c03(seed, k) } else { spec_c19(seed, k) } }

/// Names of the literals' tokens are the generator's own choice: `names` has those of the constants after the fixed two.
fn ref_rules(s: &Spec, names: &[(&'static str, usize)]) -> Vec<LexRule> {
  s.lexicon().into_iter().enumerate().map(|(k, (i, n, lit, r))| {
    let name = if lit { names.get(k + 2).map_or(n, |x| x.0.to_string()) } else { n };
    LexRule { skip: name == "WHITE_SPACE", name, token_type: i, m: Box::new(move |x| r.prefix(x)) }
  }).collect()
}

/// Token data by the real visitors: the token-only visitor for C03, the three grammar passes for C19.
fn real_data(id: &str, s: &Spec, rng: &mut Rng) -> Vec<LexerRuleData> {
  if id == "C22" {
    let ast = serde_ast::from_reader(fs::File::open(BUNDLED).expect("bundled grammar")).expect("bundled grammar");
    return crate::props::build::build_grammar(&ast).1;
  }
  let cst = s.cst(&BOOT, rng);
  if id == "C03" && rng.chance(1, 2) {
    let ast = cst.to_ctx();
    let (data, next) = { let mut l = StringLiteralVisitor::new(); ast.accept(&mut l); (l.data, l.next_token_type) };
    let mut v = LexerRuleVisitor::new(data, next);
    ast.accept(&mut v);
    v.data
  } else {
    let ast = serde_ast::from_str(&cst.to_json().to_string()).expect("own JSON");
    crate::props::build::build_grammar(&ast).1
  }
}

fn render(data: &Vec<LexerRuleData>) -> String {
  let mut tera = tera::Tera::new("/repo/src/tool/templates/target/rust/*.tera").expect("templates");
  tera.autoescape_on(vec![]);
  let mut c = tera::Context::new();
  c.insert("tokens", data);
  c.insert("name", "Gen");
  tera.render("lexer.tera", &c).expect("render")
}

fn module(s: &Spec, data: &[LexerRuleData], src: &str) -> String {
  let mut o = format!("#![allow(dead_code)]\n{}\n", src);
  o.push_str("pub fn make(i: &str) -> Box<dyn Lexer> { Box::new(GenLexer::new(i)) }\n");
  o.push_str("pub const CONSTS: &[(&str, usize)] = &[(\"_START\", GenLexer::_START), (\"_STOP\", GenLexer::_STOP)");
  for (k, (_, n, lit, _)) in s.lexicon().into_iter().enumerate() {
    let n = if lit { data.get(k).map_or("MISSING".to_string(), |d| d.token_name.clone()) } else { n };
    o.push_str(&format!(", (\"{}\", GenLexer::{})", n, n));
  }
  o.push_str("];\n");
  o
}

/// `mon gen <ID> <quick|thorough>` or `mon gen <ID> --replay <file>`: generate, compile, then run the monitors.
pub fn generate(args: &[String]) -> i32 {
  let start = Instant::now();
  let id = args[0].as_str();
  let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
  let mut thorough = args.get(1).map_or(false, |x| x == "thorough");
  let mut tail = vec!["run".to_string(), id.to_string(), if thorough { "thorough".into() } else { "quick".into() }];
  if args.get(1).map_or(false, |x| x == "--replay") {
    let v: Value = serde_json::from_str(&fs::read_to_string(&args[2]).unwrap()).unwrap();
    seed = v["seed"].as_u64().unwrap();
    thorough = v["tier"] == "thorough";
    tail = vec!["replay".into(), args[2].clone()];
  }
  let prop = props().into_iter().find(|p| p.id == id).unwrap();
  let target = PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or_else(|_| "/verif/.build".into()));
  let dir = target.join(format!("genlex-{}", id));
  let _ = fs::remove_dir_all(&dir);
  fs::create_dir_all(dir.join("src")).unwrap();
  let harness = rt::verif_dir().join("harness");
  fs::write(dir.join("Cargo.toml"), format!("[package]\nname = \"genlex-{}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\nmon = {{ path = \"{}\" }}\nsyntaxis = {{ path = \"/repo\" }}\nregex = \"1\"\n[profile.dev]\nopt-level = 1\ndebug = \"line-tables-only\"\nincremental = false\n[workspace]\n", id.to_lowercase(), harness.display())).unwrap();
  // the harness lock names every dependency; cargo adds the entry of this crate
  let _ = fs::copy(harness.join("Cargo.lock"), dir.join("Cargo.lock"));
  let n = lexers(id, thorough);
  let mut main = String::from("#![allow(warnings)]\n");
  let mut tab = String::new();
  let mut bad: Vec<Value> = vec![];
  let report = |k: usize, sig: &str, w: Value| json!({"property": id, "signature": sig, "seed": seed, "case": k, "tier": if thorough {"thorough"} else {"quick"}, "witness": w});
  for k in 0..n {
    let s = spec(id, seed, k);
    let mut rng = Rng::for_case(seed, "render", k as u64);
    let (data, src) = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let d = real_data(id, &s, &mut rng); let r = render(&d); (d, r) })) {
      Ok(x) => x,
      Err(_) => { bad.push(report(k, "generating a lexer panics", json!({"grammar": s.text()}))); continue }
    };
    fs::write(dir.join(format!("src/lex{}.rs", k)), module(&s, &data, &src)).unwrap();
    main.push_str(&format!("mod lex{};\n", k));
    tab.push_str(&format!("    mon::gen::Compiled {{ make: lex{}::make, consts: lex{}::CONSTS }},\n", k, k));
  }
  let finish = |bad: Vec<Value>, inc: Option<String>| {
    let mut c = BTreeMap::new();
    c.insert("evaluations".to_string(), n as u64);
    rt::conclude(&prop, seed, thorough, start, &c, n, vec![json!({"grammar": spec(id, seed, 0).text()})], bad, inc)
  };
  if !bad.is_empty() { return finish(bad, None) }
  main.push_str(&format!("fn main() {{\n  let _ = mon::gen::TABLE.set(vec![\n{}  ]);\n  std::process::exit(mon::rt::cli(&mon::gen::props()));\n}}\n", tab));
  fs::write(dir.join("src/main.rs"), main).unwrap();
  let out = Command::new("cargo").args(["build", "--offline", "--message-format=short", "-q"]).current_dir(&dir).env("CARGO_TARGET_DIR", &target).output().expect("cargo");
  if !out.status.success() {
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    let hit = err.lines().find(|l| l.starts_with("src/lex") && l.contains("error"));
    return match hit {
      Some(l) => {
        let k: usize = l["src/lex".len()..].split('.').next().unwrap().parse().unwrap_or(0);
        finish(vec![report(k, "a generated lexer does not compile", json!({"grammar": spec(id, seed, k).text(), "compiler": l}))], None)
      }
      None => finish(vec![], Some(format!("cannot build the generated crate: {}", err.chars().take(800).collect::<String>()))),
    };
  }
  let st = Command::new(target.join("debug").join(format!("genlex-{}", id.to_lowercase()))).args(&tail).env("VERIF_SEED", seed.to_string()).status().expect("generated binary");
  st.code().unwrap_or(2)
}

struct Prepared { spec: Spec, rules: Vec<LexRule>, cfg: Cfg, by_type: BTreeMap<usize, (String, Rx)> }
thread_local! { static PREP: RefCell<HashMap<(String, usize), Rc<Prepared>>> = RefCell::new(HashMap::new()); }

fn prepared(id: &str, seed: u64, k: usize) -> Rc<Prepared> {
  PREP.with(|p| p.borrow_mut().entry((id.into(), k)).or_insert_with(|| {
    let s = spec(id, seed, k);
    let cfg = if id == "C19" { s.lower() } else { Cfg { nts: BTreeMap::new(), terms: BTreeMap::new(), prods: vec![] } };
    Rc::new(Prepared { rules: ref_rules(&s, TABLE.get().map_or(&[], |t| t[k].consts)), cfg, by_type: s.lexicon().into_iter().map(|(i, n, _, r)| (i, (n, r))).collect(), spec: s })
  }).clone())
}

fn source_text(rng: &mut Rng, p: &Prepared) -> String {
  let mut s = String::new();
  let toks: Vec<&Rx> = p.by_type.values().map(|x| &x.1).collect();
  let n = if rng.chance(1, 60) { rng.range(100, 700) } else { rng.below(14) };
  for _ in 0..n {
    match rng.below(9) {
      0 => s.push_str(rng.pick::<&str>(&[" ", "\n", "\r\n", "\t", "\n\n", "  "])),
      1 => s.push_str(rng.pick::<&str>(&["é", "漢", "a", "0", "+", "/", "\\", "\"", "=", "ab", "if", "!", "🦀", "q"])),
      _ => rng.pick(&toks).sample(rng, &mut s),
    }
    if rng.chance(1, 4) { s.push(*rng.pick(&[' ', '\n'])) }
  }
  s
}

/// Lexer 0 on long inputs, judged by cheap recognisers of its three rules.
fn long_text(cx: &mut Cx, which: usize) {
  let text = match which {
    0 => format!("{} bb\ncc;", "ab".repeat(34_000)),
    1 => format!("{}bb;", "\n".repeat(70_000)),
    2 => format!("{} aa", ";".repeat(70_000)),
    3 => format!("{}aa ! x", "; \n".repeat(33_500)),
    4 => format!("a{}", "\r\n \t".repeat(20_000)),
    _ => { let n = cx.rng.range(200, 4000); (0..n).map(|_| *cx.rng.pick(&[";", "ab", " ", "\n", "x"])).collect() }
  };
  fn run(s: &str, f: fn(char) -> bool) -> Option<usize> { let n = s.find(|c| !f(c)).unwrap_or(s.len()); if n == 0 { None } else { Some(n) } }
  let rule = |name: &str, t: usize, m: fn(&str) -> Option<usize>| LexRule { name: name.into(), token_type: t, skip: t == 4, m: Box::new(m) };
  let rules = vec![rule("SEMI", 2, |s| if s.starts_with(';') { Some(1) } else { None }), rule("ID", 3, |s| run(s, |c| c.is_ascii_lowercase())), rule("WHITE_SPACE", 4, |s| run(s, |c| " \n\r\t".contains(c)))];
  cx.nontrivial(&text);
  cx.max("input_bytes", text.len() as u64);
  let make = TABLE.get().unwrap()[0].make;
  lexspec::monitor_lexer(cx, "generated lexer", &text, &rules, true, true, true, |i| make(i));
}

fn c03(cx: &mut Cx) {
  let tab = TABLE.get().expect("run through `mon gen`");
  let k = (cx.idx as usize) % tab.len();
  let p = prepared("C03", cx.seed, k);
  if cx.idx < tab.len() as u64 {
    for (name, v) in tab[k].consts {
      let want = match *name { "_START" => 0, "_STOP" => 1, n => p.rules.iter().find(|r| r.name == n).map_or(usize::MAX, |r| r.token_type) };
      cx.count("constants_compared", 1);
      if *v != want { cx.violate("generated lexer: token constant has the wrong number", json!({"grammar": p.spec.text(), "constant": name, "value": v, "expected": want})); return }
    }
  }
  let input = if cx.idx < tab.len() as u64 { String::new() } else if k == 0 && cx.idx < 9 * tab.len() as u64 { long_text(cx, (cx.idx as usize / tab.len()) - 1); return } else { source_text(&mut cx.rng, &p) };
  cx.sample(|| json!({"rules": p.spec.text(), "input": input}));
  if !input.is_empty() { cx.nontrivial(&format!("{}|{}", k, input)) }
  rx::overrun();
  lexspec::expect_channel(&input, &p.rules, true);
  if rx::overrun() || input.chars().count() > 15_000 { cx.count("skipped_oracle_gave_up", 1); return }
  let make = tab[k].make;
  let before = cx.violations.len();
  lexspec::monitor_lexer(cx, "generated lexer", &input, &p.rules, true, true, true, |i| make(i));
  if cx.violations.len() > before { cx.sample(|| json!(null)); eprintln!("rules: {}", p.spec.text()); }
}

fn c19(cx: &mut Cx) {
  let tab = TABLE.get().expect("run through `mon gen`");
  let k = (cx.idx as usize) % tab.len();
  let p = prepared("C19", cx.seed, k);
  // a sentence, and a source text that the reference rules cut into exactly its tokens
  let mut types = vec![];
  let long = cx.rng.chance(1, 25);
  // a list of several hundred elements is as deep a derivation
  let list = long && cx.rng.chance(1, 2);
  let budget = if list { 1500 } else if long { 300 } else { 3 + cx.rng.below(40) };
  let depth = if list { 1200 } else if long { 60 } else { *cx.rng.pick(&[6, 12, 12, 30]) };
  let tree = cfg::derive(&p.cfg, &mut cx.rng, 0, budget, depth, &mut types);
  cx.max("sentence_tokens", types.len() as u64);
  cx.max("children_of_one_node", cfg::widest(&tree) as u64);
  let mut src = String::new();
  if cx.rng.chance(1, 3) { src.push_str(cx.rng.pick::<&str>(&[" ", "\n", "\t\n ", "\r\n\r\n"])) }
  // now and then so much space that the source is several thousand characters long
  let gap = if !types.is_empty() && cx.rng.chance(1, 25) { cx.rng.below(types.len()) } else { usize::MAX };
  for (n, t) in types.iter().enumerate() {
    if n == gap { for _ in 0..cx.rng.range(500, 5000) { src.push(' ') } }
    let mut ok = false;
    for _ in 0..30 {
      let (name, rx) = &p.by_type[t];
      if let Some(x) = lexeme(&mut cx.rng, &p.rules, name, rx, *t) {
        src.push_str(&x);
        src.push_str(cx.rng.pick::<&str>(&[" ", "\n", "  ", "\t\n ", "\r\n"]));
        ok = true;
        break;
      }
    }
    if !ok { cx.count("sentences_without_source", 1); return }
  }
  // an earlier lexeme may swallow what follows (quotes, comments): keep only texts that really are the sentence
  if src.chars().count() > if gap < types.len() || long { 12000 } else { 2500 } { cx.count("sentences_without_source", 1); return }
  rx::overrun();
  let (exp, off) = lexspec::expect_channel(&src, &p.rules, true);
  cx.max("source_characters", src.chars().count() as u64);
  if rx::overrun() { cx.count("skipped_oracle_gave_up", 1); return }
  if off != src.len() || exp.iter().map(|x| x.0).collect::<Vec<_>>() != types.iter().copied().chain([1]).collect::<Vec<_>>() { cx.count("sentences_without_source", 1); return }
  cx.sample(|| json!({"grammar": p.spec.text(), "source": src, "tree": cfg::show_tree(&tree)}));
  if types.len() > 1 { cx.nontrivial(&format!("{}|{}", k, src)) }
  let w = || json!({"grammar": p.spec.text(), "source": src});
  let mut r = cx.rng.clone();
  let js = p.spec.cst(&BOOT, &mut r).to_json().to_string();
  let g = match cx.must("building the grammar from a grammar file", w, || {
    let ast = serde_ast::from_str(&js).expect("tree of the grammar file");
    let g: (Grammar, Vec<LexerRuleData>) = crate::props::build::build_grammar(&ast);
    g.0
  }) { Some(x) => x, None => return };
  cx.printed();
  let table = match cx.must("building the parsing table", w, || {
    let (f, pf) = g.first_set();
    let fo = g.follow_set(&f);
    g.ll1_table(&pf, &fo)
  }) { Some(x) => x, None => return };
  let said = cx.printed();
  if !said.trim().is_empty() {
    cx.violate("an LL(1) grammar is reported as conflicting", json!({"grammar": p.spec.text(), "printed": said}));
    return;
  }
  let make = tab[k].make;
  let tokens = match cx.must("generated lexer", w, || make(&src).scan_all_on_channel_tokens(0)) { Some(t) => t, None => return };
  let got: Vec<usize> = tokens.iter().map(|t| t.token_type).collect();
  if got[..] != exp.iter().map(|x| x.0).collect::<Vec<_>>()[..] {
    cx.violate("the generated lexer does not produce the sentence's tokens", json!({"grammar": p.spec.text(), "source": src, "got": got, "expected": types}));
    return;
  }
  let kept = tokens.clone();
  let ast = match cx.must("parsing a sentence", w, || LL1Parser::new(tokens, table, g).parse()) { Some(a) => a, None => return };
  let said = cx.printed();
  cx.count("sentences_parsed", 1);
  cx.count("tokens_observed", kept.len() as u64);
  match cfg::observe(&ast, &kept) {
    Ok(t) if t == tree && said.trim().is_empty() => {}
    Ok(t) if t == tree => cx.violate("a mismatch is reported for a sentence", json!({"grammar": p.spec.text(), "source": src, "printed": said})),
    Ok(t) => cx.violate("the tree is not the derivation of the sentence", json!({"grammar": p.spec.text(), "source": src, "got": cfg::show_tree(&t), "expected": cfg::show_tree(&tree)})),
    Err(m) => cx.violate("the tree does not carry the sentence's tokens", json!({"grammar": p.spec.text(), "source": src, "why": m})),
  }
  // the text under a node is the source between its first and last token
  if let Some(m) = cx.must("text of the root", w, || ast.get_text(&src).to_string()) {
    let want = if types.is_empty() { "" } else { let b = kept[types.len() - 1].char_stop_index; &src[kept[0].char_start_index..b] };
    if m != want { cx.violate("the root's text is not the source text", json!({"grammar": p.spec.text(), "source": src, "got": m, "expected": want})) }
  }
}

/// What a lexer does with a text: every token, what is collected and what is printed.
fn behaviour(cx: &mut Cx, who: &str, text: &str, pre: usize, mk: impl Fn() -> Box<dyn Lexer>) -> Option<(Vec<Token>, bool, Vec<Token>, String)> {
  cx.printed();
  let r = cx.must(who, || json!(text), || {
    let mut lx = mk();
    let mut v = vec![];
    while v.len() < text.len() + 3 { match lx.scan() { Ok(t) => v.push(t), Err(_) => break } }
    let over = lx.scan().is_ok();
    let mut lx = mk();
    for _ in 0..pre { let _ = lx.scan(); }
    (v, over, lx.scan_all_on_channel_tokens(0))
  })?;
  let said = cx.printed();
  Some((r.0, r.1, r.2, said))
}

fn c22(cx: &mut Cx) {
  use syntaxis::tool::v1::{syntaxis_lexer::SyntaxisLexer as L, syntaxis_parser::SyntaxisParser as P};
  let tab = TABLE.get().expect("run through `mon gen`");
  let make = tab[0].make;
  let bundled = match cx.must("loading the bundled grammar", || json!(BUNDLED), || serde_ast::from_reader(fs::File::open(BUNDLED).expect("bundled grammar")).expect("bundled grammar")) { Some(x) => x, None => return };
  let build = |cx: &mut Cx| -> Option<(Grammar, crate::props::parsing::Table)> {
    let g = cx.must("building the bundled grammar", || json!(BUNDLED), || crate::props::build::build_grammar(&bundled).0)?;
    let t = cx.must("table of the bundled grammar", || json!(BUNDLED), || { let (f, p) = g.first_set(); let fo = g.follow_set(&f); g.ll1_table(&p, &fo) })?;
    Some((g, t))
  };
  if cx.idx == 0 {
    // the constants of the self-hosted front end are the numbers given by its own grammar
    let toks = [("_START", L::_START), ("_STOP", L::_STOP), ("RULE_REF", L::RULE_REF), ("TOKEN_REF", L::TOKEN_REF), ("COLON", L::COLON), ("SEMI", L::SEMI), ("OR", L::OR), ("EPSILON", L::EPSILON), ("STAR", L::STAR), ("PLUS", L::PLUS), ("QUESTION", L::QUESTION), ("LPAREN", L::LPAREN), ("RPAREN", L::RPAREN), ("STRING_LITERAL", L::STRING_LITERAL), ("REGULAR_LITERAL", L::REGULAR_LITERAL), ("WHITE_SPACE", L::WHITE_SPACE)];
    let rules = [("rule_list", P::RULE_LIST), ("parser_rule", P::PARSER_RULE), ("block", P::BLOCK), ("alternative", P::ALTERNATIVE), ("epsilon", P::EPSILON), ("element", P::ELEMENT), ("ebnf_suffix", P::EBNF_SUFFIX), ("lexer_rule", P::LEXER_RULE), ("regular", P::REGULAR)];
    let (g, _) = match build(cx) { Some(x) => x, None => return };
    for (n, v) in toks {
      cx.count("constants_compared", 2);
      let gen = tab[0].consts.iter().find(|c| c.0 == n).map(|c| c.1);
      if g.vocabulary.get_terminal_id_by_name(n) != Some(v) || gen != Some(v) { cx.violate("the self-hosted lexer's constants are not the numbers its grammar gives", json!({"token": n, "self_hosted": v, "grammar": g.vocabulary.get_terminal_id_by_name(n), "generated": gen})) }
    }
    for (n, v) in rules {
      cx.count("constants_compared", 1);
      if g.vocabulary.get_nonterminal_id_by_name(n) != Some(v) { cx.violate("the self-hosted parser's constants are not the numbers its grammar gives", json!({"rule": n, "self_hosted": v, "grammar": g.vocabulary.get_nonterminal_id_by_name(n)})) }
    }
  }
  // texts: the bundled grammar itself, other grammar files, and anything
  let own = || { let mut l = vec![]; tree::leaves(&bundled, &mut l); l.iter().map(|x| x.1.text.clone()).collect::<Vec<_>>().join(" ") };
  let (text, is_file) = match cx.idx {
    0 => (own(), true),
    1 => (crate::props::lexing::TEXT.to_string(), true),
    2 => (format!("{}aa /x\n{}/ ? @", "; \n".repeat(3_500), "\r\n".repeat(6_600)), false),
    i if i % 3 == 0 => {
      let o = GenOpts { rules: (1, 6), toks: (0, 6), depth: 3, plus: true, dups: true, lits: true };
      (ebnf::random_spec(&mut cx.rng, &o, &mut |r| rx::tokenish_rx(r)).text(), true)
    }
    _ => { let n = *cx.rng.pick(&[4, 12, 40]); (lexspec::notation_text(&mut cx.rng, n), false) }
  };
  cx.sample(|| json!({"text": text}));
  if !text.is_empty() { cx.nontrivial(&text) }
  let pre = if cx.idx > 1 && cx.rng.chance(1, 3) { cx.rng.below(6) } else { 0 };
  let a = match behaviour(cx, "self-hosted lexer", &text, pre, || Box::new(L::new(&text))) { Some(x) => x, None => return };
  let b = match behaviour(cx, "lexer generated from the bundled grammar", &text, pre, || make(&text)) { Some(x) => x, None => return };
  cx.count("tokens_compared", a.0.len() as u64);
  let differs = |x: &[Token], y: &[Token]| (0..x.len().max(y.len())).find(|i| match (x.get(*i), y.get(*i)) { (Some(p), Some(q)) => !cfg::tok_eq(p, q), _ => true });
  for (what, x, y) in [("scanned", &a.0, &b.0), ("collected", &a.2, &b.2)] {
    if let Some(i) = differs(x, y) {
      cx.violate("the lexer generated from the bundled grammar differs from the self-hosted one", json!({"text": text, "what": what, "scanned_before": pre, "at": i, "self_hosted": x.get(i).map(|t| t.to_string()), "generated": y.get(i).map(|t| t.to_string())}));
      return;
    }
  }
  if a.1 != b.1 || a.3.trim() != b.3.trim() {
    cx.violate("the lexer generated from the bundled grammar differs from the self-hosted one", json!({"text": text, "what": "end of the text", "self_hosted": [json!(a.1), json!(a.3)], "generated": [json!(b.1), json!(b.3)]}));
    return;
  }
  // whole grammar files through both front ends
  if !is_file || pre > 0 || !a.3.trim().is_empty() { return }
  let ((g1, t1), (g2, t2)) = match (build(cx), build(cx)) { (Some(x), Some(y)) => (x, y), _ => return };
  cx.printed();
  let hosted = match cx.must("self-hosted parser", || json!(text), || P::new(a.2, t1, g1.vocabulary).parse()) { Some(x) => x, None => return };
  let s1 = cx.printed();
  let general = match cx.must("general parser", || json!(text), || LL1Parser::new(b.2, t2, g2).parse()) { Some(x) => x, None => return };
  let s2 = cx.printed();
  cx.count("trees_compared", 1);
  if !tree::same(&hosted, &general) || s1 != s2 { cx.violate("the general parser and the self-hosted one give different trees", json!({"text": text, "self_hosted": tree::show(&hosted), "general": tree::show(&general), "printed": [s1, s2]})); return }
  if cx.idx == 0 {
    fn flat(r: &syntaxis::runtime::ast::rule_context::RuleContext, o: &mut Vec<String>) {
      use syntaxis::runtime::ast::ast_context::ASTContext as A;
      o.push(format!("{} {} (", r.rule_index, r.rule_name));
      for c in &r.children { match c { A::Rule(x) => flat(x, o), A::Terminal(x) => o.push(format!("{} {:?}", x.symbol.token_name, x.symbol.text)), A::Error(_) => o.push("error".into()) } }
      o.push(")".into());
    }
    let (mut x, mut y) = (vec![], vec![]);
    flat(&bundled, &mut x);
    flat(&hosted, &mut y);
    cx.count("own_grammar_reproduced", 1);
    if x != y {
      let i = (0..x.len().max(y.len())).find(|i| x.get(*i) != y.get(*i)).unwrap();
      cx.violate("the bundled grammar's own text does not parse to the bundled tree", json!({"at": i, "bundled": x.get(i), "parsed": y.get(i)}));
    }
  }
}

pub fn props() -> Vec<Prop> {
  vec![
    Prop { id: "C22", level: "exploration", quick: 9000, thorough: 400000, run: c22,
      rule: "The lexer generated from the bundled grammar by the real passes and template, compiled, against the self-hosted lexer on grammar files and hostile texts near the notation (all tokens, collected tokens, printed rest, end); grammar files also through both parsers; the bundled grammar's own text against the bundled tree. Non-trivial = non-empty text; distinct by text.",
      required: &["constants_compared", "tokens_compared", "trees_compared", "own_grammar_reproduced"],
      assumptions: &[] },
    Prop { id: "C03", level: "exploration", quick: 24000, thorough: 1200000, run: c03,
      rule: "Lexers generated by the real visitors and template from random token rules (overlapping keywords/identifiers/operators, ordered alternatives, escaped slashes, multi-byte characters, rules that can match nothing, duplicates, with and without WHITE_SPACE), compiled, and run on texts sampled from the rules plus noise; the oracle is an independent backtracking matcher. Non-trivial = non-empty input; distinct by (lexer, input).",
      required: &["tokens_observed", "end_markers_observed", "lexing_failures_observed", "constants_compared", "channel_collections"],
      assumptions: &["the expression of a token rule contains no raw carriage return or character that changes the direction of text (neither may stand in Rust source)", "rules use the common regular-expression core: literals, classes, groups, | ? * + {m,n}"] },
    Prop { id: "C19", level: "exploration", quick: 40000, thorough: 600000, run: c19,
      rule: "Complete front ends: random LL(1) grammar files (EBNF groups, ? and *, duplicates, any declaration order) as JSON trees through the real passes, generated and compiled lexer, table-driven parser; source texts are sampled sentences. Non-trivial = at least two tokens; distinct by (grammar, source).",
      required: &["sentences_parsed", "tokens_observed"],
      assumptions: &["no + operator (its lowering is never LL(1))"] },
  ]
}
