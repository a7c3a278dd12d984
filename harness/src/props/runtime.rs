use crate::ebnf;
use crate::rng::Rng;
use crate::rt::{Cx, Prop};
use crate::tree::{self, TreeOpts};
use serde_json::{json, Value};
use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use syntaxis::runtime::ast::{ast_context::ASTContext, error_context::ErrorContext, rule_context::RuleContext, terminal_context::TerminalContext, to_rule::ToRule};
use syntaxis::runtime::token::{Position, Token};
use syntaxis::runtime::vocabulary::Vocabulary;
use syntaxis::tool::serde_ast;

// ---------------------------------------------------------------- C13 vocabulary

#[derive(Default, Clone)]
struct Side { by_id: BTreeMap<usize, Option<String>> }
impl Side {
  fn id_of(&self, name: &str) -> Option<usize> { self.by_id.iter().find(|x| x.1.as_deref() == Some(name)).map(|x| *x.0) }
  fn add(&mut self, id: usize, name: Option<&str>) -> bool {
    if self.by_id.contains_key(&id) || name.map_or(false, |n| self.id_of(n).is_some()) { return false }
    self.by_id.insert(id, name.map(|n| n.to_string()));
    true
  }
}

const FAR: &[usize] = &[255, 256, 257, 65535, 65536, 65537, 1 << 31, u32::MAX as usize, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, (1 << 63) - 1, 1 << 63, (1 << 63) + 3, usize::MAX - 1, usize::MAX];

fn c13(cx: &mut Cx) {
  let far = cx.rng.chance(1, 4);
  let big = cx.rng.chance(1, 10);
  let nops = if big { 120 } else { cx.rng.range(0, 25) };
  let span = *cx.rng.pick(&[4usize, 8, 40]);
  let names: Vec<String> = ["_START", "_STOP", "", "0", "1", "2", "12", "expr", "EXPR", "Expr", "ε", "a b", "'+'", "_T_2", " n0", "n0 ", "\tn1", "n1\n", " ", "  ", "N0", "n_0", "n0\u{301}", "_start", "__STOP", "n\0", "n\0x", "a\\b", "\u{feff}n0", "ｎ0", "\u{2028}", "<no name>", "None"].iter().map(|s| s.to_string())
    .chain([7, 8].iter().map(|k| format!("{}{}", "long".repeat(80), k))).chain((0..span).map(|i| format!("n{}", i))).collect();
  let mut log: Vec<Value> = vec![];
  let mut v = Vocabulary::new();
  let (mut t, mut n) = (Side::default(), Side::default());
  t.add(0, Some("_START"));
  t.add(1, Some("_STOP"));
  let mut rejected = 0u64;
  for step in 0..=nops {
    // compare every observation after every operation (sampled for long histories)
    if step == nops || !big || step % 10 == 0 {
      let r = cx.sut(|| -> Option<String> {
        let tk: BTreeSet<usize> = v.get_all_terminals().iter().copied().collect();
        if tk != t.by_id.keys().copied().collect() { return Some(format!("terminals are {:?}", tk)) }
        let nk: BTreeSet<usize> = v.get_all_nonterminals().iter().copied().collect();
        if nk != n.by_id.keys().copied().collect() { return Some(format!("nonterminals are {:?}", nk)) }
        for id in (0..span + 3).chain(FAR.iter().copied()) {
          let tn = t.by_id.get(&id).cloned().flatten();
          let nn = n.by_id.get(&id).cloned().flatten();
          if v.get_terminal_name_by_id(id) != tn { return Some(format!("terminal {} is called {:?}", id, v.get_terminal_name_by_id(id))) }
          if v.get_nonterminal_name_by_id(id) != nn { return Some(format!("nonterminal {} is called {:?}", id, v.get_nonterminal_name_by_id(id))) }
          if v.get_nonterminal_name_with_default(id) != nn.clone().unwrap_or_else(|| id.to_string()) { return Some(format!("nonterminal {} is shown as {:?}", id, v.get_nonterminal_name_with_default(id))) }
          if let Some(x) = &tn { if v.get_terminal_name(id) != *x { return Some(format!("terminal {} is shown as {:?}", id, v.get_terminal_name(id))) } }
          if v.is_terminal_id(id) != t.by_id.contains_key(&id) { return Some(format!("is_terminal_id({}) is wrong", id)) }
          if v.is_nonterminal_id(id) != n.by_id.contains_key(&id) { return Some(format!("is_nonterminal_id({}) is wrong", id)) }
        }
        for x in &names {
          if v.get_terminal_id_by_name(x) != t.id_of(x) { return Some(format!("terminal {:?} has number {:?}", x, v.get_terminal_id_by_name(x))) }
          if v.get_nonterminal_id_by_name(x) != n.id_of(x) { return Some(format!("nonterminal {:?} has number {:?}", x, v.get_nonterminal_id_by_name(x))) }
          if v.is_terminal_name_defined(x) != t.id_of(x).is_some() { return Some(format!("terminal name {:?}: wrong definedness", x)) }
          if v.is_nonterminal_name_defined(x) != n.id_of(x).is_some() { return Some(format!("nonterminal name {:?}: wrong definedness", x)) }
        }
        None
      });
      cx.count("states_compared", 1);
      match r {
        Err(m) => { cx.violate("a vocabulary query panics", json!({"operations": log, "panic": m})); return }
        Ok(Some(m)) => { cx.violate("the vocabulary lost its one-to-one numbering", json!({"operations": log, "why": m})); return }
        Ok(None) => {}
      }
    }
    if step == nops { break }
    let id = if far && cx.rng.chance(1, 2) { *cx.rng.pick(FAR) } else if cx.rng.chance(1, 3) { cx.rng.below(3) } else { cx.rng.below(span + 2) };
    let name = cx.rng.pick(&names).clone();
    let k = cx.rng.below(3);
    let op = ["add_terminal", "add_named_nonterminal", "add_unnamed_nonterminal"][k];
    log.push(json!([op, id, name]));
    let want = match k { 0 => t.add(id, Some(&name)), 1 => n.add(id, Some(&name)), _ => n.add(id, None) };
    if !want { rejected += 1 }
    let got = cx.sut(|| match k { 0 => v.add_terminal(id, &name), 1 => v.add_named_nonterminal(id, &name), _ => v.add_unnamed_nonterminal(id) });
    match got {
      Err(m) => { cx.violate("adding a symbol panics", json!({"operations": log, "panic": m})); return }
      Ok(g) if g != want => { cx.violate("adding a symbol is accepted or refused wrongly", json!({"operations": log, "answer": g, "expected": want})); return }
      _ => {}
    }
  }
  cx.count("operations", nops as u64);
  cx.count("refused_operations", rejected);
  cx.sample(|| json!({"operations": log}));
  if nops > 2 { cx.nontrivial(&json!(log).to_string()) }
}

// ---------------------------------------------------------------- C14 JSON trees

fn jstr(rng: &mut Rng, s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    if rng.chance(1, 6) || (c as u32) < 0x20 || c == '"' || c == '\\' {
      match c {
        '\n' if rng.chance(1, 2) => o.push_str("\\n"),
        '"' if rng.chance(1, 2) => o.push_str("\\\""),
        '\\' if rng.chance(1, 2) => o.push_str("\\\\"),
        _ => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{:04x}", u)) } }
      }
    } else { o.push(c) }
  }
  o.push('"');
  o
}

fn fields(rng: &mut Rng, mut f: Vec<(String, String)>) -> String {
  if rng.chance(1, 40) { // members of nearly the right name, beside or instead of the right ones
    let k = if rng.chance(1, 3) { "children".to_string() } else { rng.pick(&f).0.clone() };
    let v = match k.as_str() { "children" => rng.pick::<&str>(&["[]", "[{\"token_type\":3,\"token_name\":\"N\"}]", "{}"]).to_string(), "rule_index" | "token_type" => rng.below(50).to_string(), _ => "\"other\"".into() };
    let n = near(rng, &k);
    if rng.chance(1, 6) { for x in f.iter_mut() { if x.0 == k { x.0 = n.clone() } } } else { f.push((n, v)) }
  }
  if rng.chance(1, 2) { rng.shuffle(&mut f) }
  let sp = |r: &mut Rng| r.pick::<&str>(&["", "", " ", "\n", "\t "]).to_string();
  let mut o = String::from("{");
  for (i, (k, v)) in f.iter().enumerate() {
    if i > 0 { o.push(',') }
    o.push_str(&format!("{}\"{}\"{}:{}{}{}", sp(rng), k, sp(rng), sp(rng), v, sp(rng)));
  }
  o.push('}');
  o
}

/// a member name that is nearly `k`
fn near(rng: &mut Rng, k: &str) -> String {
  match rng.below(11) {
    0 => format!(" {}", k), 1 => format!("{} ", k), 2 => format!("{}\\t", k), 3 => k.to_uppercase(),
    4 => { let mut c = k.chars(); let f = c.next().unwrap(); format!("{}{}", f.to_uppercase(), c.as_str()) }
    5 => k.replace('_', if rng.chance(1, 2) { "-" } else { "" }),
    6 => { let mut it = k.split('_'); let a = it.next().unwrap().to_string(); it.fold(a, |a, w| format!("{}{}{}", a, w[..1].to_uppercase(), &w[1..])) }
    7 => format!("{}{}", k, *rng.pick::<&str>(&["s", "_", "2", "\\u0000", "\\u200b", ".x"])),
    8 => k[..k.len() - 1].to_string(), 9 => k[1..].to_string(),
    _ => k.replacen('e', "\u{435}", 1), // looks the same
  }
}

/// serialise a tree; leaves are always tokens
fn to_json(rng: &mut Rng, r: &RuleContext, text_opt: bool) -> String {
  let kids: Vec<String> = r.children.iter().map(|c| match c {
    ASTContext::Rule(x) => to_json(rng, x, text_opt),
    ASTContext::Terminal(TerminalContext { symbol: s }) | ASTContext::Error(ErrorContext { symbol: s }) => {
      let mut f = vec![("token_type".to_string(), s.token_type.to_string()), ("token_name".into(), jstr(rng, &s.token_name))];
      if !(text_opt && s.text == "<no text>") { let t = jstr(rng, &s.text); f.push(("text".into(), t)) }
      if rng.chance(1, 12) { f.push(("children".into(), "null".into())) }
      if rng.chance(1, 12) { f.push(("rule_index".into(), "3".into())); f.push(("rule_name".into(), "\"not_a_rule\"".into())) }
      if rng.chance(1, 12) { f.push(("extra".into(), "[1,{\"children\":[]}]".into())) }
      fields(rng, f)
    }
  }).collect();
  let name = jstr(rng, &r.rule_name);
  let mut f = vec![("rule_index".to_string(), r.rule_index.to_string()), ("rule_name".into(), name), ("children".into(), format!("[{}]", kids.join(",")))];
  if rng.chance(1, 15) { f.push(("text".into(), "\"ignored\"".into())) }
  if rng.chance(1, 15) { f.push(("token_type".into(), "5".into())) }
  if rng.chance(1, 15) { f.push(("token_name".into(), "\"NOT_A_TOKEN\"".into())) }
  if rng.chance(1, 30) { f.push(("value".into(), "1e400".replace("400", "3"))) }
  if rng.chance(1, 40) { for k in 0..rng.range(6, 60) { let v = rng.pick::<&str>(&["null", "[]", "{\"children\":[]}", "\"x\"", "-1.5", "true"]).to_string(); f.push((format!("{}{}", rng.pick::<&str>(&["k", "meta_", "children_", "Children", ""]), k), v)) } }
  fields(rng, f)
}

/// Independent reading of the documented layout. None = not a tree.
fn ref_rule(v: &Value) -> Option<RuleContext> {
  let o = v.as_object()?;
  let mut children = vec![];
  let kids = o.get("children")?.as_array()?;
  let rule_index = o.get("rule_index")?.as_u64()? as usize;
  let rule_name = o.get("rule_name")?.as_str()?.to_string();
  for k in kids {
    let c = k.as_object()?;
    if c.get("children").map_or(true, |x| x.is_null()) {
      let t = c.get("token_type")?.as_u64()? as usize;
      let n = c.get("token_name")?.as_str()?;
      let x = c.get("text").and_then(|x| x.as_str()).unwrap_or("<no text>");
      let z = || Position { line: 0, char_position: 0 };
      children.push(ASTContext::Terminal(TerminalContext { symbol: Token { token_type: t, token_name: n.into(), start: z(), stop: z(), channel: 0, text: x.into(), token_index: 0, char_start_index: 0, char_stop_index: 0 } }));
    } else { children.push(ASTContext::Rule(ref_rule(k)?)) }
  }
  Some(RuleContext { rule_index, rule_name, children })
}

/// A reader that delivers in arbitrary pieces, is interrupted, and may fail for good.
struct Hostile<'a> { data: &'a [u8], pos: usize, rng: Rng, fail_at: Option<usize>, chunk: usize, reads: &'a mut u64, kind: std::io::ErrorKind }
impl Read for Hostile<'_> {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    *self.reads += 1;
    if self.rng.chance(1, 9) { return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted")) }
    if let Some(f) = self.fail_at { if self.pos >= f { return Err(std::io::Error::new(self.kind, "device gone")) } }
    let mut n = buf.len().min(self.data.len() - self.pos).min(1 + self.rng.below(self.chunk));
    if let Some(f) = self.fail_at { n = n.min(f - self.pos) }
    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
    self.pos += n;
    Ok(n)
  }
}

fn c14(cx: &mut Cx) {
  // bytes: mostly valid documents, some broken in one place
  let weird = cx.rng.chance(1, 2);
  let o = TreeOpts { max_nodes: if cx.rng.chance(1, 8) { 200 } else { 25 }, max_depth: 8, errors: false, rule_ids: 40, tok_ids: 60, weird_text: weird, wild: cx.rng.chance(1, 3) };
  let (mut t, _) = tree::random_tree(&mut cx.rng, &o);
  if cx.rng.chance(1, 6) { if let Some(ASTContext::Terminal(x)) = t.children.iter_mut().find(|c| matches!(c, ASTContext::Terminal(_))) { x.symbol.text = "<no text>".into() } }
  let mut r = cx.rng.clone();
  let mut doc: Vec<u8> = to_json(&mut r, &t, true).into_bytes();
  match cx.idx {
    0 => doc = b"".to_vec(),
    1 => { // far too deep
      let mut s = String::new();
      for _ in 0..40000 { s.push_str("{\"rule_index\":1,\"rule_name\":\"x\",\"children\":[") }
      doc = s.into_bytes();
    }
    2 => doc = std::fs::read("src/tool/syntaxis/syntaxis.json").unwrap(),
    3 => doc = std::fs::read("src/tool/syntaxis/syntaxis2.json").unwrap(),
    4 => doc = "[".repeat(100000).into_bytes(),
    5 => doc = b"{\"rule_index\":18446744073709551615,\"rule_name\":\"x\",\"children\":[{\"token_type\":18446744073709551615,\"token_name\":\"\",\"text\":\"\"}]}".to_vec(),
    6 => doc = b"{\"rule_index\":18446744073709551616,\"rule_name\":\"x\",\"children\":[]}".to_vec(),
    7 => { let mut s = String::new(); for _ in 0..55 { s.push_str("{\"rule_index\":1,\"rule_name\":\"x\",\"children\":[") } s.push_str("{\"token_type\":3,\"token_name\":\"N\",\"text\":\"deep\"}"); for _ in 0..55 { s.push_str("]}") } doc = s.into_bytes() }
    8 => { // over two megabytes of children
      let one = "{\"token_type\":3,\"token_name\":\"N\",\"text\":\"wide\"},{\"rule_index\":2,\"rule_name\":\"r\",\"children\":[]}";
      let n = 23_000;
      doc = format!("{{\"rule_index\":0,\"rule_name\":\"x\",\"children\":[{}]}}", vec![one; n].join(",\n")).into_bytes();
    }
    9 => doc = format!("{{\"rule_index\":0,\"rule_name\":\"{}\",\"children\":[{{\"token_type\":3,\"token_name\":\"N\",\"text\":\"{}é\"}}]}}", "n".repeat(70_000), "漢\\n".repeat(300_000)).into_bytes(),
    10 => { let mut d = " \n".repeat(600_000).into_bytes(); d.extend(doc); d.extend("\t\r\n ".repeat(300_000).into_bytes()); doc = d }
    11 => { let mut d = doc.clone(); d.extend("\t\r\n ".repeat(300_000).into_bytes()); d.push(b'}'); doc = d }
    12 => { let mut d = vec![0xef, 0xbb, 0xbf]; d.extend(doc); doc = d }
    _ => {
      if cx.rng.chance(2, 5) {
        cx.count("damaged_documents", 1);
        let s = String::from_utf8(doc.clone()).unwrap();
        match cx.rng.below(9) {
          0 => { let k = cx.rng.below(doc.len() + 1); doc.truncate(k) }
          1 => { let k = cx.rng.below(doc.len()); doc[k] = *cx.rng.pick(&[b'"', b'{', b']', b',', 0xff, b'9', b'x', b'\\', 0x00, b' ']) }
          2 => { let k = cx.rng.below(doc.len()); doc.remove(k); }
          3 => doc.extend_from_slice(cx.rng.pick::<&[u8]>(&[b"x", b"{}", b" \n", b",", b"]", b"\0", b"//", b"\xef\xbb\xbf", b"\xa0"])),
          _ => { // wrong shapes that are still JSON
            let (a, b) = *cx.rng.pick(&[("\"rule_index\"", "\"ruleindex\""), ("\"rule_name\"", "\"name\""), ("\"children\"", "\"kids\""), ("\"token_type\"", "\"type\""), ("\"token_name\"", "\"tname\""), ("\"rule_index\":", "\"rule_index\":-"), ("\"token_type\":", "\"token_type\":1.5e"), ("\"children\":[", "\"children\":[5,"), ("\"children\":[", "\"children\":[null,"), ("\"children\":[", "\"children\":[[],"), ("\"children\":[", "\"children\":[{},"), ("\"children\":[", "\"children\":[\"x\","), ("\"children\":[", "\"children\":{},\"k\":["), ("\"rule_name\":\"", "\"rule_name\":7,\"z\":\""), ("\"token_name\":\"", "\"token_name\":null,\"z\":\""), ("\"rule_index\":", "\"rule_index\":\"0\",\"z\":"), ("\"token_type\":", "\"token_type\":\"3\",\"z\":"), ("\"token_type\":", "\"token_type\":null,\"z\":"), ("\"token_type\":", "\"token_type\":true,\"z\":"), ("\"token_type\":", "\"token_type\":[3],\"z\":"), ("\"token_type\":", "\"children\":false,\"token_type\":"), ("\"token_type\":", "\"children\":\"\",\"token_type\":"), ("\"token_type\":", "\"children\":0,\"token_type\":"), ("\"token_type\":", "\"children\":[],\"token_type\":"), ("\"children\":[", "\"children\":null,\"k\":["), ("\"children\":[", "\"children\":false,\"k\":["), ("\"rule_name\":\"", "\"rule_name\":null,\"z\":\""), ("\"token_name\":\"", "\"token_name\":[],\"z\":\""), ("\"text\":\"", "\"text\":null,\"z\":\"")]);
            let n = s.matches(a).count();
            if n > 0 {
              let k = cx.rng.below(n);
              let at = s.match_indices(a).nth(k).unwrap().0;
              doc = format!("{}{}{}", &s[..at], b, &s[at + a.len()..]).into_bytes();
            }
          }
        }
      }
    }
  }
  let expect = serde_json::from_slice::<Value>(&doc).ok().as_ref().and_then(ref_rule);
  let shown = || { let s = String::from_utf8_lossy(&doc); if s.len() > 4000 { json!(format!("{}... ({} bytes)", s.chars().take(200).collect::<String>(), doc.len())) } else { json!(s) } };
  cx.sample(|| json!({"document": shown(), "is_a_tree": expect.is_some()}));
  if doc.len() > 60 { cx.nontrivial(&String::from_utf8_lossy(&doc)) }
  cx.count(if expect.is_some() { "valid_documents" } else { "invalid_documents" }, 1);
  let compare = |cx: &mut Cx, how: &str, got: Result<RuleContext, serde_ast::Error>| -> bool {
    match (&expect, &got) {
      (Some(e), Ok(g)) => {
        if !tree::same(e, g) { cx.violate("a loaded tree differs from its document", json!({"document": shown(), "through": how, "got": tree::show(g), "expected": tree::show(e)})); return false }
        cx.count("trees_compared", 1);
      }
      (None, Err(_)) => {}
      (Some(_), Err(_)) => { cx.violate("a valid document is refused", json!({"document": shown(), "through": how})); return false }
      (None, Ok(g)) => { cx.violate("an invalid document is accepted", json!({"document": shown(), "through": how, "got": tree::show(g)})); return false }
    }
    true
  };
  if let Ok(s) = std::str::from_utf8(&doc) {
    let s = s.to_string();
    let g = match cx.must("from_str", shown, || serde_ast::from_str(&s)) { Some(g) => g, None => return };
    if !compare(cx, "from_str", g) { return }
  }
  let whole = match cx.must("from_reader", shown, || serde_ast::from_reader(&doc[..])) { Some(g) => g, None => return };
  if !compare(cx, "from_reader", whole) { return }
  let mut reads = 0;
  let r = cx.rng.clone();
  let chunk = if doc.len() > 100_000 { 9000 } else { *cx.rng.pick(&[1usize, 2, 7, 64, 4096]) };
  use std::io::ErrorKind as K;
  let kind = *cx.rng.pick(&[K::Other, K::UnexpectedEof, K::WouldBlock, K::TimedOut, K::BrokenPipe, K::InvalidData, K::PermissionDenied]);
  let g = match cx.must("from_reader", shown, || serde_ast::from_reader(Hostile { data: &doc, pos: 0, rng: r, fail_at: None, chunk, reads: &mut reads, kind })) { Some(g) => g, None => return };
  if !compare(cx, "from_reader with short reads", g) { return }
  if !doc.is_empty() {
    let f = if cx.rng.chance(1, 12) { doc.len() } else { cx.rng.below(doc.len()) }; // all delivered, but not the end
    let r = cx.rng.clone();
    let g = match cx.must("from_reader", shown, || serde_ast::from_reader(Hostile { data: &doc, pos: 0, rng: r, fail_at: Some(f), chunk, reads: &mut reads, kind })) { Some(g) => g, None => return };
    cx.count("failing_readers", 1);
    if g.is_ok() { cx.violate("a failing reader gives a tree", json!({"document": shown(), "fails_after": f})); return }
  }
  cx.count("reads_served", reads);
}

// ---------------------------------------------------------------- C15 navigation

const BOOT_OR_V1: [(&str, ebnf::Ids); 2] = [("bootstrap", ebnf::BOOT), ("self-hosted", ebnf::V1)];

fn ptr<T>(x: &T) -> usize { x as *const T as *const u8 as usize }
fn term_ids(r: &RuleContext, t: usize) -> Vec<usize> { r.children.iter().filter_map(|c| match c { ASTContext::Terminal(x) if x.symbol.token_type == t => Some(ptr(x)), _ => None }).collect() }
fn err_ids(r: &RuleContext, t: usize) -> Vec<usize> { r.children.iter().filter_map(|c| match c { ASTContext::Error(x) if x.symbol.token_type == t => Some(ptr(x)), _ => None }).collect() }
fn rule_ids(r: &RuleContext, t: usize) -> Vec<usize> { r.children.iter().filter_map(|c| match c { ASTContext::Rule(x) if x.rule_index == t => Some(ptr(x)), _ => None }).collect() }

macro_rules! typed {
  ($m:path, $r:expr) => {{
    use $m as m;
    let r: &RuleContext = $r;
    let o = |x: Option<&TerminalContext>| -> Vec<usize> { x.iter().map(|t| ptr(*t)).collect() };
    let tv = |x: Vec<&TerminalContext>| -> Vec<usize> { x.iter().map(|t| ptr(*t)).collect() };
    // (trait, accessor, answer)
    let v: Vec<(&'static str, &'static str, Vec<usize>)> = vec![
      ("rule_list", "parser_rule*", m::RuleListContext::parser_rule_list(r).iter().map(|x| ptr(x.as_rule())).collect()),
      ("rule_list", "lexer_rule*", m::RuleListContext::lexer_rule_list(r).iter().map(|x| ptr(x.as_rule())).collect()),
      ("parser_rule", "rule_ref", o(m::ParserRuleContext::rule_ref(r))),
      ("parser_rule", "colon", o(m::ParserRuleContext::colon(r))),
      ("parser_rule", "semi", o(m::ParserRuleContext::semi(r))),
      ("parser_rule", "block?", m::ParserRuleContext::block(r).iter().map(|x| ptr(x.as_rule())).collect()),
      ("lexer_rule", "token_ref", o(m::LexerRuleContext::token_ref(r))),
      ("lexer_rule", "colon", o(m::LexerRuleContext::colon(r))),
      ("lexer_rule", "semi", o(m::LexerRuleContext::semi(r))),
      ("lexer_rule", "regular?", m::LexerRuleContext::regular(r).iter().map(|x| ptr(x.as_rule())).collect()),
      ("block", "alternative*", m::BlockContext::alternative_list(r).iter().map(|x| ptr(x.as_rule())).collect()),
      ("block", "or*", tv(m::BlockContext::or_list(r))),
      ("alternative", "element*", m::AlternativeContext::element_list(r).iter().map(|x| ptr(x.as_rule())).collect()),
      ("alternative", "epsilon?", m::AlternativeContext::epsilon(r).iter().map(|x| ptr(x.as_rule())).collect()),
      ("epsilon", "epsilon", o(m::EpsilonContext::epsilon(r))),
      ("element", "token_ref", o(m::ElementContext::token_ref(r))),
      ("element", "string", o(m::ElementContext::string_literal(r))),
      ("element", "rule_ref", o(m::ElementContext::rule_ref(r))),
      ("element", "lparen", o(m::ElementContext::lparen(r))),
      ("element", "rparen", o(m::ElementContext::rparen(r))),
      ("element", "block?", m::ElementContext::block(r).iter().map(|x| ptr(x.as_rule())).collect()),
      ("element", "ebnf_suffix?", m::ElementContext::ebnf_suffix(r).iter().map(|x| ptr(x.as_rule())).collect()),
      ("ebnf_suffix", "star", o(m::EbnfSuffixContext::star(r))),
      ("ebnf_suffix", "plus", o(m::EbnfSuffixContext::plus(r))),
      ("ebnf_suffix", "question*", tv(m::EbnfSuffixContext::question_list(r))),
      ("regular", "regular", o(m::RegularContext::regular_literal(r))),
    ];
    v
  }};
}

fn typed_expect(r: &RuleContext, ids: &ebnf::Ids, acc: &str) -> Vec<usize> {
  let many = acc.ends_with('*');
  let name = acc.trim_end_matches(|c| c == '*' || c == '?');
  let rule = acc.ends_with('?') || (many && name != "or" && name != "question");
  let mut v = if rule { rule_ids(r, ebnf::RULE_NAMES.iter().position(|x| *x == name).unwrap()) } else {
    term_ids(r, match name { "rule_ref" => ids.rule_ref, "token_ref" => ids.token_ref, "colon" => ids.colon, "semi" => ids.semi, "or" => ids.or, "epsilon" => ids.epsilon, "string" => ids.string, "lparen" => ids.lparen, "rparen" => ids.rparen, "star" => ids.star, "plus" => ids.plus, "question" => ids.question, "regular" => ids.regular, _ => unreachable!() })
  };
  if !many { v.truncate(1) }
  v
}

/// The root's children again and again.
fn widen(rng: &mut Rng, root: &mut RuleContext) {
  let one: Vec<ASTContext> = root.children.iter().filter(|c| match c { ASTContext::Rule(x) => x.children.len() < 4, _ => true }).take(rng.range(1, 6)).cloned().collect();
  let n = *rng.pick(&[20usize, 65, 130, 260]);
  if one.is_empty() { return }
  let (first, last) = (root.children.first().cloned(), root.children.last().cloned());
  root.children = (0..n * one.len()).map(|i| if rng.chance(1, 9) { rng.pick(&one).clone() } else { one[i % one.len()].clone() }).collect();
  root.children.insert(0, first.unwrap());
  root.children.push(last.unwrap());
  // the text of the node stays a slice of the text
  let mut lv = vec![];
  tree::leaves(root, &mut lv);
  let bad = match (lv.first(), lv.last()) { (Some(a), Some(b)) => a.1.char_start_index > b.1.char_stop_index, _ => false };
  if bad { root.children = one }
}

fn c15(cx: &mut Cx) {
  let wild = cx.rng.chance(1, 2);
  let few = cx.rng.chance(1, 150); // very many children of the same few kinds
  let o = if few { TreeOpts { max_nodes: cx.rng.range(60, 1500), max_depth: 2, errors: true, rule_ids: 3, tok_ids: 3, weird_text: false, wild: true } } else { TreeOpts { max_nodes: if wild && cx.rng.chance(1, 20) { 700 } else { *cx.rng.pick(&[2usize, 6, 20, 60]) }, max_depth: 6, errors: cx.rng.chance(1, 2), rule_ids: 10, tok_ids: 24, weird_text: false, wild } };
  let (mut root, text) = tree::random_tree(&mut cx.rng, &o);
  if few { widen(&mut cx.rng, &mut root) }
  let shown = tree::show(&root);
  cx.sample(|| json!({"tree": shown, "text": text}));
  let mut rules = vec![];
  tree::all_rules(&root, &mut rules);
  if rules.len() > 1 { cx.nontrivial(&shown) }
  for r in rules {
    cx.count("nodes_inspected", 1);
    let mut lv = vec![];
    tree::leaves(r, &mut lv);
    if r.children.first().map_or(false, |c| matches!(c, ASTContext::Rule(x) if { let mut l = vec![]; tree::leaves(x, &mut l); l.is_empty() })) { cx.count("nodes_starting_with_an_empty_rule", 1) }
    let w = |what: &str| json!({"tree": shown, "node": tree::show(r), "accessor": what, "text": text});
    let got = match cx.sut(|| -> Option<String> {
      if ptr(r.as_rule()) != ptr(r) { return Some("as_rule".into()) }
      if ptr(r.get_children()) != ptr(&r.children) || r.get_child_count() != r.children.len() || r.get_rule_index() != r.rule_index { return Some("children".into()) }
      let same = |a: &Option<Token>, b: Option<&Token>| match (a, b) { (Some(x), Some(y)) => crate::cfg::tok_eq(x, y), (None, None) => true, _ => false };
      if !same(&r.get_start_token(), lv.first().map(|x| x.1)) { return Some("get_start_token".into()) }
      if !same(&r.get_stop_token(), lv.last().map(|x| x.1)) { return Some("get_stop_token".into()) }
      let ft = lv.first().and_then(|x| if x.0 { Some(ptr(x.1)) } else { None });
      let lt = lv.last().and_then(|x| if x.0 { Some(ptr(x.1)) } else { None });
      if r.get_first_terminal().map(|t| ptr(&t.symbol)) != ft { return Some("get_first_terminal".into()) }
      if r.get_last_terminal().map(|t| ptr(&t.symbol)) != lt { return Some("get_last_terminal".into()) }
      let want = match (lv.first(), lv.last()) { (Some(a), Some(b)) => &text[a.1.char_start_index..b.1.char_stop_index], _ => "" };
      if r.get_text(&text) != want { return Some(format!("get_text: {:?} instead of {:?}", r.get_text(&text), want)) }
      let mut types: BTreeSet<usize> = (0..25).collect();
      let mut most = BTreeMap::new();
      for c in r.children.iter() {
        let k = match c { ASTContext::Rule(x) => (0, x.rule_index), ASTContext::Terminal(x) => (1, x.symbol.token_type), ASTContext::Error(x) => (2, x.symbol.token_type) };
        *most.entry(k).or_insert(0usize) += 1;
        types.insert(k.1);
        types.insert(k.1 + 65536);
      }
      let most = most.values().copied().max().unwrap_or(0);
      for t in types {
        let e = term_ids(r, t);
        if r.get_terminals(t).iter().map(|x| ptr(*x)).collect::<Vec<_>>() != e { return Some(format!("get_terminals({})", t)) }
        let x = err_ids(r, t);
        if r.get_errornodes(t).iter().map(|x| ptr(*x)).collect::<Vec<_>>() != x { return Some(format!("get_errornodes({})", t)) }
        let c = rule_ids(r, t);
        if r.get_rule_contexts(t).iter().map(|x| ptr(*x)).collect::<Vec<_>>() != c { return Some(format!("get_rule_contexts({})", t)) }
        for i in (0..4).chain(if most > 3 { most - 2..most + 2 } else { 0..0 }).chain([16, 31, 63, 64, 99, 127, 128, 256, 65536, usize::MAX]) {
          if r.get_terminal(t, i).map(|x| ptr(x)) != e.get(i).copied() { return Some(format!("get_terminal({}, {})", t, i)) }
          if r.get_errornode(t, i).map(|x| ptr(x)) != x.get(i).copied() { return Some(format!("get_errornode({}, {})", t, i)) }
          if r.get_rule_context(t, i).map(|x| ptr(x)) != c.get(i).copied() { return Some(format!("get_rule_context({}, {})", t, i)) }
        }
      }
      for c in r.children.iter() {
        let (a, b) = match c { ASTContext::Terminal(x) => (x.get_text(), &x.symbol.text), ASTContext::Error(x) => (x.get_text(), &x.symbol.text), _ => continue };
        if a != b { return Some("text of a leaf".into()) }
      }
      None
    }) { Ok(g) => g, Err(m) => { cx.violate("a tree accessor panics", json!({"at": w(""), "panic": m})); return } };
    if let Some(m) = got { cx.violate("a tree accessor disagrees with the tree", w(&m)); return }
    let both = match cx.sut(|| [typed!(syntaxis::tool::syntaxis::syntaxis_context, r), typed!(syntaxis::tool::v1::syntaxis_context, r)]) { Ok(b) => b, Err(m) => { cx.violate("a typed accessor panics", json!({"at": w(""), "panic": m})); return } };
    for (k, answers) in both.iter().enumerate() {
      let (who, ids) = &BOOT_OR_V1[k];
      for (tr, acc, have) in answers {
        cx.count("typed_accessors_compared", 1);
        if *have != typed_expect(r, ids, acc) { cx.violate("a typed accessor returns the wrong child", w(&format!("{} {}.{}", who, tr, acc))); return }
      }
    }
  }
  // mutation through the mutable view reaches the same node
  let mut copy = root.clone();
  let ok = cx.sut(|| { copy.as_mut_rule().rule_index = 77; copy.as_rule().rule_index == 77 && copy.rule_index == 77 });
  if ok != Ok(true) { cx.violate("the mutable view is not the node itself", json!({"tree": shown})) }
  if { copy.rule_index = root.rule_index; !tree::same(&copy, &root) } { cx.violate("a copied tree differs from the original", json!({"tree": shown})) }
}

// ---------------------------------------------------------------- C16 listener

use syntaxis::tool::syntaxis::syntaxis_context as bc;
use syntaxis::tool::syntaxis::syntaxis_listener::SyntaxisListener;
use syntaxis::tool::syntaxis::syntaxis_walker::SyntaxisWalker;

type Ev = (String, usize);

/// `every`: also override the generic enter/exit-every hooks. `only`: override-by-silence for other rules.
struct Rec { log: Vec<Ev> }
macro_rules! listen { ($($en:ident $ex:ident $t:ident $n:literal),*) => {
  impl SyntaxisListener for Rec {
    $( fn $en(&mut self, c: &dyn bc::$t) { self.log.push((format!("enter {}", $n), ptr(c.as_rule()))) }
       fn $ex(&mut self, c: &dyn bc::$t) { self.log.push((format!("exit {}", $n), ptr(c.as_rule()))) } )*
    fn enter_every_rule(&mut self, c: &RuleContext) { self.log.push(("enter every".into(), ptr(c))) }
    fn exit_every_rule(&mut self, c: &RuleContext) { self.log.push(("exit every".into(), ptr(c))) }
    fn enter_terminal(&mut self, c: &TerminalContext) { self.log.push(("enter terminal".into(), ptr(c))) }
    fn exit_terminal(&mut self, c: &TerminalContext) { self.log.push(("exit terminal".into(), ptr(c))) }
    fn enter_errornode(&mut self, c: &ErrorContext) { self.log.push(("enter error".into(), ptr(c))) }
    fn exit_errornode(&mut self, c: &ErrorContext) { self.log.push(("exit error".into(), ptr(c))) }
  }
} }
listen!(enter_rule_list exit_rule_list RuleListContext "rule_list", enter_parser_rule exit_parser_rule ParserRuleContext "parser_rule", enter_block exit_block BlockContext "block",
  enter_alternative exit_alternative AlternativeContext "alternative", enter_epsilon exit_epsilon EpsilonContext "epsilon", enter_element exit_element ElementContext "element",
  enter_ebnf_suffix exit_ebnf_suffix EbnfSuffixContext "ebnf_suffix", enter_lexer_rule exit_lexer_rule LexerRuleContext "lexer_rule", enter_regular exit_regular RegularContext "regular");

struct Quiet { log: Vec<Ev> }
impl SyntaxisListener for Quiet { // only leaves: everything else by default does nothing
  fn enter_terminal(&mut self, c: &TerminalContext) { self.log.push(("enter terminal".into(), ptr(c))) }
  fn exit_errornode(&mut self, c: &ErrorContext) { self.log.push(("exit error".into(), ptr(c))) }
}
struct Walk;
impl SyntaxisWalker for Walk {}

fn walk_expect(r: &RuleContext, out: &mut Vec<Ev>) {
  out.push(("enter every".into(), ptr(r)));
  if let Some(n) = ebnf::RULE_NAMES.get(r.rule_index) { out.push((format!("enter {}", n), ptr(r))) }
  for c in r.children.iter() {
    match c {
      ASTContext::Rule(x) => walk_expect(x, out),
      ASTContext::Terminal(x) => { out.push(("enter terminal".into(), ptr(x))); out.push(("exit terminal".into(), ptr(x))) }
      ASTContext::Error(x) => { out.push(("enter error".into(), ptr(x))); out.push(("exit error".into(), ptr(x))) }
    }
  }
  if let Some(n) = ebnf::RULE_NAMES.get(r.rule_index) { out.push((format!("exit {}", n), ptr(r))) }
  out.push(("exit every".into(), ptr(r)));
}

fn trace_diff(got: &[Ev], want: &[Ev]) -> Option<String> {
  if got == want { return None }
  let k = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
  Some(format!("event {}: got {:?}, expected {:?} ({} and {} events)", k, got.get(k).map(|x| &x.0), want.get(k).map(|x| &x.0), got.len(), want.len()))
}

fn any_tree(cx: &mut Cx) -> RuleContext {
  let wild = cx.rng.chance(1, 2);
  if cx.idx < 3 { // very deep, and very wide
    let leaf = |i: usize| ASTContext::Terminal(TerminalContext { symbol: Token::new(2 + i % 20, "T", "x") });
    let mut r = RuleContext { rule_index: 4, rule_name: "epsilon".into(), children: (0..if cx.idx == 1 { 70_000 } else { 2 }).map(leaf).collect() };
    if cx.idx != 1 { for d in 0..2000 { r = RuleContext { rule_index: d % 10, rule_name: "d".into(), children: if cx.idx == 0 { vec![ASTContext::Rule(r)] } else { vec![leaf(d), ASTContext::Rule(r), leaf(d + 1)] } } } }
    return r;
  }
  let o = TreeOpts { max_nodes: if wild && cx.rng.chance(1, 20) { 700 } else { *cx.rng.pick(&[1usize, 5, 15, 60]) }, max_depth: if cx.rng.chance(1, 8) { 40 } else { 6 }, errors: true, rule_ids: *cx.rng.pick(&[9usize, 12]), tok_ids: 24, weird_text: false, wild };
  tree::random_tree(&mut cx.rng, &o).0
}

fn c16(cx: &mut Cx) {
  let t = any_tree(cx);
  let shown = tree::show(&t);
  cx.sample(|| json!({"tree": shown}));
  if !t.children.is_empty() { cx.nontrivial(&shown) }
  let mut want = vec![];
  walk_expect(&t, &mut want);
  cx.count("events_observed", want.len() as u64);
  let before = t.clone();
  let got = match cx.must("walking a tree", || json!(shown), || { let mut l = Rec { log: vec![] }; Walk.walk(&mut l, &t); l.log }) { Some(g) => g, None => return };
  if let Some(m) = trace_diff(&got, &want) { cx.violate("the walk's trace is not the nested traversal of the tree", json!({"tree": shown, "why": m})); return }
  let got = match cx.must("walking a tree", || json!(shown), || { let mut l = Quiet { log: vec![] }; Walk.walk(&mut l, &t); l.log }) { Some(g) => g, None => return };
  let quiet: Vec<Ev> = want.iter().filter(|e| e.0 == "enter terminal" || e.0 == "exit error").cloned().collect();
  if let Some(m) = trace_diff(&got, &quiet) { cx.violate("a listener with defaults sees the wrong leaves", json!({"tree": shown, "why": m})); return }
  if !tree::same(&before, &t) { cx.violate("walking changes the tree", json!({"tree": shown})); return }
  // a node entered or left through its typed view reaches its own callback
  let r = &t;
  let got = match cx.must("typed enter/exit", || json!(shown), || {
    let mut l = Rec { log: vec![] };
    bc::RuleListContext::enter(r, &mut l); bc::RuleListContext::exit(r, &mut l);
    bc::ParserRuleContext::enter(r, &mut l); bc::ParserRuleContext::exit(r, &mut l);
    bc::BlockContext::enter(r, &mut l); bc::BlockContext::exit(r, &mut l);
    bc::AlternativeContext::enter(r, &mut l); bc::AlternativeContext::exit(r, &mut l);
    bc::EpsilonContext::enter(r, &mut l); bc::EpsilonContext::exit(r, &mut l);
    bc::ElementContext::enter(r, &mut l); bc::ElementContext::exit(r, &mut l);
    bc::EbnfSuffixContext::enter(r, &mut l); bc::EbnfSuffixContext::exit(r, &mut l);
    bc::LexerRuleContext::enter(r, &mut l); bc::LexerRuleContext::exit(r, &mut l);
    bc::RegularContext::enter(r, &mut l); bc::RegularContext::exit(r, &mut l);
    l.log
  }) { Some(g) => g, None => return };
  let want: Vec<Ev> = ebnf::RULE_NAMES.iter().flat_map(|n| [(format!("enter {}", n), ptr(r)), (format!("exit {}", n), ptr(r))]).collect();
  if let Some(m) = trace_diff(&got, &want) { cx.violate("a typed enter or exit reaches the wrong callback", json!({"tree": shown, "why": m})) }
}

// ---------------------------------------------------------------- C17 visitor

/// Everything a visitor can decide, taken from a table so that the reference can replay it.
#[derive(Clone)]
struct Plan { skip: BTreeSet<usize>, stop_at: Option<u64>, stop_after: BTreeMap<usize, usize>, sum: bool }

macro_rules! visitor { ($modname:ident, $vis:path, $ctx:path) => {
  mod $modname {
    use super::*;
    use $vis as V;
    use $ctx as m;
    use m::*;
    pub struct Full { pub log: Vec<Ev>, pub plan: Plan, pub n: u64, pub asked: BTreeMap<usize, usize>, pub bad: Option<String> }
    impl Full {
      fn at(&mut self, name: &str, r: &RuleContext) -> Box<dyn Any> {
        self.log.push((format!("visit {}", name), ptr(r)));
        if self.plan.skip.contains(&ptr(r)) { return Box::new(1000u64) }
        self.visit_children(r)
      }
    }
    impl V for Full {
      fn visit_rule_list(&mut self, c: &dyn RuleListContext) -> Box<dyn Any> { self.at("rule_list", c.as_rule()) }
      fn visit_parser_rule(&mut self, c: &dyn ParserRuleContext) -> Box<dyn Any> { self.at("parser_rule", c.as_rule()) }
      fn visit_block(&mut self, c: &dyn BlockContext) -> Box<dyn Any> { self.at("block", c.as_rule()) }
      fn visit_alternative(&mut self, c: &dyn AlternativeContext) -> Box<dyn Any> { self.at("alternative", c.as_rule()) }
      fn visit_epsilon(&mut self, c: &dyn EpsilonContext) -> Box<dyn Any> { self.at("epsilon", c.as_rule()) }
      fn visit_element(&mut self, c: &dyn ElementContext) -> Box<dyn Any> { self.at("element", c.as_rule()) }
      fn visit_ebnf_suffix(&mut self, c: &dyn EbnfSuffixContext) -> Box<dyn Any> { self.at("ebnf_suffix", c.as_rule()) }
      fn visit_lexer_rule(&mut self, c: &dyn LexerRuleContext) -> Box<dyn Any> { self.at("lexer_rule", c.as_rule()) }
      fn visit_regular(&mut self, c: &dyn RegularContext) -> Box<dyn Any> { self.at("regular", c.as_rule()) }
      fn visit_terminal(&mut self, t: &TerminalContext) -> Box<dyn Any> { self.log.push(("visit terminal".into(), ptr(t))); Box::new(t.symbol.token_type as u64 + 1) }
      fn visit_errornode(&mut self, t: &ErrorContext) -> Box<dyn Any> { self.log.push(("visit error".into(), ptr(t))); Box::new(t.symbol.token_type as u64 + 100) }
      fn default_result(&mut self) -> Box<dyn Any> { Box::new(7u64) }
      fn aggregate_result(&mut self, a: Box<dyn Any>, b: Box<dyn Any>) -> Box<dyn Any> {
        match (a.downcast::<u64>(), b.downcast::<u64>()) {
          (Ok(a), Ok(b)) => if self.plan.sum { Box::new(a.wrapping_mul(31).wrapping_add(*b)) } else { b },
          _ => { self.bad = Some("results handed to aggregation are not the values returned".into()); Box::new(0u64) }
        }
      }
      fn should_visit_next_child(&mut self, c: &RuleContext, cur: &dyn Any) -> bool {
        self.log.push(("ask".into(), ptr(c)));
        match cur.downcast_ref::<u64>() {
          Some(x) => if self.plan.stop_at.map_or(false, |s| x % 5 == s) { return false },
          None => { if self.bad.is_none() { self.bad = Some("the current result offered before a child is not the aggregated value".into()) } }
        }
        let k = self.asked.entry(ptr(c)).or_insert(0);
        *k += 1;
        self.plan.stop_after.get(&ptr(c)).map_or(true, |n| *k <= *n)
      }
    }
    pub fn full(r: &RuleContext, plan: &Plan) -> (Vec<Ev>, Result<u64, String>) {
      let mut v = Full { log: vec![], plan: plan.clone(), n: 0, asked: BTreeMap::new(), bad: None };
      let x = v.visit(r);
      let _ = v.n;
      let res = match v.bad { Some(b) => Err(b), None => x.downcast::<u64>().map(|x| *x).map_err(|_| "the result of the visit is of a foreign type".to_string()) };
      (v.log, res)
    }
    /// only the leaves are overridden; everything else is the default behaviour
    pub struct Leaves { pub log: Vec<Ev> }
    impl V for Leaves {
      fn visit_terminal(&mut self, t: &TerminalContext) -> Box<dyn Any> { self.log.push(("visit terminal".into(), ptr(t))); Box::new(t.symbol.token_index as u64) }
      fn visit_errornode(&mut self, t: &ErrorContext) -> Box<dyn Any> { self.log.push(("visit error".into(), ptr(t))); self.default_result() }
    }
    pub fn leaves(r: &RuleContext) -> (Vec<Ev>, Box<dyn Any>) { let mut v = Leaves { log: vec![] }; let x = v.visit(r); (v.log, x) }
    pub struct Nothing;
    impl V for Nothing {}
    pub fn nothing(r: &RuleContext) -> bool { Nothing.visit(r).downcast::<()>().is_ok() }
    pub fn accept(r: &RuleContext) -> Vec<Ev> {
      struct A(Vec<Ev>);
      impl A { fn hit(&mut self, n: &str, r: &RuleContext) -> Box<dyn Any> { self.0.push((format!("visit {}", n), ptr(r))); Box::new(self.0.len()) } }
      impl V for A {
        fn visit_rule_list(&mut self, c: &dyn RuleListContext) -> Box<dyn Any> { self.hit("rule_list", c.as_rule()) }
        fn visit_parser_rule(&mut self, c: &dyn ParserRuleContext) -> Box<dyn Any> { self.hit("parser_rule", c.as_rule()) }
        fn visit_block(&mut self, c: &dyn BlockContext) -> Box<dyn Any> { self.hit("block", c.as_rule()) }
        fn visit_alternative(&mut self, c: &dyn AlternativeContext) -> Box<dyn Any> { self.hit("alternative", c.as_rule()) }
        fn visit_epsilon(&mut self, c: &dyn EpsilonContext) -> Box<dyn Any> { self.hit("epsilon", c.as_rule()) }
        fn visit_element(&mut self, c: &dyn ElementContext) -> Box<dyn Any> { self.hit("element", c.as_rule()) }
        fn visit_ebnf_suffix(&mut self, c: &dyn EbnfSuffixContext) -> Box<dyn Any> { self.hit("ebnf_suffix", c.as_rule()) }
        fn visit_lexer_rule(&mut self, c: &dyn LexerRuleContext) -> Box<dyn Any> { self.hit("lexer_rule", c.as_rule()) }
        fn visit_regular(&mut self, c: &dyn RegularContext) -> Box<dyn Any> { self.hit("regular", c.as_rule()) }
      }
      let mut a = A(vec![]);
      let rs = [RuleListContext::accept(r, &mut a), ParserRuleContext::accept(r, &mut a), BlockContext::accept(r, &mut a), AlternativeContext::accept(r, &mut a), EpsilonContext::accept(r, &mut a),
        ElementContext::accept(r, &mut a), EbnfSuffixContext::accept(r, &mut a), LexerRuleContext::accept(r, &mut a), RegularContext::accept(r, &mut a)];
      // what accept returns is what the visitor returned
      for (i, x) in rs.into_iter().enumerate() { if x.downcast::<usize>().ok().map(|x| *x) != Some(i + 1) { a.0.push(("accept drops the result".into(), 0)) } }
      a.0
    }
  }
} }
visitor!(boot_v, syntaxis::tool::syntaxis::syntaxis_visitor::SyntaxisVisitor, syntaxis::tool::syntaxis::syntaxis_context);
visitor!(v1_v, syntaxis::tool::v1::syntaxis_visitor::SyntaxisVisitor, syntaxis::tool::v1::syntaxis_context);

/// Reference traversal.
fn visit_expect(r: &RuleContext, p: &Plan, out: &mut Vec<Ev>, asked: &mut BTreeMap<usize, usize>) -> u64 {
  if let Some(n) = ebnf::RULE_NAMES.get(r.rule_index) {
    out.push((format!("visit {}", n), ptr(r)));
    if p.skip.contains(&ptr(r)) { return 1000 }
  }
  let mut res = 7u64;
  for c in r.children.iter() {
    out.push(("ask".into(), ptr(r)));
    if p.stop_at.map_or(false, |s| res % 5 == s) { break }
    let k = asked.entry(ptr(r)).or_insert(0);
    *k += 1;
    if !p.stop_after.get(&ptr(r)).map_or(true, |n| *k <= *n) { break }
    let x = match c {
      ASTContext::Rule(x) => visit_expect(x, p, out, asked),
      ASTContext::Terminal(x) => { out.push(("visit terminal".into(), ptr(x))); x.symbol.token_type as u64 + 1 }
      ASTContext::Error(x) => { out.push(("visit error".into(), ptr(x))); x.symbol.token_type as u64 + 100 }
    };
    res = if p.sum { res.wrapping_mul(31).wrapping_add(x) } else { x };
  }
  res
}

fn leaf_result(r: &RuleContext) -> Option<u64> { // default aggregation: the last child's result; None = unit
  match r.children.last() { None => None, Some(ASTContext::Rule(x)) => leaf_result(x), Some(ASTContext::Terminal(x)) => Some(x.symbol.token_index as u64), Some(ASTContext::Error(_)) => None }
}

fn c17(cx: &mut Cx) {
  let t = any_tree(cx);
  let shown = tree::show(&t);
  cx.sample(|| json!({"tree": shown}));
  if !t.children.is_empty() { cx.nontrivial(&shown) }
  let mut rules = vec![];
  tree::all_rules(&t, &mut rules);
  let ptrs: Vec<(usize, usize)> = rules.iter().map(|r| (ptr(*r), r.children.len())).collect();
  let plans: Vec<Plan> = (0..3).map(|k| {
    let mut p = Plan { skip: BTreeSet::new(), stop_at: None, stop_after: BTreeMap::new(), sum: k != 1 };
    if k == 1 { for x in &ptrs { if cx.rng.chance(1, 6) { p.skip.insert(x.0); } } }
    if k == 2 {
      for x in &ptrs { if cx.rng.chance(1, 4) { p.stop_after.insert(x.0, cx.rng.below(x.1 + 1)); } }
      if cx.rng.chance(1, 2) { p.stop_at = Some(cx.rng.below(5) as u64) }
    }
    p
  }).collect();
  let before = t.clone();
  for p in &plans {
    let mut want = vec![];
    let res = visit_expect(&t, p, &mut want, &mut BTreeMap::new());
    for who in 0..2 {
      let name = BOOT_OR_V1[who].0;
      let got = match cx.must("visiting a tree", || json!({"tree": shown, "visitor": name}), || if who == 0 { boot_v::full(&t, p) } else { v1_v::full(&t, p) }) { Some(g) => g, None => return };
      cx.count("events_observed", got.0.len() as u64);
      if p.stop_at.is_some() || !p.stop_after.is_empty() { cx.count("early_stops_planned", 1) }
      if let Some(m) = trace_diff(&got.0, &want) { cx.violate("the visit is not the depth-first traversal the visitor asked for", json!({"tree": shown, "visitor": name, "why": m, "skips": p.skip.len(), "stop_after": p.stop_after.values().collect::<Vec<_>>(), "stop_at": p.stop_at})); return }
      match got.1 {
        Err(m) => { cx.violate("results are not passed through the visit", json!({"tree": shown, "visitor": name, "why": m})); return }
        Ok(r) if r != res => { cx.violate("the visit's result is not the aggregation of its children's results", json!({"tree": shown, "visitor": name, "got": r, "expected": res, "sum": p.sum})); return }
        _ => {}
      }
    }
  }
  let mut lv: Vec<Ev> = vec![];
  fn lw(r: &RuleContext, o: &mut Vec<Ev>) { for c in r.children.iter() { match c { ASTContext::Rule(x) => lw(x, o), ASTContext::Terminal(x) => o.push(("visit terminal".into(), ptr(x))), ASTContext::Error(x) => o.push(("visit error".into(), ptr(x))) } } }
  lw(&t, &mut lv);
  let want_accept: Vec<Ev> = ebnf::RULE_NAMES.iter().map(|n| (format!("visit {}", n), ptr(&t))).collect();
  for who in 0..2 {
    let name = BOOT_OR_V1[who].0;
    let got = match cx.must("visiting with defaults", || json!({"tree": shown, "visitor": name}), || if who == 0 { (boot_v::leaves(&t), boot_v::nothing(&t), boot_v::accept(&t)) } else { (v1_v::leaves(&t), v1_v::nothing(&t), v1_v::accept(&t)) }) { Some(g) => g, None => return };
    if let Some(m) = trace_diff(&got.0.0, &lv) { cx.violate("a visitor with defaults does not see every leaf once, in order", json!({"tree": shown, "visitor": name, "why": m})); return }
    let res = got.0.1.downcast_ref::<u64>().copied();
    if res != leaf_result(&t) || (res.is_none() && got.0.1.downcast_ref::<()>().is_none()) { cx.violate("the default result of a visit is not the last child's", json!({"tree": shown, "visitor": name, "got": res, "expected": leaf_result(&t)})); return }
    if !got.1 { cx.violate("the default result of a visit is not the unit value", json!({"tree": shown, "visitor": name})); return }
    if let Some(m) = trace_diff(&got.2, &want_accept) { cx.violate("accept reaches the wrong visitor method", json!({"tree": shown, "visitor": name, "why": m})); return }
    cx.count("accepts_observed", 9);
  }
  if !tree::same(&before, &t) { cx.violate("visiting changes the tree", json!({"tree": shown})) }
}

pub fn props() -> Vec<Prop> {

  vec![
    Prop { id: "C13", level: "exploration", quick: 80000, thorough: 1000000, run: c13,
      rule: "Random histories of additions (clashing names, clashing numbers, named/unnamed, reserved symbols); after each step every query over all numbers and names is compared with a model. Non-trivial = more than two operations; distinct by history.",
      required: &["operations", "refused_operations", "states_compared"], assumptions: &["a number or name that is in use is refused and leaves no trace"] },
    Prop { id: "C14", level: "exploration", quick: 200000, thorough: 1500000, run: c14,
      rule: "Random trees serialised with random key order, white space, escapes and extra keys, plus documents damaged at the byte, shape and nesting level; read from strings, whole readers, readers with 1-byte/short/interrupted reads and readers that fail midway. Non-trivial = longer than 60 bytes; distinct by document.",
      required: &["trees_compared", "invalid_documents", "damaged_documents", "failing_readers", "reads_served"], assumptions: &["nesting the JSON reader refuses (over 128 levels) is refused, not crashed on", "a leaf without text has the text \"<no text>\", as documented by the loader"] },
    Prop { id: "C15", level: "exploration", quick: 250000, thorough: 2000000, run: c15,
      rule: "Random trees of any shape laid over a text; every navigation accessor and all 26 typed accessors of both front ends are called on every node and compared, by identity, with a naive reading of the tree. Non-trivial = more than one rule node; distinct by tree.",
      required: &["nodes_inspected", "nodes_starting_with_an_empty_rule", "typed_accessors_compared"], assumptions: &["a node whose first (last) leaf is an error leaf has no first (last) terminal"] },
    Prop { id: "C16", level: "exploration", quick: 500000, thorough: 2000000, run: c16,
      rule: "Random trees of any shape; the complete callback trace (callback and node identity) is compared with the nested traversal. Non-trivial = the root has children; distinct by tree.",
      required: &["events_observed"], assumptions: &[] },
    Prop { id: "C17", level: "exploration", quick: 400000, thorough: 2000000, run: c17,
      rule: "Random trees of any shape, visited by both front ends' visitors under random plans (subtrees skipped, traversal stopped by child count or by the aggregated value, summing or last-value aggregation); traces and results are compared with a reference traversal. Non-trivial = the root has children; distinct by tree.",
      required: &["events_observed", "early_stops_planned", "accepts_observed"], assumptions: &[] },
  ]
}
