use crate::cfg::*;
use crate::ebnf::{self, Cst, V1};
use crate::lexspec::{expect_channel, v1_rules};
use crate::node::Node;
use crate::props::analysis::any_cfg;
use crate::props::lexing::TEXT;
use crate::rng::{hash_bytes, Rng};
use crate::rt::{stage_resources, Cx, Prop};
use crate::tree::{self, TreeOpts};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use syntaxis::runtime::ast::{ast_context::ASTContext, rule_context::RuleContext, terminal_context::TerminalContext};
use syntaxis::runtime::token::{Position, Token};
use syntaxis::tool::gui::ast_drawer::ASTDrawer;

// ---------------------------------------------------------------- C18: drawn pages

/// What the page must hand to the chart library.
fn page_tree(r: &RuleContext) -> Value {
  let leaf = |t: &Token| json!({"name": t.token_name, "text": t.text});
  let kids: Vec<Value> = r.children.iter().map(|c| match c { ASTContext::Rule(x) => page_tree(x), ASTContext::Terminal(x) => leaf(&x.symbol), ASTContext::Error(x) => leaf(&x.symbol) }).collect();
  json!({"name": r.rule_name, "id": r.rule_index.to_string(), "children": kids})
}

/// What the page drew (flat, in preorder, with child counts) against the tree.
fn first_diff(got: &Value, want: &Value) -> Option<String> {
  let got = match got.as_array() { Some(g) => g, None => return Some("no tree".into()) };
  let mut flat: Vec<(&Value, String)> = vec![];
  fn walk<'a>(v: &'a Value, p: String, o: &mut Vec<(&'a Value, String)>) {
    o.push((v, if p.len() > 300 { "(deep)".into() } else { p.clone() }));
    for (i, c) in v["children"].as_array().map(|a| a.as_slice()).unwrap_or(&[]).iter().enumerate() { walk(c, if p.len() > 300 { p.clone() } else { format!("{}[{}]", p, i) }, o) }
  }
  walk(want, "root".into(), &mut flat);
  for (i, (w, p)) in flat.iter().enumerate() {
    let g = match got.get(i) { Some(g) => g, None => return Some(format!("{} is missing", p)) };
    for k in ["name", "id", "text"] { if g[k] != w[k] { return Some(format!("{}.{}: {} instead of {}", p, k, g[k], w[k])) } }
    let n = w["children"].as_array().map(|a| a.len() as u64);
    if g["kids"].as_u64() != n { return Some(format!("{}: {} children instead of {:?}", p, g["kids"], n)) }
  }
  if got.len() != flat.len() { return Some(format!("{} nodes instead of {}", got.len(), flat.len())) }
  None
}

type At = Vec<usize>;
fn at_of(v: &Value) -> At { v.as_array().map(|a| a.iter().map(|x| x.as_u64().map(|n| n as usize).unwrap_or(usize::MAX)).collect()).unwrap_or_else(|| vec![usize::MAX]) }

/// What is on the screen, by the actions so far.
#[derive(Clone, Default)]
struct Screen { folded_list: BTreeSet<At>, focus: At, folded_tree: BTreeSet<At> }
impl Screen {
  fn shown(&self, nodes: &BTreeMap<At, &Value>, list: bool) -> BTreeSet<At> {
    let folded = if list { &self.folded_list } else { &self.folded_tree };
    let focus: &[usize] = if list { &[] } else { &self.focus };
    nodes.keys().filter(|p| p.starts_with(focus) && (focus.len()..p.len()).all(|n| !folded.contains(&p[..n]))).cloned().collect()
  }
}

fn index<'a>(v: &'a Value, at: At, out: &mut BTreeMap<At, &'a Value>) {
  for (i, c) in v["children"].as_array().map(|a| a.as_slice()).unwrap_or(&[]).iter().enumerate() { let mut p = at.clone(); p.push(i); index(c, p, out) }
  out.insert(at, v);
}

/// User actions on the page and the screen after each.
fn plan(cx: &mut Cx, nodes: &BTreeMap<At, &Value>) -> (Vec<Value>, Vec<Screen>) {
  let (mut acts, mut screens, mut s) = (vec![], vec![], Screen::default());
  for _ in 0..cx.rng.range(2, 7) {
    let list: Vec<At> = s.shown(nodes, true).into_iter().collect();
    let tree: Vec<At> = s.shown(nodes, false).into_iter().collect();
    // prefer nodes near the root and already folded ones
    let pick = |cx: &mut Cx, l: &[At], f: &BTreeSet<At>| if cx.rng.chance(1, 3) && !f.is_empty() { f.iter().next().filter(|x| l.contains(x)).cloned().unwrap_or_else(|| l[0].clone()) } else if cx.rng.chance(1, 2) { l[cx.rng.below(l.len().min(6))].clone() } else { l[cx.rng.below(l.len())].clone() };
    let toggle = |f: &mut BTreeSet<At>, p: &At| if !f.remove(p) { f.insert(p.clone()); };
    match cx.rng.below(7) {
      0 | 1 => { let f = s.folded_list.clone(); let p = pick(cx, &list, &f); toggle(&mut s.folded_list, &p); acts.push(json!({"host": "content", "at": p, "tag": "circle", "type": "click"})) }
      2 | 3 => { let f = s.folded_tree.clone(); let p = pick(cx, &tree, &f); toggle(&mut s.folded_tree, &p); acts.push(json!({"host": "tree", "at": p, "tag": "text", "type": "pointerdown"})) }
      4 => { let p = pick(cx, &list, &BTreeSet::new()); s.focus = p.clone(); s.folded_tree.clear(); acts.push(json!({"host": "content", "at": p, "tag": "text", "type": "click"})) }
      5 => { s.folded_tree.clear(); acts.push(json!({"press": "switch"})) }
      _ => match cx.rng.below(3) {
        0 => acts.push(json!({"press": "reset"})),
        n => { s.folded_tree.clear(); acts.push(json!({"slide": (if n == 1 { "slider" } else { "slider2" }), "value": cx.rng.range(32, 512).to_string()})) }
      },
    }
    screens.push(s.clone());
  }
  (acts, screens)
}

/// None if the drawings show exactly the nodes and links of this screen.
fn wrong_screen(cx: &mut Cx, drawings: &Value, nodes: &BTreeMap<At, &Value>, s: &Screen) -> Option<String> {
  let mut said: BTreeMap<At, BTreeSet<String>> = BTreeMap::new();
  let mut drawn_in: BTreeMap<At, usize> = BTreeMap::new();
  let all = drawings.as_array().cloned().unwrap_or_default();
  for d in &all {
    let list = match d["id"].as_str() { Some("content") => true, Some("tree") => false, _ => continue };
    let host = if list { "list" } else { "tree" };
    let want = s.shown(nodes, list);
    let mut have: BTreeMap<At, Option<(f64, f64)>> = BTreeMap::new();
    for n in d["nodes"].as_array().unwrap() {
      let at = at_of(&n["at"]);
      let v = match nodes.get(&at) { Some(v) => v, None => return Some(format!("the {} shows a node that is not in the tree", host)) };
      if have.insert(at.clone(), n["pos"][0].as_f64().zip(n["pos"][1].as_f64())).is_some() { return Some(format!("the {} shows node {:?} twice", host, at)) }
      for x in n["labels"].as_array().unwrap().iter().chain(n["titles"].as_array().unwrap()) {
        if !["name", "text", "id"].iter().any(|k| v[*k] == *x) { return Some(format!("the {} shows {} at node {:?}, which is {}", host, x, at, json!({"name": v["name"], "text": v["text"], "id": v["id"]}))) }
        said.entry(at.clone()).or_default().insert(x.as_str().unwrap_or("").to_string());
      }
      let label = if list || v["children"].is_array() { "name" } else { "text" };
      if !n["labels"].as_array().unwrap().contains(&v[label]) { return Some(format!("the {} labels node {:?} with {} instead of {}", host, at, n["labels"], v[label])) }
      *drawn_in.entry(at).or_insert(0) += 1;
    }
    if let Some(p) = want.iter().find(|p| !have.contains_key(*p)) { return Some(format!("the {} does not show node {:?}", host, p)) }
    if let Some(p) = have.keys().find(|p| !want.contains(*p)) { return Some(format!("the {} shows node {:?}, which is hidden", host, p)) }
    let mut links: Vec<(At, At)> = d["links"].as_array().unwrap().iter().map(|l| (at_of(&l[0]), at_of(&l[1]))).collect();
    links.sort();
    let root_len = if list { 0 } else { s.focus.len() };
    let mut lines: Vec<(At, At)> = want.iter().filter(|p| p.len() > root_len).map(|p| (p[..p.len() - 1].to_vec(), p.clone())).collect();
    lines.sort();
    if links != lines { return Some(format!("the {} shows {} links instead of the {} from each node to its children", host, links.len(), lines.len())) }
    // brothers stand in order
    for (p, pos) in &have {
      let (i, q) = match p.split_last() { Some((i, q)) if p.len() > root_len => (*i, q), _ => continue };
      let mut next = q.to_vec();
      next.push(i + 1);
      if let (Some(a), Some(Some(b))) = (pos, have.get(&next)) {
        cx.count("brothers_in_order", 1);
        if !(a.0 < b.0 || (a.0 == b.0 && a.1 < b.1)) { return Some(format!("the {} does not show {:?} before {:?}", host, p, next)) }
      }
    }
    cx.count("screens_compared", 1);
    cx.count("nodes_on_screen", have.len() as u64);
  }
  // whatever both drawings show, they say completely
  if all.len() == 2 {
    for (at, _) in drawn_in.iter().filter(|x| *x.1 == 2) {
      let v = nodes[at];
      for k in ["name", "text", "id"] { if let Some(x) = v[k].as_str() { if !said[at].contains(x) { return Some(format!("the page does not show the {} {:?} of node {:?}", k, x, at)) } } }
    }
  }
  None
}

/// Opens the page; None if it shows exactly this tree under this name, now and after every action.
fn wrong_page(cx: &mut Cx, path: &Path, want: &Value, name: &str) -> Option<String> {
  if cx.node.is_none() { cx.node = Some(Node::start()) }
  let mut nodes = BTreeMap::new();
  index(want, vec![], &mut nodes);
  let (acts, screens) = plan(cx, &nodes);
  let v = cx.node.as_mut().unwrap().open(path.to_str().unwrap(), &json!(acts));
  cx.count("pages_opened", 1);
  if !v["error"].is_null() { return Some(format!("the page's script fails: {}", v["error"])) }
  if v["fatal"].is_string() { return Some(format!("the page cannot be read: {}", v["fatal"])) }
  let trees = v["trees"].as_array().cloned().unwrap_or_default();
  if trees.is_empty() { return Some("the page draws no tree".into()) }
  for t in &trees { if let Some(m) = first_diff(t, want) { return Some(m) } }
  cx.count("drawn_trees_compared", trees.len() as u64);
  if v["complete"] != json!(true) { return Some("the page is cut off".into()) }
  let title = name.replace("\r\n", "\n").replace('\r', "\n");
  if v["title"] != json!(title) { return Some(format!("the title is {} instead of {:?}", v["title"], title)) }
  if let Some(m) = wrong_screen(cx, &v["drawings"], &nodes, &Screen::default()) { return Some(m) }
  for (i, (st, s)) in v["steps"].as_array().cloned().unwrap_or_default().iter().zip(screens.iter()).enumerate() {
    if st["missed"] == json!(true) { cx.count("actions_without_effect", 1); break }
    cx.count("page_actions", 1);
    if let Some(m) = wrong_screen(cx, &st["drawings"], &nodes, s) { return Some(format!("after {}: {}", json!(acts[..=i]), m)) }
  }
  None
}

#[repr(C)]
struct RLimit { cur: u64, max: u64 }
extern "C" {
  fn getrlimit(r: i32, l: *mut RLimit) -> i32;
  fn setrlimit(r: i32, l: *const RLimit) -> i32;
  fn signal(s: i32, h: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const SIGXFSZ: i32 = 25;

/// Every file this process writes is limited to `n` bytes while this lives (a full disk, from the writer's side).
struct Full(RLimit);
impl Full {
  fn new(n: u64) -> Full {
    let mut old = RLimit { cur: 0, max: 0 };
    unsafe {
      signal(SIGXFSZ, 1); // SIG_IGN: the write fails instead of ending the process
      getrlimit(RLIMIT_FSIZE, &mut old);
      setrlimit(RLIMIT_FSIZE, &RLimit { cur: n, max: old.max });
    }
    Full(old)
  }
}
impl Drop for Full { fn drop(&mut self) { unsafe { setrlimit(RLIMIT_FSIZE, &self.0); } } }

fn fixed_tree(i: u64) -> (RuleContext, String) {
  let t = |n: &str, x: &str| ASTContext::Terminal(TerminalContext { symbol: Token::new(2, n, x) });
  let mut kids = vec![];
  match i {
    0 => for w in tree::WEIRD { kids.push(t("T", w)) },
    1 => for w in tree::WEIRD { kids.push(t(w, "x")) },
    2 => for w in tree::WEIRD { kids.push(ASTContext::Rule(RuleContext { rule_index: 3, rule_name: w.to_string(), children: vec![] })) },
    3 => for a in tree::WEIRD { for b in ["\\", "$", "{", "\r", "\n", "<", "`", "\u{0}", "1", "/script>"] { kids.push(t("P", &format!("{}{}", a, b))) } },
    4 => {
      let mut r = RuleContext { rule_index: 0, rule_name: "bottom".into(), children: vec![t("T", "x")] };
      for d in 0..55 { r = RuleContext { rule_index: d, rule_name: format!("level{}", d), children: vec![ASTContext::Rule(r)] } }
      return (r, "deep".into());
    }
    7 => { // wide inner node, and something after it
      let inner = (0..5000).map(|k| t("W", &format!("w{}", k))).collect();
      kids.push(t("BEFORE", "b"));
      kids.push(ASTContext::Rule(RuleContext { rule_index: 12, rule_name: "wide".into(), children: inner }));
      kids.push(t("AFTER", "a"));
    }
    8 => {
      let mut r = RuleContext { rule_index: 0, rule_name: "bottom".into(), children: vec![t("T", "x")] };
      for d in 0..300 { r = RuleContext { rule_index: d, rule_name: format!("level{}", d), children: vec![t("L", "("), ASTContext::Rule(r), t("R", ")")] } }
      return (r, "deeper".into());
    }
    9 => kids.push(ASTContext::Terminal(TerminalContext { symbol: Token::new(2, &"n".repeat(70_000), &"x`$".repeat(30_000)) })),
    5 => for k in 0..3000 { kids.push(t("WIDE", &format!("leaf {} `${{}}`", k))) },
    _ => {}
  }
  (RuleContext { rule_index: 7, rule_name: "root".into(), children: kids }, "fixed".into())
}

fn c18(cx: &mut Cx) {
  let big = cx.rng.chance(1, 20);
  let o = TreeOpts { max_nodes: if big { 300 } else { 25 }, max_depth: if big { 12 } else { 5 }, errors: true, rule_ids: 30, tok_ids: 20, weird_text: true, wild: cx.rng.chance(1, 4) };
  let (t, _) = if cx.idx < 10 { fixed_tree(cx.idx) } else { tree::random_tree(&mut cx.rng, &o) };
  let name = if cx.rng.chance(1, 4) { "syntaxis".to_string() } else { tree::weird(&mut cx.rng).replace('\u{0}', "0") };
  let name = if cx.rng.chance(1, 12) { format!("{}{}", "long name é ".repeat(cx.rng.range(3, 200)), name) } else { name };
  let shown: String = tree::show(&t).chars().take(3000).collect();
  let w = |extra: Value| json!({"tree": shown, "name": name, "detail": extra});
  cx.sample(|| json!({"tree": shown, "name": name}));
  if !t.children.is_empty() { cx.nontrivial(&format!("{}|{}", name, tree::show(&t))) }
  let mut lv = vec![];
  tree::leaves(&t, &mut lv);
  cx.count("leaves_drawn", lv.len() as u64);
  let want = page_tree(&t);
  let d = match cx.must("making a drawer", || json!(null), ASTDrawer::new) { Some(d) => d, None => return };
  let page = cx.dir.join(*cx.rng.pick(&["page.html", "page two.html", "p"]));
  let before = cx.rng.below(3);
  match before { // nothing, a longer page, something else
    0 => { let _ = fs::remove_file(&page); }
    1 => { cx.count("overwrites", 1); fs::write(&page, format!("<html>old{}</html>", "</script>old page ".repeat(20000))).unwrap() }
    _ => { cx.count("overwrites", 1); fs::write(&page, "short").unwrap() }
  }
  let path = page.to_str().unwrap().to_string();
  if cx.must("drawing", || w(json!(null)), || d.draw(&t, &name, &path)).is_none() { return }
  if let Some(m) = wrong_page(cx, &page, &want, &name) { cx.violate("the drawn page does not show the tree", w(json!({"why": m, "existing_file": before}))); return }
  let first = fs::read(&page).unwrap();
  // another drawing with the same drawer leaves the first page alone, and drawing again gives the same page
  let o2 = TreeOpts { max_nodes: 6, max_depth: 3, errors: true, rule_ids: 5, tok_ids: 5, weird_text: true, wild: false };
  let (t2, _) = tree::random_tree(&mut cx.rng, &o2);
  let other = cx.dir.join("other.html");
  let p2 = other.to_str().unwrap().to_string();
  if cx.must("drawing again", || w(json!(null)), || { d.draw(&t2, "other", &p2) }).is_none() { return }
  if let Some(m) = wrong_page(cx, &other, &page_tree(&t2), "other") { cx.violate("a reused drawer draws the wrong page", w(json!({"why": m, "second_tree": tree::show(&t2)}))); return }
  if fs::read(&page).unwrap() != first { cx.violate("drawing one page changes another", w(json!(null))); return }
  if cx.must("drawing again", || w(json!(null)), || { d.draw(&t, &name, &p2) }).is_none() { return }
  if fs::read(&other).unwrap() != first { cx.violate("drawing the same tree again gives another page", w(json!(null))); return }
  // an old page of the very same length
  let mut old = first.clone();
  for b in old.iter_mut().filter(|b| b.is_ascii_lowercase()) { *b = b'q' }
  fs::write(&page, &old).unwrap();
  if cx.must("drawing again", || w(json!(null)), || { d.draw(&t, &name, &path) }).is_none() { return }
  cx.count("overwrites", 1);
  if fs::read(&page).unwrap() != first { cx.violate("an old page of the same length is not replaced", w(json!(null))); return }
  // the page cannot be written completely: never a silently cut-off page
  let limit = match cx.rng.below(4) { 0 => first.len() as u64 - 1, 1 => 4096, 2 => first.len() as u64, _ => cx.rng.range(1024, first.len() + 500) as u64 };
  let _ = fs::remove_file(&page);
  let r = cx.sut(|| { let _full = Full::new(limit); d.draw(&t, &name, &path) });
  cx.count("write_faults_injected", 1);
  match r {
    Err(_) => {
      cx.count("failed_writes_reported", 1);
      if limit >= first.len() as u64 { cx.violate("drawing fails although the page fits", w(json!({"limit": limit, "page_bytes": first.len()}))); return }
    }
    Ok(()) => if fs::read(&page).unwrap_or_default() != first { cx.violate("a page that could not be written completely is not reported", w(json!({"limit": limit, "page_bytes": first.len()}))); return },
  }
  // nowhere to write to
  let bad = if cx.rng.chance(1, 2) { "/dev/full".to_string() } else { cx.dir.join("no/such/dir.html").to_str().unwrap().to_string() };
  if cx.sut(|| d.draw(&t, &name, &bad)).is_ok() { cx.violate("a page that could not be written is not reported", w(json!({"to": bad}))); return }
  cx.count("failed_writes_reported", 1);
}

// ---------------------------------------------------------------- C20: textual renderings

/// What a rendering must say, in order: names exactly as they are, and marks.
#[derive(Clone, PartialEq)]
enum Part { Name(String), Mark(&'static str) }

/// Does the rendering consist of exactly these parts, with white space between two names and any white space
/// around marks?
fn says(text: &str, parts: &[Part]) -> bool {
  let mut at: BTreeSet<usize> = [0].into();
  let mut name_before = false;
  for p in parts {
    let (x, name) = match p { Part::Name(n) => (n.as_str(), true), Part::Mark(m) => (*m, false) };
    let mut next = BTreeSet::new();
    for a in at {
      let rest = &text[a..];
      let mut skipped = 0;
      loop {
        if !(name && name_before && skipped == 0) && rest[skipped..].starts_with(x) { next.insert(a + skipped + x.len()); }
        match rest[skipped..].chars().next() { Some(c) if c.is_whitespace() => skipped += c.len_utf8(), _ => break }
      }
    }
    at = next;
    if at.is_empty() { return false }
    name_before = name;
  }
  at.iter().any(|a| text[*a..].trim().is_empty())
}

fn expect_parts(r: &RuleContext, out: &mut Vec<Part>) {
  out.push(Part::Name(r.rule_name.clone()));
  out.push(Part::Mark("("));
  for c in r.children.iter() { match c { ASTContext::Rule(x) => expect_parts(x, out), ASTContext::Terminal(x) => out.push(Part::Name(x.symbol.token_name.clone())), ASTContext::Error(x) => out.push(Part::Name(x.symbol.token_name.clone())) } }
  out.push(Part::Mark(")"));
}
fn plain(parts: &[Part]) -> String { parts.iter().map(|p| match p { Part::Name(n) => n.as_str(), Part::Mark(m) => m }).collect::<Vec<_>>().join(" ") }

/// names with blanks at the ends or inside, marks of the rendering, and the like
const ODD_NAMES: &[&str] = &[" a", "a ", " a ", "a  b", "a b", "\ta", "->", "a->b", ";", "a;", "x -> y", "(", ")", "a(b)", "f()", "()", "\u{3000}", "a\u{a0}b", "", " ", "é", "漢 字", "ID", "Id", "\"", "'", "\\", "%", "{}", "{0}"];

fn c20(cx: &mut Cx) {
  // grammars
  let mut g = any_cfg(cx);
  if cx.rng.chance(1, 6) { // odd names, unique within their kind
    let mut odd = ODD_NAMES.to_vec();
    for v in g.nts.values_mut().flatten() { if cx.rng.chance(1, 2) && !odd.is_empty() { let k = cx.rng.below(odd.len()); *v = odd.swap_remove(k).to_string() } }
    let mut odd = ODD_NAMES.to_vec();
    for v in g.terms.values_mut() { if cx.rng.chance(1, 2) && !odd.is_empty() { let k = cx.rng.below(odd.len()); *v = odd.swap_remove(k).to_string() } }
    let names: BTreeSet<&String> = g.nts.values().flatten().collect();
    let terms: BTreeSet<&String> = g.terms.values().collect();
    if names.len() != g.nts.values().flatten().count() || terms.len() != g.terms.len() { return }
    cx.count("grammars_with_odd_names", 1);
  }
  if cx.rng.chance(1, 100) { // one very long production
    let n = cx.rng.range(100, 1500);
    if let Some(p) = g.prods.iter_mut().find(|p| !p.1.is_empty()) { let r = p.1.clone(); p.1 = r.iter().cycle().take(n).cloned().collect(); cx.count("long_productions_printed", 1) }
  }
  let gr = g.build(&mut cx.rng);
  let text = match cx.must("printing a grammar", || g.describe(), || gr.to_string()) { Some(t) => t, None => return };
  let want: Vec<Vec<Part>> = g.prods.iter().map(|(l, r)| {
    let mut p = vec![Part::Name(nt_name(&g, *l)), Part::Mark("->")];
    p.extend(r.iter().map(|s| Part::Name(match s { S::N(n) => nt_name(&g, *n), S::T(1) => "_STOP".into(), S::T(t) => g.terms[t].clone() })));
    p.push(Part::Mark(";"));
    p
  }).collect();
  let have: Vec<&str> = text.lines().filter(|l| !l.trim().is_empty()).collect();
  cx.count("productions_printed", want.len() as u64);
  if g.prods.len() > 2 { cx.nontrivial(&g.text()) }
  // each line is a production and each production has a line; the usual spacing is looked up first
  let usual: BTreeMap<String, usize> = want.iter().enumerate().map(|(i, p)| (p.iter().map(|x| match x { Part::Name(n) => format!(" {}", n), Part::Mark(m) => if *m == ";" { m.to_string() } else { format!(" {}", m) } }).collect::<String>()[1..].to_string(), i)).collect();
  let mut seen = vec![0usize; want.len()];
  let mut extra = vec![];
  for l in &have {
    match usual.get(*l).copied().or_else(|| (0..want.len()).find(|i| seen[*i] == 0 && says(l, &want[*i]))).or_else(|| (0..want.len()).find(|i| says(l, &want[*i]))) { Some(i) => seen[i] += 1, None => extra.push(*l) }
  }
  if !extra.is_empty() || have.len() != want.len() || (usual.len() == want.len() && seen.iter().any(|n| *n != 1)) {
    let missing: Vec<String> = (0..want.len()).filter(|i| seen[*i] == 0).take(3).map(|i| plain(&want[i])).collect();
    extra.truncate(3);
    cx.violate("a printed grammar does not list exactly its productions", json!({"grammar": g.describe(), "missing": missing, "extra": extra, "printed_lines": have.len()}));
    return;
  }
  // trees
  let large = cx.rng.chance(1, 200);
  let o = TreeOpts { max_nodes: if large { 12_000 } else { 40 }, max_depth: if large { 16 } else { 7 }, errors: true, rule_ids: 9, tok_ids: 12, weird_text: false, wild: large || cx.rng.chance(1, 3) };
  let (mut t, _) = tree::random_tree(&mut cx.rng, &o);
  if cx.idx % 4000 == 7 { for _ in 0..7 { let c = t.clone(); for k in &c.children { if t.children.len() < 40_000 { t.children.push(k.clone()) } } t.children.push(ASTContext::Rule(c)) } }
  if cx.rng.chance(1, 4) { odd_names(&mut cx.rng, &mut t) }
  let shown = tree::show(&t);
  cx.sample(|| json!({"tree": shown}));
  let mut e = vec![];
  expect_parts(&t, &mut e);
  let as_node = ASTContext::Rule(t.clone());
  for (how, s) in [("rule", cx.must("printing a tree", || json!(shown), || t.to_string())), ("node", cx.must("printing a tree", || json!(shown), || as_node.to_string()))] {
    let s = match s { Some(s) => s, None => return };
    cx.count("trees_printed", 1);
    cx.max("printed_tree_characters", s.len() as u64);
    if !says(&s, &e) { cx.violate("a printed tree does not show the tree's nodes in order", json!({"tree": shown, "as": how, "printed": s, "expected": plain(&e)})); return }
  }
  // leaves and tokens
  let mut lv = vec![];
  tree::leaves(&t, &mut lv);
  for c in all_leaves(&t) {
    let n = match c { ASTContext::Terminal(x) => x.symbol.token_name.clone(), ASTContext::Error(x) => x.symbol.token_name.clone(), _ => unreachable!() };
    let s = match cx.must("printing a leaf", || json!(shown), || c.to_string()) { Some(s) => s, None => return };
    if !says(&s, &[Part::Name(n.clone())]) { cx.violate("a printed leaf does not show its token's name", json!({"printed": s, "expected": n})); return }
  }
  for k in 0..4 {
    let far = cx.rng.chance(1, 4);
    let mut n = |b: usize| if cx.rng.chance(1, 10) { 0 } else if far && cx.rng.chance(1, 3) { (1usize << cx.rng.below(63)) + 17 * cx.rng.below(9) } else { cx.rng.below(b) };
    let tok = Token { token_type: n(100), token_name: format!("NAME{}", k), start: Position { line: n(1000), char_position: n(1000) + 1000 }, stop: Position { line: n(1000) + 2000, char_position: n(1000) + 3000 },
      channel: n(3), text: String::new(), token_index: n(1000) + 4000, char_start_index: n(1000) + 5000, char_stop_index: n(1000) + 6000 };
    // positions as they occur: the very beginning, one line, one column
    let tok = if cx.rng.chance(1, 3) { let (l, c) = (cx.rng.below(3), cx.rng.below(3)); Token { start: Position { line: l, char_position: c }, stop: Position { line: l + cx.rng.below(2), char_position: c + cx.rng.below(2) }, char_start_index: c, char_stop_index: c + cx.rng.below(2), token_index: cx.rng.below(2), ..tok } } else { tok };
    let tok = Token { text: tree::weird(&mut cx.rng), ..tok };
    let want = format!("[@{}, {}:{}='{}', <{}>, <{}>, start: <line: {}, position: {}>, stop: <line: {}, position: {}>]", tok.token_index, tok.char_start_index, tok.char_stop_index, tok.text, tok.token_name, tok.token_type,
      tok.start.line, tok.start.char_position, tok.stop.line, tok.stop.char_position);
    let s = match cx.must("printing a token", || json!(want), || (tok.to_string(), tok.start.to_string())) { Some(s) => s, None => return };
    cx.count("tokens_printed", 1);
    if s.0 != want { cx.violate("a printed token is wrong", json!({"printed": s.0, "expected": want})); return }
    if s.1 != format!("line: {}, position: {}", tok.start.line, tok.start.char_position) { cx.violate("a printed position is wrong", json!({"printed": s.1, "line": tok.start.line, "position": tok.start.char_position})); return }
    // a token made from its three parts carries them, and nothing else
    let (a, b) = (tree::weird(&mut cx.rng), tree::weird(&mut cx.rng));
    let fresh = match cx.must("making a token", || json!([a, b]), || Token::new(tok.token_type, &a, &b)) { Some(t) => t, None => return };
    let zero = Token { token_type: tok.token_type, token_name: a, text: b, start: Position { line: 0, char_position: 0 }, stop: Position { line: 0, char_position: 0 }, channel: 0, token_index: 0, char_start_index: 0, char_stop_index: 0 };
    if !tok_eq(&fresh, &zero) { cx.violate("a new token does not carry its parts", json!({"got": fresh.to_string(), "expected": zero.to_string()})); return }
  }
}

fn odd_names(rng: &mut Rng, r: &mut RuleContext) {
  if rng.chance(1, 3) { r.rule_name = rng.pick::<&str>(ODD_NAMES).to_string() }
  for c in r.children.iter_mut() {
    match c { ASTContext::Rule(x) => odd_names(rng, x), ASTContext::Terminal(TerminalContext { symbol: s }) => if rng.chance(1, 3) { s.token_name = rng.pick::<&str>(ODD_NAMES).to_string() }, ASTContext::Error(x) => if rng.chance(1, 3) { x.symbol.token_name = rng.pick::<&str>(ODD_NAMES).to_string() } }
  }
}

fn all_leaves(r: &RuleContext) -> Vec<&ASTContext> {
  r.children.iter().flat_map(|c| match c { ASTContext::Rule(x) => all_leaves(x), _ => vec![c] }).collect()
}

// ---------------------------------------------------------------- C21: the program

/// Recursive descent over the reference tokens of the program's built-in text.
struct Rd { toks: Vec<(usize, String)>, pos: usize }
impl Rd {
  fn at(&self, t: usize) -> bool { self.toks[self.pos].0 == t }
  fn leaf(&mut self, t: usize) -> Cst {
    assert!(self.at(t), "reference parser: token {} expected at {}", t, self.pos);
    let names: BTreeMap<usize, &'static str> = [(V1.rule_ref, "RULE_REF"), (V1.token_ref, "TOKEN_REF"), (V1.colon, "COLON"), (V1.semi, "SEMI"), (V1.or, "OR"), (V1.epsilon, "EPSILON"), (V1.star, "STAR"), (V1.plus, "PLUS"),
      (V1.question, "QUESTION"), (V1.lparen, "LPAREN"), (V1.rparen, "RPAREN"), (V1.string, "STRING_LITERAL"), (V1.regular, "REGULAR_LITERAL")].into_iter().collect();
    self.pos += 1;
    Cst::Leaf(t, names[&t], self.toks[self.pos - 1].1.clone())
  }
  fn rule_list(&mut self) -> Cst {
    let mut k = vec![];
    while !self.at(1) {
      k.push(if self.at(V1.rule_ref) { Cst::Node(ebnf::PARSER_RULE, vec![self.leaf(V1.rule_ref), self.leaf(V1.colon), self.block(), self.leaf(V1.semi)]) }
        else { Cst::Node(ebnf::LEXER_RULE, vec![self.leaf(V1.token_ref), self.leaf(V1.colon), Cst::Node(ebnf::REGULAR, vec![self.leaf(V1.regular)]), self.leaf(V1.semi)]) });
    }
    Cst::Node(ebnf::RULE_LIST, k)
  }
  fn block(&mut self) -> Cst {
    let mut k = vec![self.alternative()];
    while self.at(V1.or) { k.push(self.leaf(V1.or)); k.push(self.alternative()) }
    Cst::Node(ebnf::BLOCK, k)
  }
  fn alternative(&mut self) -> Cst {
    if self.at(V1.epsilon) { return Cst::Node(ebnf::ALTERNATIVE, vec![Cst::Node(ebnf::EPSILON, vec![self.leaf(V1.epsilon)])]) }
    let mut k = vec![];
    while [V1.token_ref, V1.string, V1.rule_ref, V1.lparen].iter().any(|t| self.at(*t)) { k.push(self.element()) }
    assert!(!k.is_empty(), "reference parser: element expected");
    Cst::Node(ebnf::ALTERNATIVE, k)
  }
  fn element(&mut self) -> Cst {
    let t = self.toks[self.pos].0;
    let mut k = if t == V1.lparen { vec![self.leaf(V1.lparen), self.block(), self.leaf(V1.rparen)] } else { vec![self.leaf(t)] };
    if let Some(op) = [V1.star, V1.plus, V1.question].into_iter().find(|t| self.at(*t)) {
      let mut s = vec![self.leaf(op)];
      if self.at(V1.question) { s.push(self.leaf(V1.question)) }
      k.push(Cst::Node(ebnf::EBNF_SUFFIX, s));
    }
    Cst::Node(ebnf::ELEMENT, k)
  }
}

fn snapshot(dir: &Path) -> BTreeMap<PathBuf, u64> {
  let mut m = BTreeMap::new();
  let mut st = vec![dir.to_path_buf()];
  while let Some(d) = st.pop() {
    for e in fs::read_dir(&d).unwrap() {
      let p = e.unwrap().path();
      if p.is_dir() { st.push(p.clone()); m.insert(p, 0); } else { let h = hash_bytes(&fs::read(&p).unwrap()); m.insert(p, h); }
    }
  }
  m
}

fn program() -> PathBuf {
  std::env::var("MON_PROGRAM").map(PathBuf::from).unwrap_or_else(|_| std::env::current_exe().unwrap().with_file_name("syntaxis-main"))
}

/// (success, output)
fn run_program(cx: &mut Cx, dir: &Path, limit: Option<u64>) -> Result<(bool, String), String> {
  let prog = program();
  if !prog.exists() { panic!("the program was not built: {}", prog.display()) }
  let mut c = match limit {
    None => Command::new("timeout"),
    Some(_) => Command::new("bash"),
  };
  match limit {
    None => { c.arg("120").arg(&prog); }
    Some(kb) => { c.arg("-c").arg(format!("trap '' XFSZ; ulimit -f {}; exec timeout 120 '{}'", kb, prog.display())); }
  }
  if cx.rng.chance(1, 3) { // arguments and settings that mean nothing to it
    if limit.is_none() { c.arg(*cx.rng.pick::<&str>(&["--help", "-v", "input.g4", "src/tool/syntaxis/syntaxis.g4", "", "-o", "other.html", "--", "0"])); }
    c.env(*cx.rng.pick::<&str>(&["SYNTAXIS", "DEBUG", "VERBOSE", "RUST_LOG", "OUT", "INPUT", "LANG", "COLUMNS"]), *cx.rng.pick::<&str>(&["1", "0", "", "C", "other.html", "debug"]));
    cx.count("runs_with_arguments_or_settings", 1);
  }
  cx.count("program_runs", 1);
  let o = c.current_dir(dir).stdin(Stdio::null()).output().expect("running the program");
  let text = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
  if o.status.code() == Some(124) { return Err("the program does not end within 120 s".into()) }
  Ok((o.status.success(), text))
}

fn c21(cx: &mut Cx) {
  let kind = if cx.idx < 12 { cx.idx as usize } else { cx.rng.below(12) };
  let dir = cx.dir.join(format!("run {}", cx.idx));
  fs::create_dir_all(&dir).unwrap();
  stage_resources(&dir);
  let json_file = dir.join("src/tool/syntaxis/syntaxis2.json");
  let page = dir.join("parser2.html");
  let mut limit = None;
  let mut must_fail = false;
  let mut loud = false; // fails or says something, unless the right page comes out all the same
  if cx.rng.chance(1, 2) { // files the program has nothing to do with
    for f in ["input", "input.g4", "input.txt", "grammar.g4", "syntaxis.g4", "parser.g4", "parser", "parser.html", "parser2.html.tmp", "parser2.html.bak", "ast.html", "syntaxis2.json", "syntaxis.json", "lexer.rs", "Cargo.toml", ".env", "config.json", "syntaxis.toml"] {
      if cx.rng.chance(1, 2) { fs::write(dir.join(f), *cx.rng.pick::<&str>(&["", "start: TOK; TOK: /x/;\n", "{}", "{\"rule_index\":0,\"rule_name\":\"rule_list\",\"children\":[]}", "[package]\nname = \"x\""])).unwrap() }
    }
  }
  match kind {
    0 | 1 => {}
    2 => fs::write(&page, "old page ".repeat(40000)).unwrap(),
    3 => fs::write(&page, "old").unwrap(),
    4 => { fs::remove_file(&json_file).unwrap(); must_fail = true }
    5 => { // the bundled grammar is cut off
      let b = fs::read(&json_file).unwrap();
      let n = cx.rng.below(b.iter().rposition(|c| *c == b'}').unwrap());
      fs::write(&json_file, &b[..n]).unwrap();
      must_fail = true;
    }
    6 => { fs::remove_dir_all(dir.join("src/tool/templates")).unwrap(); must_fail = true }
    9 => { // a valid tree, but of a notation in which the built-in text cannot be read
      fs::write(&json_file, "{\"rule_index\":0,\"rule_name\":\"rule_list\",\"children\":[]}").unwrap();
      loud = true;
    }
    10 => { // a rule of the notation is missing
      let mut v: Value = serde_json::from_slice(&fs::read(&json_file).unwrap()).unwrap();
      let k = v["children"].as_array_mut().unwrap();
      let rules: Vec<usize> = (1..k.len()).filter(|i| k[*i]["rule_name"] == json!("parser_rule")).collect();
      let i = *cx.rng.pick(&rules);
      k.remove(i);
      fs::write(&json_file, v.to_string()).unwrap();
      loud = true;
    }
    11 => { // an alternative of a rule is missing
      let mut v: Value = serde_json::from_slice(&fs::read(&json_file).unwrap()).unwrap();
      let k = v["children"].as_array_mut().unwrap();
      let mut blocks = vec![];
      for (i, r) in k.iter().enumerate() { for (j, b) in r["children"].as_array().into_iter().flatten().enumerate() { if b["rule_name"] == json!("block") && b["children"].as_array().map_or(0, |a| a.len()) > 2 { blocks.push((i, j)) } } }
      let (i, j) = *cx.rng.pick(&blocks);
      let a = k[i]["children"][j]["children"].as_array_mut().unwrap();
      let n = cx.rng.below((a.len() + 1) / 2);
      if n == 0 { a.drain(0..2); } else { a.drain(2 * n - 1..2 * n + 1); }
      fs::write(&json_file, v.to_string()).unwrap();
      loud = true;
    }
    7 => { limit = Some(1 + cx.rng.below(16) as u64); must_fail = true }
    _ => { fs::create_dir(&page).unwrap(); must_fail = true }
  }
    cx.nontrivial(&format!("{}|{}", kind, if kind == 5 || kind > 9 { cx.idx } else { 0 }));
  let situation = ["clean directory", "clean directory", "a longer parser2.html exists", "a shorter parser2.html exists", "the bundled grammar is missing", "the bundled grammar is cut off", "the page template is missing", "the page does not fit on the disk", "parser2.html is a directory", "the bundled grammar is of another notation", "the bundled grammar lacks a rule", "the bundled grammar lacks an alternative"][kind];
  let w = |extra: Value| json!({"situation": situation, "detail": extra});
  cx.sample(|| json!({"situation": situation}));
  let before = snapshot(&dir);
  let (ok, out) = match run_program(cx, &dir, limit) { Ok(x) => x, Err(m) => { cx.violate("the program does not end", w(json!(m))); return } };
  let after = snapshot(&dir);
  for (p, h) in before.iter() { if *p != page && after.get(p) != Some(h) { cx.violate("the program changes a file other than its page", w(json!(p.to_string_lossy()))); return } }
  for p in after.keys() { if *p != page && !before.contains_key(p) { cx.violate("the program makes a file other than its page", w(json!(p.to_string_lossy()))); return } }
  cx.count("files_watched", after.len() as u64);
  if loud && (!ok || !out.trim().is_empty()) {
    cx.count("failures_reported", 1);
  } else if must_fail {
    if ok { cx.violate("the program reports success although it could not do its work", w(json!(out))); return }
    cx.count("failures_reported", 1);
  } else {
    if !ok { cx.violate("the program fails", w(json!(out))); return }
    let (toks, _) = expect_channel(TEXT, &v1_rules(), true);
    let want = page_tree(&Rd { toks, pos: 0 }.rule_list().to_ctx());
    if let Some(m) = wrong_page(cx, &page, &want, "parser") { cx.violate("the program's page does not show the tree of its built-in grammar", w(json!(m))); return }
    let first = fs::read(&page).unwrap();
    for k in 0..3 {
      // an existing page of the very same length, and of another one
      match k { 1 => { let mut b = first.clone(); for x in b.iter_mut().skip(first.len() / 2) { *x = b'-' } fs::write(&page, b).unwrap() } 2 => fs::write(&page, &first[..first.len() / 3]).unwrap(), _ => {} }
      match run_program(cx, &dir, None) { Ok((true, _)) => {} x => { cx.violate("the program fails on a second run", w(json!(format!("{:?}", x)))); return } }
      if fs::read(&page).unwrap() != first { cx.violate("the program gives another page on another run", w(json!(null))); return }
      cx.count("identical_reruns", 1);
    }
  }
  let _ = fs::remove_dir_all(&dir);
}

pub fn props() -> Vec<Prop> {
  vec![
    Prop { id: "C18", level: "exploration", quick: 4000, thorough: 40000, run: c18,
      rule: "Random trees whose names and texts are built from characters that matter to JavaScript, HTML and the template language, deep and wide trees; each drawn page is opened (HTML script extraction, module evaluation in a JavaScript engine against a model of the document and of the chart library), every tree handed to the chart library and every node, label, link and sibling order put on the screen is compared, also after random user actions (fold, unfold, focus, switch layout, move sliders). Pages are drawn over existing files, with a reused drawer, and under injected write faults (file-size limit, full device, missing directory). Non-trivial = the root has children; distinct by tree and name.",
      required: &["pages_opened", "drawn_trees_compared", "screens_compared", "overwrites", "write_faults_injected", "failed_writes_reported"], assumptions: &["the page is read by the HTML, ECMAScript and D3 rules modelled in js/page.js; transitions are taken to have ended", "a name in the title is compared up to line-ending normalisation; NUL cannot occur in a title", "a panic is a loud report"] },
    Prop { id: "C20", level: "exploration", quick: 80000, thorough: 1500000, run: c20,
      rule: "Random grammars (unnamed rules, empty right-hand sides) printed and read back line by line; random trees printed and read back as bracketed words; tokens with distinct values in every field. Non-trivial = more than two productions; distinct by grammar.",
      required: &["productions_printed", "trees_printed", "tokens_printed"], assumptions: &["names contain no line breaks"] },
    Prop { id: "C21", level: "exploration", quick: 200, thorough: 800, run: c21,
      rule: "The program is started as a process in scratch directories: clean, with an existing longer or shorter page, with missing or cut-off resources, with a bundled grammar of another notation or lacking a rule or an alternative, with a full disk, with an unusable page path; every file of the directory is compared before and after, the page is opened, and the run repeated (fresh hash seeds). Distinct by situation.",
      required: &["program_runs", "pages_opened", "identical_reruns", "failures_reported", "files_watched"], assumptions: &["the program's built-in grammar text is the one copied into the harness"] },
  ]
}
