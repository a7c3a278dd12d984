//! Hand-written recognisers for the lexical rules of the grammar notation, independent of the regular
//! expressions of the code under test, the maximal-munch oracle, and the token-stream monitor.

use crate::rng::Rng;
use crate::rt::Cx;
use serde_json::json;
use syntaxis::runtime::lexer::Lexer;
use syntaxis::runtime::token::Token;

pub type Matcher = Box<dyn Fn(&str) -> Option<usize>>;

pub struct LexRule { pub name: String, pub token_type: usize, pub skip: bool, pub m: Matcher }

/// (length, rule index) of the winning rule: longest match, earliest rule.
pub fn munch(rules: &[LexRule], s: &str) -> Option<(usize, usize)> {
  let mut best: Option<(usize, usize)> = None;
  for (i, r) in rules.iter().enumerate() {
    if let Some(n) = (r.m)(s) {
      if n > 0 && best.map_or(true, |b| n > b.0) { best = Some((n, i)) }
    }
  }
  best
}

fn ident(s: &str, upper: bool) -> Option<usize> {
  let b = s.as_bytes();
  let ok = b.first().map_or(false, |c| if upper { c.is_ascii_uppercase() } else { c.is_ascii_lowercase() });
  if !ok { return None }
  let n = b.iter().skip(1).take_while(|c| c.is_ascii_alphanumeric() || **c == b'_').count();
  if n == 0 { None } else { Some(n + 1) }
}

fn lit(s: &str, opts: &[&str]) -> Option<usize> { opts.iter().find(|o| s.starts_with(**o)).map(|o| o.len()) }

fn run(s: &str, set: &[char]) -> Option<usize> {
  let n: usize = s.chars().take_while(|c| set.contains(c)).map(|c| c.len_utf8()).sum();
  if n == 0 { None } else { Some(n) }
}

pub fn string_literal(s: &str) -> Option<usize> {
  if !s.starts_with('\'') { return None }
  let cs: Vec<(usize, char)> = s.char_indices().collect();
  if cs.first()?.1 != '\'' { return None }
  let mut i = 1;
  loop {
    let (off, c) = *cs.get(i)?;
    match c {
      '\'' => return Some(off + 1),
      '\\' => {
        let d = cs.get(i + 1)?.1;
        match d {
          '\\' | '\'' | 'a' | 'd' | 'n' | 'r' | 't' | 'f' | 'v' => i += 2,
          'u' => {
            if cs.get(i + 2)?.1 != '{' { return None }
            let mut j = i + 3;
            if cs.get(j)?.1 == '0' && cs.get(j + 1)?.1 == 'x' { j += 2 }
            let from = j;
            while cs.get(j)?.1.is_ascii_digit() || ('a'..='f').contains(&cs.get(j)?.1) { j += 1 }
            if j == from || cs.get(j)?.1 != '}' { return None }
            i = j + 1;
          }
          _ => return None,
        }
      }
      '\u{7}' | '\n' | '\r' | '\t' | '\u{c}' | '\u{b}' => return None,
      _ => i += 1,
    }
  }
}

pub fn regular_literal(s: &str) -> Option<usize> {
  let b = s.as_bytes();
  if b.first() != Some(&b'/') || b.len() < 3 || b[1] == b'/' { return None }
  let mut last = None;
  for k in 2..b.len() {
    if b[k] == b'/' {
      if b[k - 1] != b'\\' { return Some(k + 1) }
      last = Some(k + 1);
    }
  }
  last
}

fn rule(name: &str, token_type: usize, skip: bool, f: impl Fn(&str) -> Option<usize> + 'static) -> LexRule {
  LexRule { name: name.into(), token_type, skip, m: Box::new(f) }
}

/// The self-hosted notation: types 2..=15 in declaration order.
pub fn v1_rules() -> Vec<LexRule> {
  vec![
    rule("RULE_REF", 2, false, |s| ident(s, false)),
    rule("TOKEN_REF", 3, false, |s| ident(s, true)),
    rule("COLON", 4, false, |s| lit(s, &["::=", ":=", "->", "=>", ":", "="])),
    rule("SEMI", 5, false, |s| lit(s, &[";"])),
    rule("OR", 6, false, |s| lit(s, &["|"])),
    rule("EPSILON", 7, false, |s| lit(s, &["ε", "epsilon"])),
    rule("STAR", 8, false, |s| lit(s, &["*"])),
    rule("PLUS", 9, false, |s| lit(s, &["+"])),
    rule("QUESTION", 10, false, |s| lit(s, &["?"])),
    rule("LPAREN", 11, false, |s| lit(s, &["("])),
    rule("RPAREN", 12, false, |s| lit(s, &[")"])),
    rule("STRING_LITERAL", 13, false, string_literal),
    rule("REGULAR_LITERAL", 14, false, regular_literal),
    rule("WHITE_SPACE", 15, true, |s| run(s, &[' ', '\r', '\n', '\t', '\u{c}'])),
  ]
}

/// The bootstrap notation (hand-written lexer): types 2..=22.
pub fn boot_rules() -> Vec<LexRule> {
  vec![
    rule("LINE_COMMENT", 2, true, |s| if s.starts_with("//") { s.find('\n').map(|p| p + 1) } else { None }),
    rule("BLOCK_COMMENT", 3, true, |s| if s.starts_with("/*") { s[2..].find("*/").map(|p| p + 4) } else { None }),
    rule("WS", 4, true, |s| run(s, &[' ', '\r', '\n', '\t'])),
    rule("FRAGMENT", 5, false, |s| lit(s, &["fragment"])),
    rule("TOKEN_REF", 6, false, |s| ident(s, true)),
    rule("RULE_REF", 7, false, |s| ident(s, false)),
    rule("COLON", 8, false, |s| lit(s, &["::=", ":=", "->", "=>", ":", "="])),
    rule("OR", 9, false, |s| lit(s, &["|"])),
    rule("SEMI", 10, false, |s| lit(s, &[";"])),
    rule("STAR", 11, false, |s| lit(s, &["*"])),
    rule("PLUS", 12, false, |s| lit(s, &["+"])),
    rule("QUESTION", 13, false, |s| lit(s, &["?"])),
    rule("DOT", 14, false, |s| lit(s, &["."])),
    rule("NOT", 15, false, |s| lit(s, &["~"])),
    rule("LPAREN", 16, false, |s| lit(s, &["("])),
    rule("RPAREN", 17, false, |s| lit(s, &[")"])),
    rule("POUND", 18, false, |s| lit(s, &["#"])),
    rule("STRING_LITERAL", 19, false, string_literal),
    rule("RANGE", 20, false, |s| lit(s, &[".."])),
    rule("REGULAR_LITERAL", 21, false, regular_literal),
    rule("EPSILON", 22, false, |s| lit(s, &["ε", "epsilon"])),
  ]
}

/// Hostile inputs near the notation.
pub fn notation_text(rng: &mut Rng, max: usize) -> String {
  const FRAG: &[&str] = &[
    "rule_list", "aa", "a", "a1", "zZ_9", "Token", "AB", "A", "T_0", "epsilon", "epsilonx", "Epsilon", "ε", "εε", "fragment", "fragmentation",
    "fragmen", ":", "::=", ":=", "->", "=>", "=", "::", ":::=", "-", ">", "=>=", ";", "|", "*", "+", "?", "??", "*?", "(", ")", ".", "..", "...", "~", "#",
    "'abc'", "''", "'a b'", "'\\n'", "'\\''", "'\\\\'", "'\\u{41}'", "'\\u{0x1f}'", "'\\u{AB}'", "'\\u{0xFf}'", "'\\u{0Xff}'", "'\\u{00}'", "'\\u{12g}'", "'\\u41'", "'\\x41'", "'\\A'", "'\\b'", "'\\e'", "'\\\"'", "'\\u{0}'", "'\\u{00000000000000000000041}'", "'\\u{0xffffffffffffffffff}'", "'\\u{}'", "'\\u{0x10ffff}\\u{1f600}'", "'\\u{0x}'", "'\\u{G}'", "'\\q'", "'\\d9'", "'5'", "'٣'", "'é漢'", "'open", "'nl\n'", "'tab\t'", "'\u{b}'",
    "/[a-z]+/", "/a\\/b/", "/a\\/", "/\\//", "//", "///", "/x", "/é+/", "/a\nb/", "/\\\\/", "/\\\\\\//", "/ /", "// comment\n", "// c /x/ \r\n", "// no newline", "//\n",
    "/* c */", "/**/", "/* a / b */", "/* l1\n l2 \n*/", "/* open", "/*/", "/***/", "/* ε */",
    " ", "  ", "\n", "\r\n", "\t", "\u{c}", "\u{b}", "\r", "\n\r", "\r\r", " \n\t\r", "\n\r\n \r", "\n\t", "\n\u{c}", "/* \n\r*/", "/x\n\r/", "\n\n\n", " \n \n ", "\u{3000}", "\u{a0}", "漢", "🦀", "é", "\u{0}", "\"x\"", "@", "$", "{", "}", "\\", "`", "&", "9", "0x", "_", "_START", "_STOP", "%",
  ];
  let n = rng.below(max + 1);
  let mut s = String::new();
  let clean = rng.chance(1, 2); // mostly lexable inputs reach further
  for _ in 0..n {
    let f: String = match rng.below(14) {
      3 => rng.pick::<&str>(&["epsilon", "epsilon", "ε", "ε", "fragment", "aa", "BB", "=>", "=", ":", ":=", "::=", "->", ".", "..", "//", "/*", "*/", "/", "'", "''", "?", "*"]).to_string(), // where rules compete
      2 => { // something delimited with any characters in it
        const C: &[char] = &['a', 'Z', '0', '_', ' ', '.', '"', '`', '$', '{', '}', '#', '%', '-', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', 'é', '\u{301}', 'İ', 'ß', 'ε', '\u{3a9}', '\u{2028}', '\u{2029}', '\u{200b}', '\u{200d}', '\u{feff}', '\u{fffd}', '漢', '\u{ac00}', '\u{e000}', '\u{ffff}', '🦀', '\u{10ffff}', '\u{660}', '\u{1}', '\u{0}', '\u{1b}', '\u{1c}', '\u{b}', '\u{c}', '\n', '\r', '\t', '/', '*', '\'', '\\'];
        let nasty = rng.chance(1, 4);
        let n = if rng.chance(1, 10) { 60 } else { 6 };
        let m: String = (0..rng.range(1, n)).map(|_| *rng.pick(if nasty { C } else { &C[..C.len() - 10] })).collect();
        match rng.below(5) { 0 | 1 => format!("'{}'", m), 2 => format!("/{}/", m), 3 => format!("/*{}*/", m), _ => format!("//{}\n", m) }
      }
      0 => (0..rng.range(1, 6)).map(|_| *rng.pick(&['a', 'b', 'Z', '0', '_', ' ', '\n', '/', '\\', '\'', '*', 'ε', '漢', ':', '=', '.'])).collect(),
      1 => { let l = if rng.chance(1, 15) { rng.range(41, 1200) } else { rng.range(1, 40) }; (0..l).map(|_| *rng.pick(&['a', 'x', 'Q', '7', '_'])).collect() }
      _ => rng.pick(FRAG).to_string(),
    };
    let f = if rng.chance(1, 60) { f.repeat(rng.range(2, 400)) } else if rng.chance(1, 400) { f.repeat(rng.range(2000, 9000)) } else { f };
    if clean && munch(&boot_rules_cached(), &f).map_or(true, |m| m.0 != f.len()) && !rng.chance(1, 20) { continue }
    s.push_str(&f);
    if rng.chance(1, 3) { s.push_str(rng.pick::<&str>(&[" ", "\n", "\r\n", "\t", "\n  ", "\n\r", "\r"])) }
  }
  s
}

thread_local! { static BOOT: std::rc::Rc<Vec<LexRule>> = std::rc::Rc::new(boot_rules()); }
fn boot_rules_cached() -> std::rc::Rc<Vec<LexRule>> { BOOT.with(|b| b.clone()) }

pub fn line_col(input: &str, off: usize) -> (usize, usize) {
  let pre = &input.as_bytes()[..off];
  let line = pre.iter().filter(|b| **b == b'\n').count();
  let col = match pre.iter().rposition(|b| *b == b'\n') { Some(p) => off - p - 1, None => off };
  (line, col)
}

/// What scanning one token after another gave.
pub struct ScanLog { pub toks: Vec<Token>, pub stop: Option<Token>, pub extra_ok_after_end: bool, pub bounded: bool }

/// Drive scan() to its end (and a little beyond); the bound makes a lexer that never ends visible.
pub fn drive(lexer: &mut dyn Lexer, len: usize, has_stop: bool) -> ScanLog {
  let mut log = ScanLog { toks: vec![], stop: None, extra_ok_after_end: false, bounded: true };
  for _ in 0..len + 3 {
    match lexer.scan() {
      Ok(t) => {
        if has_stop && t.token_type == 1 { log.stop = Some(t); break }
        log.toks.push(t);
      }
      Err(_) => break,
    }
  }
  if log.toks.len() > len + 1 { log.bounded = false; return log }
  for _ in 0..3 { if lexer.scan().is_ok() { log.extra_ok_after_end = true } }
  log
}

/// Tiling / position monitor. Gives a complaint, if any.
pub fn check_tiling(input: &str, log: &ScanLog, has_stop: bool) -> Option<String> {
  if !log.bounded { return Some("more tokens than input bytes: the scan does not make progress".into()) }
  let mut off = 0;
  let mut at = (0usize, 0usize);
  for (i, t) in log.toks.iter().enumerate() {
    if t.char_start_index != off { return Some(format!("token {} starts at {} but the previous one ended at {}", t, t.char_start_index, off)) }
    if t.char_stop_index <= t.char_start_index { return Some(format!("empty or inverted token {}", t)) }
    match input.get(t.char_start_index..t.char_stop_index) {
      Some(x) if x == t.text => {}
      other => return Some(format!("token {} has text {:?}, the input slice is {:?}", t, t.text, other)),
    }
    if t.token_index != i { return Some(format!("token number {} carries sequence number {}", i, t.token_index)) }
    let (l, c) = at;
    if (t.start.line, t.start.char_position) != (l, c) { return Some(format!("token {}: start position should be {}:{}", t, l, c)) }
    at = line_col(&t.text, t.text.len());
    if at.0 == 0 { at.1 += c }
    at.0 += l;
    let (l, c) = at;
    if (t.stop.line, t.stop.char_position) != (l, c) { return Some(format!("token {}: stop position should be {}:{}", t, l, c)) }
    off = t.char_stop_index;
  }
  if has_stop {
    if off == input.len() && log.stop.is_none() { return Some("the whole input was consumed but there is no end marker".into()) }
    if let Some(s) = &log.stop {
      if off != input.len() { return Some(format!("end marker after {} of {} bytes", off, input.len())) }
      if s.char_start_index != input.len() || s.char_stop_index != input.len() { return Some(format!("end marker is at {}..{}, the input ends at {}", s.char_start_index, s.char_stop_index, input.len())) }
      let (l, c) = line_col(input, input.len());
      if (s.start.line, s.start.char_position, s.stop.line, s.stop.char_position) != (l, c, l, c) { return Some(format!("end marker {} should be at {}:{}", s, l, c)) }
      if s.token_index != log.toks.len() { return Some(format!("end marker has sequence number {}, expected {}", s.token_index, log.toks.len())) }
      if s.token_name != "_STOP" { return Some(format!("end marker is called {}", s.token_name)) }
    }
  }
  if log.extra_ok_after_end { return Some("scan succeeds again after it had ended".into()) }
  None
}

/// Classification monitor: the token sequence is the maximal-munch sequence of the rules.
pub fn check_classes(input: &str, rules: &[LexRule], log: &ScanLog) -> Option<String> {
  let mut off = 0;
  for t in &log.toks {
    match munch(rules, &input[off..]) {
      None => return Some(format!("token {} but no rule matches at {}", t, off)),
      Some((n, r)) => {
        let r = &rules[r];
        if t.text.len() != n || t.token_type != r.token_type || t.token_name != r.name {
          return Some(format!("at {}: got {} {:?} (type {}), expected {} {:?} (type {})", off, t.token_name, t.text, t.token_type, r.name, &input[off..off + n], r.token_type));
        }
        if t.channel != 0 { return Some(format!("token {} on channel {}", t, t.channel)) }
        off += n;
      }
    }
  }
  if off < input.len() {
    if let Some((n, r)) = munch(rules, &input[off..]) {
      return Some(format!("scan gave up at {} where rule {} matches {:?}", off, rules[r].name, &input[off..off + n]));
    }
  }
  None
}

/// Expected result of collecting a channel: indices into the munch sequence, end marker included.
pub fn expect_channel(input: &str, rules: &[LexRule], has_stop: bool) -> (Vec<(usize, String)>, usize) {
  let mut off = 0;
  let mut out = vec![];
  while off < input.len() {
    match munch(rules, &input[off..]) {
      None => return (out, off),
      Some((n, r)) => {
        if !rules[r].skip { out.push((rules[r].token_type, input[off..off + n].to_string())) }
        off += n;
      }
    }
  }
  if has_stop { out.push((1, "_STOP".into())) }
  (out, off)
}

/// A lexer whose public progress fields can be read: (cursor, line, column, tokens so far).
pub trait Probe: Lexer { fn state(&self) -> (usize, usize, usize, usize); }

/// A failing scan leaves the lexer as it was: drive to the failure, then fail again and collect.
pub fn check_failure(cx: &mut Cx, which: &str, input: &str, log: &ScanLog, mut mk: impl FnMut(&str) -> Box<dyn Probe>) {
  let consumed: usize = log.toks.last().map_or(0, |t| t.char_stop_index);
  if consumed >= input.len() { return }
  cx.printed();
  let n = log.toks.len();
  let r = cx.sut(|| {
    let mut lx = mk(input);
    for _ in 0..n { let _ = lx.scan(); }
    let a = lx.state();
    let failed = (0..2).all(|_| lx.scan().is_err());
    let b = lx.state();
    let got = lx.scan_all_on_channel_tokens(0);
    (a, b, failed, got.len())
  });
  let said = cx.printed();
  cx.count("failed_scans_repeated", 2);
  match r {
    Err(m) => cx.violate(&format!("{}: collecting after a failed scan panics", which), json!({"panic": m, "input": input})),
    Ok((a, b, failed, got)) => {
      let (l, c) = line_col(input, consumed);
      let want = (consumed, l, c, n);
      if !failed || a != want || b != want {
        cx.violate(&format!("{}: a failing scan consumes something", which), json!({"input": input, "cursor_line_column_index_before": a, "after": b, "expected": want}));
      } else if got > 0 || !said.contains(&input[consumed..]) {
        cx.violate(&format!("{}: the rest is lost after a failing scan", which), json!({"input": input, "rest": &input[consumed..], "printed": said, "collected": got}));
      }
    }
  }
}

/// Two lexers on different texts, scanned in turns: each gives what it gives alone.
fn in_turns(cx: &mut Cx, input: &str, log: &ScanLog, mk: &mut impl FnMut(&str) -> Box<dyn Lexer>) -> Option<String> {
  let cuts: Vec<usize> = input.char_indices().map(|c| c.0).chain([input.len()]).collect();
  let (a, b) = (*cx.rng.pick(&cuts), *cx.rng.pick(&cuts));
  let other = format!("{}{}", &input[a..], input[..b].chars().take(100).collect::<String>());
  let mut rng = cx.rng.clone();
  let n = log.toks.len() + log.stop.iter().count();
  let r = cx.sut(|| {
    let mut two = mk(&other);
    let mut want = vec![];
    while want.len() < n + 50 { match two.scan() { Ok(t) => want.push(t), Err(_) => break } }
    let mut lx = [mk(input), mk(&other)];
    let (mut have, mut left) = ([vec![], vec![]], [n + 1, want.len() + 1]);
    while left[0] + left[1] > 0 {
      let k = if left[0] == 0 { 1 } else if left[1] == 0 { 0 } else { rng.below(2) };
      left[k] -= 1;
      if let Ok(t) = lx[k].scan() { if left[k] > 0 || k == 0 { have[k].push(t) } }
    }
    (want, have)
  });
  cx.count("lexers_run_in_turns", 2);
  let (want, have) = match r { Ok(r) => r, Err(m) => return Some(format!("panic: {}", m)) };
  let one: Vec<Token> = log.toks.iter().chain(&log.stop).cloned().collect();
  for (w, h, text) in [(&one, &have[0], input), (&want, &have[1], &other[..])] {
    if w.len() != h.len() || w.iter().zip(h).any(|(x, y)| !crate::cfg::tok_eq(x, y)) {
      return Some(format!("on {:?}: alone {:?}, in turns {:?}", text, w.iter().map(|t| t.to_string()).collect::<Vec<_>>(), h.iter().map(|t| t.to_string()).collect::<Vec<_>>()));
    }
  }
  None
}

pub fn monitor_lexer(cx: &mut Cx, which: &str, input: &str, rules: &[LexRule], has_stop: bool, tiling: bool, classes: bool, mut mk: impl FnMut(&str) -> Box<dyn Lexer>) -> Option<ScanLog> {
  let mut lx = match cx.sut(|| mk(input)) { Ok(l) => l, Err(m) => { cx.violate(&format!("{}: constructor panics", which), json!({"panic": m, "input": input})); return None } };
  let log = match cx.sut(|| drive(&mut *lx, input.len(), has_stop)) {
    Ok(l) => l,
    Err(m) => { cx.violate(&format!("{}: scan panics", which), json!({"panic": m, "input": input})); return None }
  };
  cx.count("tokens_observed", log.toks.len() as u64);
  if log.stop.is_some() { cx.count("end_markers_observed", 1) }
  let consumed: usize = log.toks.last().map_or(0, |t| t.char_stop_index);
  if consumed < input.len() { cx.count("lexing_failures_observed", 1) }
  if tiling {
    if let Some(m) = check_tiling(input, &log, has_stop) { cx.violate(&format!("{}: token stream does not tile the input", which), json!({"input": input, "why": m})); return None }
  }
  if tiling && log.toks.len() < 2000 && cx.rng.chance(1, 5) {
    if let Some(m) = in_turns(cx, input, &log, &mut mk) { cx.violate(&format!("{}: two lexers disturb each other", which), json!({"input": input, "why": m})); return None }
  }
  if classes {
    if let Some(m) = check_classes(input, rules, &log) { cx.violate(&format!("{}: wrong token", which), json!({"input": input, "why": m})); return None }
    // channel collection, from the start and after a partial scan
    let (exp, stop_off) = expect_channel(input, rules, has_stop);
    let pre = if cx.rng.chance(1, 3) && !log.toks.is_empty() { cx.rng.below(log.toks.len() + 1) } else { 0 };
    for ch in [0usize, *cx.rng.pick(&[1usize, 2, 15]), *cx.rng.pick(&[7usize, 256, 65536, 1 << 32, usize::MAX, usize::MAX - 1])] {
      cx.printed();
      let mut lx = mk(input);
      let got = match cx.sut(|| { for _ in 0..pre { let _ = lx.scan(); } let a = lx.scan_all_on_channel_tokens(ch); let b = lx.scan_all_on_channel_tokens(ch); (a, b) }) {
        Ok(g) => g,
        Err(m) => { cx.violate(&format!("{}: collecting a channel panics", which), json!({"panic": m, "input": input, "channel": ch})); return None }
      };
      let said = cx.printed();
      let want: Vec<(usize, String)> = if ch == 0 {
        let skipped = log.toks[..pre.min(log.toks.len())].iter().filter(|t| rules.iter().any(|r| r.token_type == t.token_type && !r.skip)).count();
        exp[skipped..].to_vec()
      } else { vec![] };
      let have: Vec<(usize, String)> = got.0.iter().map(|t| (t.token_type, t.text.clone())).collect();
      cx.count("channel_collections", 1);
      if have != want {
        cx.violate(&format!("{}: collected tokens of a channel are wrong", which), json!({"input": input, "channel": ch, "scanned_before": pre, "got": have, "expected": want}));
        return None;
      }
      if !got.1.is_empty() { cx.violate(&format!("{}: a second collection returns tokens again", which), json!({"input": input, "channel": ch})); return None }
      if stop_off < input.len() && !said.contains(&input[stop_off..]) && !String::from_utf8_lossy(input[stop_off..].as_bytes()).is_empty() {
        cx.violate(&format!("{}: unlexable rest is not reported", which), json!({"input": input, "rest": &input[stop_off..], "printed": said}));
        return None;
      }
      if ch == 0 && pre == 0 {
        // positions of the collected tokens must be those of the single scans
        let singles: Vec<&Token> = log.toks.iter().filter(|t| rules.iter().any(|r| r.token_type == t.token_type && !r.skip)).collect();
        for (a, b) in got.0.iter().zip(singles.iter()) {
          if !crate::cfg::tok_eq(a, b) { cx.violate(&format!("{}: collected token differs from the scanned one", which), json!({"input": input, "collected": a.to_string(), "scanned": b.to_string()})); return None }
        }
      }
    }
  }
  Some(log)
}
