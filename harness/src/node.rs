//! A persistent node process that opens drawn pages the way a browser would (script extraction, module
//! evaluation against a model of the document and of the chart library), plays user actions on them, and reports the
//! tree the page hands to the chart library and every node and link it puts on the screen.

use serde_json::Value;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

pub struct Node { child: Child, stdin: ChildStdin, stdout: BufReader<ChildStdout> }

impl Node {
  pub fn start() -> Node {
    let js = crate::rt::verif_dir().join("harness/js/page.js");
    let mut child = Command::new("node").arg("--experimental-vm-modules").arg("--no-warnings").arg(js)
      .stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("node");
    let stdin = child.stdin.take().unwrap();
    let stdout = BufReader::new(child.stdout.take().unwrap());
    Node { child, stdin, stdout }
  }
  pub fn open(&mut self, path: &str, plan: &Value) -> Value {
    writeln!(self.stdin, "{}", serde_json::json!({"path": path, "plan": plan})).unwrap();
    self.stdin.flush().unwrap();
    let mut l = String::new();
    self.stdout.read_line(&mut l).unwrap();
    serde_json::from_str(&l).expect("node answer")
  }
}
impl Drop for Node { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }
