//! Worker processes: the native one (real threads under the simulator) and the WebAssembly one.
use crate::plans::{NAT, WASM};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::Duration;

#[derive(Clone)]
pub struct Paths {
    pub nat: Option<String>,
    pub node: String,
    pub pkg: Option<String>,
}

pub struct Worker {
    ch: Child,
    sin: ChildStdin,
    rx: Receiver<String>,
    used: u64,
}

impl Worker {
    fn start(p: &Paths, t: u8) -> Worker {
        let mut c = if t == NAT {
            Command::new(p.nat.as_ref().unwrap())
        } else {
            let mut c = Command::new("node");
            c.arg("--max-old-space-size=3000").arg(&p.node).arg(p.pkg.as_ref().unwrap());
            c
        };
        let mut ch = c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start a worker");
        let sin = ch.stdin.take().unwrap();
        let out = ch.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(out);
            loop {
                let mut l = String::new();
                match r.read_line(&mut l) {
                    Ok(n) if n > 0 => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    _ => break,
                }
            }
        });
        Worker { ch, sin, rx, used: 0 }
    }
    fn ask(&mut self, plan: &str, limit: Duration) -> Result<Value, &'static str> {
        self.used += 1;
        if self.sin.write_all(plan.as_bytes()).and_then(|_| self.sin.write_all(b"\n")).and_then(|_| self.sin.flush()).is_err() {
            return Err("died");
        }
        match self.rx.recv_timeout(limit) {
            Ok(l) => serde_json::from_str(&l).map_err(|_| "died"),
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => Err("hang"),
            Err(_) => Err("died"),
        }
    }
}
impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}

pub struct Runner {
    p: Paths,
    nat: Option<Worker>,
    wasm: Option<Worker>,
    /// a run that takes longer than this will not come back
    pub limit: Duration,
}
impl Runner {
    pub fn new(p: &Paths) -> Runner {
        Runner { p: p.clone(), nat: None, wasm: None, limit: Duration::from_secs(200) }
    }
    pub fn fresh(&mut self) {
        self.nat = None;
        self.wasm = None;
    }
    fn one(&mut self, t: u8, plan: &str) -> Value {
        let mut why = "died";
        for _ in 0..2 {
            let p = self.p.clone();
            let slot = if t == NAT { &mut self.nat } else { &mut self.wasm };
            if slot.as_ref().is_some_and(|w| w.used > 20_000) {
                *slot = None;
            }
            let w = slot.get_or_insert_with(|| Worker::start(&p, t));
            match w.ask(plan, self.limit) {
                Ok(v) => return v,
                Err(e) => {
                    why = e;
                    *slot = None;
                    if e == "hang" {
                        break;
                    }
                }
            }
        }
        json!({"v": {"class": why, "detail": format!("the simulated host {} on this run", if why == "hang" { "got no answer" } else { "went down twice" }), "t": 0, "o": 0}, "stats": {}})
    }
    pub fn run(&mut self, target: u8, plan: &Value) -> Value {
        if target != NAT | WASM {
            return self.one(target, &plan.to_string());
        }
        // both builds of the same source on the same documents
        let s = plan.to_string();
        let a = self.one(NAT, &s);
        let b = self.one(WASM, &s);
        for v in [&a, &b] {
            if v.get("v").is_some() || v.get("harness").is_some() {
                return v.clone();
            }
        }
        let (ha, hb) = (a["hashes"].as_array().cloned().unwrap_or_default(), b["hashes"].as_array().cloned().unwrap_or_default());
        let mut st = a["stats"].clone();
        st["fired"] = json!({"other_build": ha.len()});
        for (o, (x, y)) in ha.iter().zip(hb.iter()).enumerate() {
            // a call that fails to return at all is the business of another property
            if x.is_null() || y.is_null() || x[0] == "aborted" || y[0] == "aborted" {
                continue;
            }
            if y[1] == "too-deep-to-compare" {
                continue;
            }
            if x[0] != y[0] || x[1] != y[1] {
                let op = &plan["threads"][0][o];
                let d = plan["docs"][op[1].as_u64().unwrap_or(0) as usize].as_str().unwrap_or("");
                return json!({"v": {"class": "builds-differ", "detail": format!("{}({:?}): the 64-bit build gives {} {}, the WebAssembly build {} {}", if op[0] == 0 { "parse" } else { "tokenize" }, d.chars().take(200).collect::<String>(), x[0].as_str().unwrap_or(""), x[2].as_str().unwrap_or(""), y[0].as_str().unwrap_or(""), y[2].as_str().unwrap_or("")), "t": 0, "o": o}, "stats": st});
            }
        }
        json!({"stats": st})
    }
}
