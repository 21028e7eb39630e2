//! Make a failing run as small as it will go while it still fails in the same way.
use crate::pool::Runner;
use serde_json::{json, Value};
use std::time::{Duration, Instant};

pub struct Min<'a> {
    pub r: &'a mut Runner,
    pub target: u8,
    pub class: String,
    pub best: Value,
    pub last: Value,
    pub tries: u64,
    pub until: Instant,
    pub max: u64,
}

impl<'a> Min<'a> {
    pub fn new(r: &'a mut Runner, target: u8, plan: &Value, verdict: &Value, secs: u64, max: u64) -> Min<'a> {
        Min {
            r,
            target,
            class: verdict["v"]["class"].as_str().unwrap_or("").to_string(),
            best: plan.clone(),
            last: verdict.clone(),
            tries: 0,
            until: Instant::now() + Duration::from_secs(secs),
            max,
        }
    }
    fn over(&self) -> bool {
        self.tries >= self.max || Instant::now() >= self.until
    }
    fn attempt(&mut self, p: Value) -> bool {
        if self.over() || p == self.best {
            return false;
        }
        self.tries += 1;
        let v = self.r.run(self.target, &p);
        if v["v"]["class"].as_str() == Some(self.class.as_str()) {
            self.best = p;
            self.last = v;
            return true;
        }
        false
    }
    fn drop_op(p: &Value, t: usize, o: usize) -> Value {
        let mut q = p.clone();
        q["threads"][t].as_array_mut().unwrap().remove(o);
        let fs: Vec<Value> = q["faults"]
            .as_array()
            .cloned()
            .unwrap_or_default()
            .into_iter()
            .filter(|f| !(f["t"] == json!(t) && f["o"] == json!(o)))
            .map(|mut f| {
                if f["t"] == json!(t) && f["o"].as_u64().unwrap_or(0) > o as u64 {
                    f["o"] = json!(f["o"].as_u64().unwrap() - 1);
                }
                f
            })
            .collect();
        q["faults"] = json!(fs);
        q
    }
    fn drop_thread(p: &Value, t: usize) -> Value {
        let mut q = p.clone();
        q["threads"].as_array_mut().unwrap().remove(t);
        let fs: Vec<Value> = q["faults"]
            .as_array()
            .cloned()
            .unwrap_or_default()
            .into_iter()
            .filter(|f| f["t"] != json!(t))
            .map(|mut f| {
                if f["t"].as_u64().unwrap_or(0) > t as u64 {
                    f["t"] = json!(f["t"].as_u64().unwrap() - 1);
                }
                f
            })
            .collect();
        q["faults"] = json!(fs);
        q
    }
    fn prune_docs(&mut self) {
        // forget documents no call uses (no effect on the run)
        let p = &self.best;
        let mut used: Vec<usize> = Vec::new();
        let mut note = |d: u64| {
            if !used.contains(&(d as usize)) {
                used.push(d as usize);
            }
        };
        for t in p["threads"].as_array().unwrap() {
            for o in t.as_array().unwrap() {
                note(o[1].as_u64().unwrap());
            }
        }
        for o in p["warm"].as_array().unwrap_or(&vec![]) {
            note(o[1].as_u64().unwrap());
        }
        for f in p["faults"].as_array().unwrap_or(&vec![]) {
            if f.get("d").is_some() {
                note(f["d"].as_u64().unwrap());
            }
        }
        used.sort();
        let map = |d: &Value| json!(used.iter().position(|x| *x as u64 == d.as_u64().unwrap()).unwrap());
        let mut q = p.clone();
        q["docs"] = json!(used.iter().map(|&i| p["docs"][i].clone()).collect::<Vec<_>>());
        for t in q["threads"].as_array_mut().unwrap() {
            for o in t.as_array_mut().unwrap() {
                o[1] = map(&o[1]);
            }
        }
        if let Some(w) = q["warm"].as_array_mut() {
            for o in w {
                o[1] = map(&o[1]);
            }
        }
        if let Some(w) = q["faults"].as_array_mut() {
            for f in w {
                if f.get("d").is_some() {
                    f["d"] = map(&f["d"]);
                }
            }
        }
        self.attempt(q);
    }
    fn shrink_list(&mut self, key: &str) {
        let mut size = self.best[key].as_array().map_or(0, |a| a.len());
        while size >= 1 {
            let mut i = 0;
            while i < self.best[key].as_array().map_or(0, |a| a.len()) {
                let mut q = self.best.clone();
                let a = q[key].as_array_mut().unwrap();
                let e = (i + size).min(a.len());
                a.drain(i..e);
                if !self.attempt(q) {
                    i += size;
                }
                if self.over() {
                    return;
                }
            }
            size /= 2;
        }
    }
    fn shrink_switches(&mut self) {
        let mut size = self.best["sched"]["explicit"].as_array().map_or(0, |a| a.len());
        while size >= 1 {
            let mut i = 0;
            while i < self.best["sched"]["explicit"].as_array().map_or(0, |a| a.len()) {
                let mut q = self.best.clone();
                let a = q["sched"]["explicit"].as_array_mut().unwrap();
                let e = (i + size).min(a.len());
                a.drain(i..e);
                if !self.attempt(q) {
                    i += size;
                }
                if self.over() {
                    return;
                }
            }
            size /= 2;
        }
    }
    fn shrink_doc(&mut self, d: usize) {
        let chars: Vec<char> = self.best["docs"][d].as_str().unwrap().chars().collect();
        let mut size = chars.len().div_ceil(2);
        while size >= 1 {
            let mut i = 0;
            loop {
                let cur: Vec<char> = self.best["docs"][d].as_str().unwrap().chars().collect();
                if i >= cur.len() {
                    break;
                }
                let e = (i + size).min(cur.len());
                let s: String = cur[..i].iter().chain(cur[e..].iter()).collect();
                let mut q = self.best.clone();
                q["docs"][d] = json!(s);
                if !self.attempt(q) {
                    i += size;
                }
                if self.over() {
                    return;
                }
            }
            size /= 2;
        }
    }
    fn structure(&mut self) {
        let mut t = 0;
        while self.best["threads"].as_array().unwrap().len() > 1 && t < self.best["threads"].as_array().unwrap().len() {
            let q = Self::drop_thread(&self.best, t);
            if !self.attempt(q) {
                t += 1;
            }
        }
        self.shrink_list("warm");
        // ops, from the end
        let nt = self.best["threads"].as_array().unwrap().len();
        for t in 0..nt {
            // long histories: whole stretches first
            let mut size = self.best["threads"][t].as_array().unwrap().len() / 2;
            while size >= 2 {
                let mut i = 0;
                while i < self.best["threads"][t].as_array().unwrap().len() {
                    let n = self.best["threads"][t].as_array().unwrap().len();
                    let e = (i + size).min(n);
                    if e - i == n {
                        break;
                    }
                    let mut q = self.best.clone();
                    for o in (i..e).rev() {
                        q = Self::drop_op(&q, t, o);
                    }
                    if !self.attempt(q) {
                        i += size;
                    }
                }
                size /= 2;
            }
            let mut o = self.best["threads"][t].as_array().unwrap().len();
            while o > 0 {
                o -= 1;
                if self.best["threads"][t].as_array().unwrap().len() < 2 {
                    break;
                }
                let q = Self::drop_op(&self.best, t, o);
                self.attempt(q);
            }
        }
        for t in 0..nt {
            for o in 0..self.best["threads"][t].as_array().unwrap().len() {
                while let Some(n) = self.best["threads"][t][o][2].as_u64().filter(|n| *n > 1) {
                    let mut q = self.best.clone();
                    q["threads"][t][o][2] = json!(n / 2);
                    let mut w = self.best.clone();
                    w["threads"][t][o][2] = json!(n - 1);
                    if !self.attempt(q) && !(n < 40 && self.attempt(w)) {
                        break;
                    }
                }
            }
        }
        self.shrink_list("faults");
        for k in ["hash", "place", "clock", "getenv", "stack"] {
            if self.best["env"].get(k).is_some() {
                let mut q = self.best.clone();
                q["env"].as_object_mut().unwrap().remove(k);
                self.attempt(q);
            }
        }
        if self.best.get("no_resume").is_some() {
            let mut q = self.best.clone();
            q.as_object_mut().unwrap().remove("no_resume");
            self.attempt(q);
        }
    }
    pub fn go(&mut self) {
        for _ in 0..3 {
            let before = self.best.to_string().len();
            self.structure();
            self.prune_docs();
            if self.best["threads"].as_array().unwrap().len() > 1 && self.best["sched"].get("explicit").is_none() {
                if let Some(sw) = self.last.get("switches").filter(|s| s.as_array().is_some_and(|a| a.len() < 50_000)) {
                    let mut q = self.best.clone();
                    let first = self.last["stats"]["first"].as_u64();
                    let sw = sw.clone();
                    let cands: Vec<u64> = match first {
                        Some(f) => vec![f],
                        None => (0..q["threads"].as_array().unwrap().len() as u64).collect(),
                    };
                    for f in cands {
                        q["sched"] = json!({"explicit": sw, "first": f});
                        if self.attempt(q.clone()) {
                            break;
                        }
                    }
                }
            }
            if self.best["sched"].get("explicit").is_some() {
                self.shrink_switches();
            }
            let nd = self.best["docs"].as_array().unwrap().len();
            // positions counted in steps move with the documents, so documents come last
            for d in 0..nd {
                self.shrink_doc(d);
            }
            self.prune_docs();
            if self.over() || self.best.to_string().len() == before {
                break;
            }
        }
    }
}
