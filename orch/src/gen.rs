//! Documents from a grammar (corpus/grammar.txt): most are accepted by the library.
use crate::rng::Rng;
use std::collections::HashMap;

#[derive(Debug)]
enum Piece {
    Text(String),
    Ref(usize, char), // '1' one, '?' perhaps, ',' list, '+' several
}
pub struct Grammar {
    rules: Vec<Vec<Vec<Piece>>>,
    names: HashMap<String, usize>,
}
impl Grammar {
    pub fn load(path: &str) -> Result<Grammar, String> {
        let t = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let lines: Vec<(&str, &str)> = t.lines().filter(|l| !l.starts_with('#') && !l.is_empty()).filter_map(|l| l.split_once(" = ")).collect();
        let names: HashMap<String, usize> = lines.iter().enumerate().map(|(i, l)| (l.0.to_string(), i)).collect();
        let mut rules = Vec::new();
        for (_, r) in &lines {
            let mut alts = Vec::new();
            for a in r.split('¦') {
                let a = a.trim();
                let mut ps = Vec::new();
                for (i, part) in a.split('%').enumerate() {
                    if i % 2 == 0 {
                        if !part.is_empty() {
                            ps.push(Piece::Text(part.replace("\\\\", "\u{1}").replace("\\n", "\n").replace("\\s", " ").replace('\u{1}', "\\")));
                        }
                    } else {
                        let k = part.chars().last().filter(|c| "?,+".contains(*c)).unwrap_or('1');
                        let n = part.trim_end_matches(['?', ',', '+']);
                        ps.push(Piece::Ref(*names.get(n).ok_or(format!("no rule {}", n))?, k));
                    }
                }
                alts.push(ps);
            }
            rules.push(alts);
        }
        Ok(Grammar { rules, names })
    }
    /// How often each alternative was used.
    pub fn unused(&self) -> Vec<Vec<u32>> {
        self.rules.iter().map(|a| vec![0; a.len()]).collect()
    }
    pub fn make(&self, start: &str, r: &mut Rng, size: u32, used: &mut Option<Vec<Vec<u32>>>) -> String {
        let mut out = String::new();
        let mut left = size as i64;
        self.rule(self.names[start], r, &mut out, 7, &mut left, used);
        out
    }
    fn rule(&self, i: usize, r: &mut Rng, out: &mut String, depth: u32, left: &mut i64, used: &mut Option<Vec<Vec<u32>>>) {
        *left -= 1;
        let alts = &self.rules[i];
        let mut k = if depth == 0 || *left < 0 { 0 } else { r.idx(alts.len()) };
        if let Some(used) = used.as_mut() {
            // prefer what has not been used much
            if depth > 0 && *left >= 0 {
                for _ in 0..3 {
                    let o = r.idx(alts.len());
                    if used[i][o] < used[i][k] {
                        k = o;
                    }
                }
            }
            used[i][k] += 1;
        }
        let a = &alts[k];
        for p in a {
            match p {
                Piece::Text(t) => out.push_str(t),
                Piece::Ref(j, '1') => self.rule(*j, r, out, depth.saturating_sub(1), left, used),
                Piece::Ref(j, '?') => {
                    if r.pct(35) {
                        self.rule(*j, r, out, depth.saturating_sub(1), left, used)
                    }
                }
                Piece::Ref(j, k) => {
                    let n = if depth == 0 || *left < 0 { 1 } else { *r.pick(&[1, 1, 1, 2, 2, 3]) };
                    for m in 0..n {
                        if m > 0 {
                            out.push_str(if *k == ',' { ", " } else { " " });
                        }
                        self.rule(*j, r, out, depth.saturating_sub(1), left, used);
                    }
                }
            }
        }
    }
}
