//! The documents clients send: whole ones, ones that arrive torn or corrupted, and families of
//! documents that differ only a little (for histories in which one could be taken for another).
use crate::gen::Grammar;
use crate::rng::Rng;
use std::collections::{BTreeMap, BTreeSet};

pub struct Corpus {
    pub docs: Vec<String>,
    pub words: Vec<String>,
    pub symbols: Vec<String>,
    /// a few documents that between them use most of the language
    pub tour: Vec<String>,
    /// documents many runs share, so that what each of them gets alone is known
    pub pool: Vec<String>,
    /// documents in which much of the language meets in a small space: what one call left behind
    /// shows in the next
    pub omni: Vec<String>,
    g: Grammar,
}

pub fn lex(s: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let mut cur = String::new();
    let kind = |c: char| {
        if c.is_alphanumeric() || c == '_' {
            1
        } else if c.is_whitespace() {
            2
        } else {
            0
        }
    };
    let mut k = 9;
    for c in s.chars() {
        let n = kind(c);
        if n != k || n == 0 {
            if !cur.is_empty() {
                out.push(std::mem::take(&mut cur));
            }
            k = n;
        }
        cur.push(c);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

type Nest = (&'static str, &'static str, &'static str, &'static [(&'static str, &'static str, i64)]);
#[rustfmt::skip]
static N_EXPR: &[(&str, &str, i64)] = &[("(", ")", 1), ("f(", ")", 1), ("[", "]", 1), ("CASE WHEN a THEN ", " END", 1), ("CASE ", " WHEN 1 THEN 2 END", 1), ("CASE a WHEN 1 THEN 2 ELSE ", " END", 1), ("STRUCT(", ")", 1), ("CAST(", " AS INT64)", 1), ("EXISTS(SELECT ", ")", 3), ("ARRAY(SELECT ", ")", 3), ("(SELECT ", ")", 2), ("a IN (", ")", 2), ("NOT ", "", 1), ("- ", "", 1), ("~ ", "", 1), ("a[OFFSET(", ")]", 2), ("IF(a, ", ", b)", 1), ("f(a ORDER BY ", ")", 1), ("SUM(a) OVER (PARTITION BY ", ")", 2), ("a BETWEEN 1 AND ", "", 1), ("a.b(", ").c", 1), ("INTERVAL ", " DAY", 1), ("ARRAY<INT64>[", "]", 1), ("STRUCT<a INT64>(", ")", 1), ("(a, ", ")", 1), ("EXTRACT(DAY FROM ", ")", 1), ("a IN UNNEST(", ")", 3), ("f(DISTINCT ", ")", 1), ("f(x => ", ")", 3), ("a IS NOT DISTINCT FROM ", "", 1), ("a NOT LIKE ", "", 1), ("a + ", "", 1), ("a OR ", "", 1), ("WITH(a AS ", ", a)", 2)];
#[rustfmt::skip]
static N_TYPE: &[(&str, &str, i64)] = &[("ARRAY<", ">", 1), ("STRUCT<", ">", 1), ("STRUCT<x ", ">", 1), ("STRUCT<a INT64, b ", ">", 1), ("ARRAY<STRUCT<x ", ">>", 1)];
#[rustfmt::skip]
static N_STMT: &[(&str, &str, i64)] = &[("BEGIN ", "END; ", 1), ("IF a THEN ", "END IF; ", 1), ("IF a THEN SELECT 1; ELSEIF b THEN ", "END IF; ", 1), ("IF a THEN SELECT 1; ELSE ", "END IF; ", 1), ("LOOP ", "END LOOP; ", 1), ("WHILE a DO ", "END WHILE; ", 1), ("REPEAT ", "UNTIL a END REPEAT; ", 1), ("FOR x IN (SELECT 1) DO ", "END FOR; ", 1), ("CASE a WHEN 1 THEN ", "END CASE; ", 1), ("CASE WHEN a THEN ", "END CASE; ", 1), ("CREATE PROCEDURE p() BEGIN ", "END; ", 1), ("l: BEGIN ", "END l; ", 1), ("BEGIN SELECT 1; EXCEPTION WHEN ERROR THEN ", "END; ", 1)];
#[rustfmt::skip]
static N_QUERY: &[(&str, &str, i64)] = &[("(", ")", 1), ("WITH a AS (", ") SELECT 1", 1), ("SELECT 1 UNION ALL (", ")", 1), ("(", ") UNION ALL SELECT 1", 1), ("SELECT * FROM a WHERE x IN (", ")", 2), ("SELECT * FROM (", ")", 2), ("FROM (", ") |> WHERE a", 1), ("SELECT * FROM a JOIN (", ") USING (x)", 2), ("FROM t |> JOIN (", ") USING (x)", 2), ("SELECT * FROM f((", "))", 3), ("SELECT * FROM f(TABLE a, (", "))", 3), ("SELECT AS STRUCT (", ")", 2), ("SELECT ARRAY(", ")", 3), ("SELECT * FROM UNNEST(ARRAY(", "))", 4)];
#[rustfmt::skip]
static N_TABLE: &[(&str, &str, i64)] = &[("(", ")", 1), ("((", " JOIN b ON c) JOIN d ON e)", 1), ("(a JOIN (", ") ON c)", 2), ("(a, ", ")", 1)];
#[rustfmt::skip]
static N_PATTERN: &[(&str, &str, i64)] = &[("(", ")", 1), ("(", ")*", 1), ("(a|", ")", 1), ("(a ", "){1,2}?", 1)];
#[rustfmt::skip]
static NESTS: &[Nest] = &[("SELECT ", "1", ";", N_EXPR), ("SELECT ", "1", ";", N_EXPR), ("SELECT CAST(a AS ", "INT64", ");", N_TYPE), ("", "SELECT 1; ", "", N_STMT), ("", "SELECT 1; ", "", N_STMT), ("", "SELECT 1", ";", N_QUERY), ("SELECT * FROM ", "t", ";", N_TABLE), ("SELECT * FROM t MATCH_RECOGNIZE(ORDER BY a MEASURES b AS c PATTERN (", "x", ") DEFINE x AS a);", N_PATTERN)];

#[rustfmt::skip]
static CHAINS: &[(&str, &str, &str)] = &[("SELECT 1", " + 1", ";"), ("SELECT a", ".a", ";"), ("SELECT 1", ", 'x'", ";"), ("", "SELECT 1;\n", ""), ("SELECT 1 ", "/* c */ -- d\n", ";"), ("FROM t ", "|> WHERE a = 1 ", ";"), ("SELECT a", "[0]", ";"), ("SELECT a", " OR b", ";"), ("SELECT a", " || b AND c", ";"), ("SELECT * FROM a", " JOIN b ON c", ";"), ("SELECT * FROM a", " JOIN b USING (c)", ";"), ("SELECT * FROM a", ", b AS c", ";"), ("SELECT 1", " UNION ALL SELECT 1", ";"), ("WITH a AS (SELECT 1)", ", b AS (SELECT 2)", " SELECT 3;"), ("SELECT CASE", " WHEN a THEN b", " END;"), ("IF a THEN SELECT 1;", " ELSEIF b THEN SELECT 2;", " END IF;"), ("CASE a", " WHEN 1 THEN SELECT 1;", " END CASE;"), ("MERGE t USING s ON a", " WHEN MATCHED THEN DELETE", ";"), ("CREATE TABLE t (a INT64", ", b STRING NOT NULL", ");"), ("ALTER TABLE t ADD COLUMN a INT64", ", ADD COLUMN b STRING", ";"), ("INSERT t (a) VALUES (1)", ", (2)", ";"), ("UPDATE t SET a = 1", ", b = 2", " WHERE c;"), ("DECLARE a", ", b", " INT64;"), ("SELECT f(a", ", b => c", ");"), ("SELECT a", " COLLATE 'x'", ";"), ("SELECT CAST(a AS STRUCT<x INT64", ", y STRING", ">);"), ("SELECT * FROM t MATCH_RECOGNIZE(ORDER BY a MEASURES b AS c PATTERN (x", " y*", ") DEFINE x AS a);"), ("SELECT * FROM t MATCH_RECOGNIZE(ORDER BY a MEASURES b AS c PATTERN (x", "|y", ") DEFINE x AS a);"), ("SELECT * FROM t WINDOW a AS (b)", ", c AS (a)", ";"), ("SELECT", "\n -- c\n", " 1;"), ("", "-- c\n", ""), ("", "/* c */ ", ""), ("", ";", ""), ("SELECT a", " IS NOT NULL", ";"), ("SELECT 'a'", " 'b'", ";"), ("GRANT `a` ON TABLE b TO 'c'", ", 'd'", ";"), ("SELECT * EXCEPT (a", ", b", ") FROM t;"), ("SELECT a.*", " REPLACE (1 AS b)", " FROM t;"), ("SELECT", "\n", " 1;"), ("{{ a", "}} {{ b", " }}")];

impl Corpus {
    pub fn load(path: &str, seed: u64) -> Result<Corpus, String> {
        let g = Grammar::load(&path.replace("seed.json", "grammar.txt"))?;
        let t = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
        let docs: Vec<String> = serde_json::from_str(&t).map_err(|e| e.to_string())?;
        let mut w: BTreeMap<String, usize> = BTreeMap::new();
        let mut sym: BTreeSet<String> = BTreeSet::new();
        let mut feats: Vec<BTreeSet<String>> = Vec::new();
        for d in &docs {
            let mut f = BTreeSet::new();
            for t in lex(d) {
                let c = t.chars().next().unwrap();
                if c.is_whitespace() {
                    continue;
                }
                f.insert(t.to_uppercase());
                if c.is_alphanumeric() || c == '_' {
                    *w.entry(t).or_insert(0) += 1;
                } else {
                    sym.insert(t);
                }
            }
            feats.push(f);
        }
        for s in ["||", "|>", "<<", ">>", "<=", ">=", "<>", "!=", "=>", "--", "/*", "*/", "'''", "\"\"\"", "@@", "${", "{{", "}}", "{%", "%}", "\\", "r'", "b\"", "rb'", "0x", "1e", ".5", "1.", "$$", "\u{3000}", "é", "#"] {
            sym.insert(s.to_string());
        }
        let mut need: BTreeSet<String> = feats.iter().flatten().cloned().collect();
        let mut tour = Vec::new();
        while tour.len() < 24 {
            let mut best = (0usize, 0f64);
            for (i, f) in feats.iter().enumerate() {
                let g = f.iter().filter(|x| need.contains(*x)).count() as f64 / (30 + docs[i].len()) as f64;
                if g > best.1 {
                    best = (i, g);
                }
            }
            if best.1 == 0.0 {
                break;
            }
            for x in &feats[best.0] {
                need.remove(x);
            }
            tour.push(docs[best.0].clone());
        }
        for s in ["SELECT (1", "SELECT 'open", "CREATE", "SELECT 0x1F, 1.5e3, .5, 'é', b'x', r\"y\", DATE '2000-01-01'; -- c\n#d\n/* e */ SELECT ARRAY<STRUCT<a INT64>>[(1)]", "INVALID ;", "SELECT a NOT b", "`open", "/* open"] {
            tour.push(s.to_string());
        }
        let mut c = Corpus { docs, words: w.into_keys().collect(), symbols: sym.into_iter().collect(), tour, pool: vec![], omni: vec![], g };
        let r = &mut Rng::keyed(seed, "pool", 0);
        let mut pool = Vec::new();
        pool.extend(c.docs.iter().filter(|d| d.len() < 600).cloned());
        let mut used = Some(c.g.unused());
        while pool.len() < 1200 {
            let n = r.log(6, 70) as u32;
            let d = c.g.make("doc", r, n, &mut used);
            if d.len() < 600 {
                pool.push(d);
            }
        }
        while pool.len() < 2400 {
            let d = match r.below(10) {
                0 | 1 => c.made(r),
                // torn off after some token or inside one
                2..=6 => {
                    let d = c.plain(r);
                    let t = lex(&d);
                    t[..r.idx(t.len() + 1)].concat()
                }
                7 => c.unusual(r),
                _ => c.torn(r),
            };
            if d.len() < 600 {
                pool.push(d);
            }
        }
        c.pool = pool;
        let small: Vec<&String> = c.docs.iter().filter(|d| d.len() < 200 && d.trim_end().ends_with(';')).collect();
        for i in 0..12 {
            let mut s = String::from(["SELECT a >= 1, b || c;\n", "SELECT a >> 1, b >= 2, c <> 3, x || y, -1 -- c\n;\n", "-- a\n/* b */ SELECT 'x', .5, r\"y\", `z` >> 1; # c\n", "SELECT (1) >= 3, [2], ARRAY<INT64>[3], a => 4;"][i % 4]);
            for _ in 0..r.range(2, 7) {
                s.push_str(r.pick(&small).trim());
                s.push('\n');
            }
            c.omni.push(s);
        }
        Ok(c)
    }
    pub fn plain(&self, r: &mut Rng) -> String {
        let d = if r.pct(45) { self.made(r) } else { r.pick(&self.docs).clone() };
        if r.pct(15) {
            return self.renamed(&d, r);
        }
        if r.pct(5) {
            return self.dress(&d, r);
        }
        d
    }
    /// A document of the grammar.
    pub fn made(&self, r: &mut Rng) -> String {
        let n = r.log(6, 70) as u32;
        self.g.make("doc", r, n, &mut None)
    }
    /// A name, of the kinds people use.
    pub fn name(&self, r: &mut Rng) -> String {
        match r.below(8) {
            0..=2 => {
                let n = r.range(1, 9);
                (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
            }
            3 => {
                let n = r.range(1, 6);
                format!("_{}", (0..n).map(|_| (b'A' + r.below(26) as u8) as char).collect::<String>())
            }
            4 => format!("{}{}", r.pick(&["col", "c", "t", "x", "Field_", "v"]), r.below(10_000)),
            5 => format!("{}_{}", r.pick(&self.words), r.pick(&["id", "at", "a", "1"])).trim_start_matches(|c: char| c.is_ascii_digit()).to_string(),
            6 => {
                let mut w = r.pick(&self.words).clone();
                w.push((b'a' + r.below(26) as u8) as char);
                w.trim_start_matches(|c: char| c.is_ascii_digit()).to_string()
            }
            _ => {
                let n = r.range(2, 4);
                (0..n).map(|_| *r.pick(&["user", "order", "item", "total", "price", "date", "key", "sum", "ship", "name"])).collect::<Vec<_>>().join("_")
            }
        }
    }
    /// A document of many different words, literals and comments.
    pub fn wordy(&self, r: &mut Rng, max: u64) -> String {
        let n = r.log(max / 20, max);
        let p = *r.pick(&[0u64, 5, 40]);
        let nl = *r.pick(&[0u64, 10, 100]);
        let mut s = String::from("SELECT ");
        for _ in 0..n {
            if r.pct(p) {
                match r.below(6) {
                    0 => s.push_str(&format!("'{}'", self.name(r))),
                    1 => s.push_str(&format!("{}", r.log(1, 1 << 40))),
                    2 => s.push_str(&format!("{}.{}e{}", r.below(100), r.below(100_000), r.below(40))),
                    3 => s.push_str(&format!("`{}.{}`", self.name(r), self.name(r))),
                    4 => s.push_str(&format!("{}.{}", self.name(r), self.name(r))),
                    _ => s.push_str(&format!("{}(@{})", self.name(r), self.name(r))),
                }
            } else {
                s.push_str(&self.name(r));
            }
            s.push_str(", ");
            if r.pct(nl) {
                s.push_str(*r.pick(&["\n", "\n", "-- c\n"]));
            }
        }
        s + "1 FROM t;"
    }
    /// `n` words of one kind that no other part of this flood holds.
    pub fn flood(&self, kind: u64, from: u64, n: u64) -> String {
        let mut s = String::from("SELECT ");
        for i in from..from + n {
            match kind {
                0 => s.push_str(&format!("w{},", i)),
                1 => s.push_str(&format!("'{:x}',", i)),
                2 => s.push_str(&format!("{},", i)),
                3 => s.push_str(&format!("@p{},", i)),
                4 => s.push_str(&format!("`t{}`,", i)),
                _ => s.push_str(&format!("a,/*{}*/", i)),
            }
        }
        s + "1"
    }
    /// The same statement about other things.
    fn renamed(&self, d: &str, r: &mut Rng) -> String {
        let mut t = lex(d);
        for x in t.iter_mut() {
            if x.chars().all(|c| c.is_ascii_lowercase() || c == '_' || c.is_ascii_digit()) && x.chars().any(|c| c.is_ascii_lowercase()) && r.pct(60) {
                *x = self.name(r);
            }
        }
        t.concat()
    }
    pub fn pooled(&self, r: &mut Rng) -> String {
        let d = r.pick(&self.pool).clone();
        if r.pct(4) {
            return self.dress(&d, r);
        }
        d
    }
    /// a statement of the corpus without its last semicolon
    fn bare(&self, r: &mut Rng) -> String {
        self.plain(r).trim().trim_end_matches(';').to_string()
    }

    /// An ordinary document.
    pub fn doc(&self, r: &mut Rng) -> String {
        match r.below(20) {
            0..=9 => self.plain(r),
            10..=12 => {
                let n = r.range(2, 4);
                let mut s = String::new();
                for _ in 0..n {
                    s.push_str(&self.bare(r));
                    s.push_str(*r.pick(&[";\n", "; ", ";", ";\n\n", "; -- c\n"]));
                }
                s
            }
            13 => self.sized(r, 2_000),
            14 => self.deep(r, 30),
            15 => self.chain(r, 60),
            16 => self.unusual(r),
            _ => {
                let d = self.plain(r);
                self.mutate(&d, r, 1)
            }
        }
    }
    /// A small document, for runs in which the number of calls matters.
    pub fn small(&self, r: &mut Rng) -> String {
        for _ in 0..20 {
            let d = self.plain(r);
            if d.len() < 60 {
                return d;
            }
        }
        "SELECT 1".into()
    }
    pub fn sized(&self, r: &mut Rng, n: usize) -> String {
        let n = r.log(n as u64 / 4, n as u64) as usize;
        let mut s = String::new();
        while s.len() < n {
            s.push_str(&self.bare(r));
            s.push_str(";\n");
        }
        s
    }
    /// Nested: one construct in itself, or two or three of a kind in one another. A level weighs
    /// what it takes of the stack (a bracketed expression is 1), and `max` bounds the sum.
    pub fn deep(&self, r: &mut Rng, max: u64) -> String {
        let (head, core, tail, all) = *r.pick(NESTS);
        let few = r.range(1, 3);
        let kinds: Vec<_> = (0..few).map(|_| *r.pick(all)).collect();
        let mut left = r.range(2, max) as i64;
        // few levels below FROM: more take exponential time when damaged (see known_findings.txt)
        let mut from = 5;
        let (mut o, mut c) = (String::from(head), Vec::new());
        let mut turn = 0;
        while left > 0 {
            let (open, close, w) = if r.pct(80) { kinds[turn % kinds.len()] } else { *r.pick(&kinds) };
            turn += 1;
            left -= w;
            if open.contains("FROM (") || head.ends_with("FROM ") || open.contains("JOIN (") {
                from -= 1;
                if from < 0 {
                    break;
                }
            }
            o.push_str(open);
            c.push(close);
        }
        o.push_str(core);
        c.iter().rev().for_each(|x| o.push_str(x));
        o + tail
    }
    pub fn chain(&self, r: &mut Rng, max: u64) -> String {
        let k = r.log(2, max) as usize;
        let (head, link, tail) = *r.pick(CHAINS);
        format!("{}{}{}", head, link.repeat(k), tail)
    }
    /// More of one thing than sixteen bits count, or `n` of it.
    pub fn huge(&self, kind: u64, n: usize, r: &mut Rng) -> String {
        let d = r.pick(&self.omni);
        match kind {
            0 => "\n".repeat(n) + d,
            1 => " ".repeat(n) + d,
            2 => format!("SELECT {}1; {}", "1,".repeat(n), d),
            3 => "x;".repeat(n) + d,
            4 => "--\n".repeat(n) + d,
            5 => format!("SELECT '{}', 1; {}", "x".repeat(n), d),
            6 => format!("SELECT {} {}", "n".repeat(n), d),
            7 => format!("SELECT `{}` {}", "n".repeat(n), d),
            8 => format!("SELECT 1 /*{}*/ + {}", "c".repeat(n), d),
            9 => format!("-- {}\n{}", "c".repeat(n), d),
            10 => format!("SELECT f(a{}); {}", ", b => 1".repeat(n / 5), d),
            11 => format!("SELECT {}; {}", "1".repeat(n), d),
            12 => format!("SELECT {{{{{}}}}}; {}", "v".repeat(n), d),
            _ => format!("SELECT \"\"\"{}\"\"\"; {}", "é\n".repeat(n), d),
        }
    }
    /// Long in one dimension: lines, columns, tokens of a statement, statements or comments.
    pub fn long(&self, r: &mut Rng, max: usize) -> String {
        let n = r.log(max as u64 / 4, max as u64) as usize;
        let d = self.plain(r);
        match r.below(8) {
            0 => "\n".repeat(n) + &d,
            1 => " ".repeat(n) + &d,
            2 => format!("SELECT {}1;", "1,\n".repeat(n / 3)),
            3 => format!("SELECT {}1;", "1,".repeat(n / 2)),
            4 => "SELECT 1;\n".repeat(n / 10),
            5 => "-- c\n".repeat(n / 5) + &d,
            6 => format!("SELECT '{}'; {}", "x".repeat(n), d),
            _ => format!("{} /*{}*/", d, "\n".repeat(n)),
        }
    }
    pub fn unusual(&self, r: &mut Rng) -> String {
        match r.below(14) {
            12 | 13 => {
                // one symbol again and again, closed, half closed or not at all
                let x = r.pick(&self.symbols).clone().repeat(r.range(2, 7) as usize);
                let e = match r.below(4) {
                    0 => String::new(),
                    1 => x.clone(),
                    2 => x.replace('{', "}").replace('(', ")").replace('[', "]").replace('<', ">"),
                    _ => x.chars().skip(1).collect::<String>().replace('{', "}").replace('(', ")").replace('[', "]").replace('<', ">"),
                };
                format!("{}{}{}{}{}", r.pick(&["", "SELECT ", "SELECT a ", "FROM t "]), x, r.pick(&["", " ", "a", "1", " x "]), e, r.pick(&["", ";", " FROM t;", " "]))
            }
            0 => String::new(),
            1 => r.pick(&[" ", "\n", "\t\r\n", ";", ";;", "\u{feff}SELECT 1", "\0", "\u{3000}"]).to_string(),
            2 => r.pick(&self.words).clone(),
            3 => format!("{} {}", r.pick(&self.words), r.pick(&self.words)),
            4 => r.pick(&self.symbols).clone(),
            5 => format!("{}{}", r.pick(&self.symbols), r.pick(&self.symbols)),
            6 => format!("{} {}", r.pick(&self.words), r.pick(&self.symbols)),
            7 => format!("SELECT '{}';", "あ🙂é".repeat(r.range(1, 20) as usize)),
            8 => format!("SELECT `{}`;", "x".repeat(r.log(1, 3000) as usize)),
            9 => format!("-- {}\nSELECT 1;", "c".repeat(r.log(1, 3000) as usize)),
            10 => {
                let n = r.range(1, 8);
                (0..n).map(|_| if r.pct(60) { r.pick(&self.words).clone() } else { r.pick(&self.symbols).clone() }).collect::<Vec<_>>().join(" ")
            }
            _ => {
                let n = r.range(1, 6);
                (0..n).map(|_| *r.pick(&['\'', '"', '`', '<', '>', '\\', '\n', '-', '/', '*', '.', '#', '@', '$', '(', ')', '0', 'r', 'b', '|', '=', '!', ';', ':', '{', '}', '[', ']', ',', ' '])).collect()
            }
        }
    }
    /// A document that did not arrive as it was sent.
    /// The same document from another editor, system or keyboard: other line ends and white space,
    /// a mark at the start, letters of other alphabets.
    pub fn dress(&self, d: &str, r: &mut Rng) -> String {
        match r.below(10) {
            0..=2 => d.replace('\n', "\r\n") + r.pick(&["", "\r\n"]),
            3 => d.replace('\n', "\r"),
            4 => format!("\u{feff}{}", d),
            5 => d.replace(' ', *r.pick(&["\t", "  ", "\u{a0}", "\u{3000}", "\u{c}", "\u{2003}", "\u{2028}"])),
            6 => d.replace(' ', "\r\n"),
            7 => {
                let mut t = lex(d);
                let p: Vec<usize> = (0..t.len()).filter(|&i| t[i].starts_with(|c: char| c.is_ascii_alphabetic())).collect();
                for i in p {
                    if r.pct(30) {
                        t[i] = r.pick(&["名前", "größe", "naïve", "имя", "ÅNGSTRÖM", "ﬁ", "x\u{301}", "İ"]).to_string();
                    }
                }
                t.concat()
            }
            8 => d.lines().map(|l| l.to_string() + r.pick(&["", " ", "\t", " \\", "\u{200b}"])).collect::<Vec<_>>().join("\n") + "\n",
            _ => format!("{}{}", d, r.pick(&["\n", "\n\n\n", "\u{1a}", "\0", "\u{feff}", "\r", "\t"])),
        }
    }
    pub fn mutate(&self, d: &str, r: &mut Rng, times: u64) -> String {
        let mut s = d.to_string();
        for _ in 0..times {
            let c: Vec<char> = s.chars().collect();
            let n = c.len();
            let cut = |a: usize, b: usize| -> String { c[..a].iter().chain(c[b..].iter()).collect() };
            s = match r.below(18) {
                16 => {
                    // a character that is not what its bytes, its width or its other case suggest
                    let i = r.idx(n + 1);
                    let j = if r.pct(50) { i } else { (i + 1).min(n) };
                    let x = *r.pick(&['é', 'あ', '🙂', 'ß', 'ſ', 'K', 'İ', 'ı', 'ﬁ', '\u{2028}', '\u{85}', '\u{a0}', '\u{200b}', '\u{feff}', '\r', '\t', '\u{b}', '\u{301}', '０', '“', '\u{7f}', '\u{E000}', '\u{10ffff}']);
                    c[..i].iter().chain([x].iter()).chain(c[j..].iter()).collect()
                }
                17 => {
                    // another number where one stood, or where none did
                    let mut t = lex(&s);
                    let x = match r.below(10) {
                        0 => "0".to_string(),
                        1 => "9".repeat(r.range(9, 40) as usize),
                        2 => "-1".into(),
                        3 => format!("{}", (1u64 << r.range(7, 63)) - r.below(2)),
                        4 => format!("0x{:x}", r.next() >> r.below(60)),
                        5 => format!("1e{}", r.log(1, 5000)),
                        6 => format!(".{}", r.below(1000)),
                        7 => format!("{}.", r.below(1000)),
                        8 => format!("{}{}", r.below(100), r.pick(&["a", "_", "e", "e+", "x", ".e1", "..1", "_000"])),
                        _ => "1".repeat(r.log(1, 400) as usize),
                    };
                    let p: Vec<usize> = (0..t.len()).filter(|&i| t[i].starts_with(|c: char| c.is_ascii_digit())).collect();
                    let q: Vec<usize> = (0..t.len()).filter(|&i| !t[i].trim().is_empty()).collect();
                    if !p.is_empty() {
                        t[*r.pick(&p)] = x;
                    } else if !q.is_empty() {
                        t[*r.pick(&q)] = x;
                    }
                    t.concat()
                }
                0 | 1 => c[..r.idx(n + 1)].iter().collect(),
                2 => c[r.idx(n + 1)..].iter().collect(),
                3 if n > 0 => {
                    let a = r.idx(n);
                    let b = (a + r.log(1, 20) as usize).min(n);
                    cut(a, b)
                }
                4 if n > 0 => {
                    let a = r.idx(n);
                    let b = (a + r.log(1, 30) as usize).min(n);
                    c[..b].iter().chain(c[a..].iter()).collect()
                }
                5 if n > 0 => {
                    let mut c = c.clone();
                    let i = r.idx(n);
                    c[i] = char::from_u32((c[i] as u32) ^ (1 << r.below(7))).unwrap_or('\u{fffd}');
                    c.iter().collect()
                }
                6 => {
                    let i = r.idx(n + 1);
                    let x = r.pick(&self.symbols).clone();
                    let mut t: String = c[..i].iter().collect();
                    t.push_str(&x);
                    t.extend(c[i..].iter());
                    t
                }
                7 => {
                    let e = self.plain(r);
                    let e: Vec<char> = e.chars().collect();
                    let i = r.idx(n + 1);
                    let j = r.idx(e.len() + 1);
                    c[..i].iter().chain(e[j..].iter()).collect()
                }
                8 if n > 0 => {
                    // a page that never reached the disk
                    let a = r.idx(n);
                    let b = (a + r.log(1, 16) as usize).min(n);
                    let mut c = c.clone();
                    for x in &mut c[a..b] {
                        *x = '\0';
                    }
                    c.iter().collect()
                }
                9 => c.iter().map(|x| if r.pct(50) { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }).collect(),
                _ => {
                    let mut t = lex(&s);
                    let nw: Vec<usize> = (0..t.len()).filter(|&i| !t[i].trim().is_empty()).collect();
                    if nw.is_empty() {
                        s.clone() + r.pick(&self.words)
                    } else {
                        let i = *r.pick(&nw);
                        match r.below(7) {
                            0 => {
                                t.remove(i);
                            }
                            1 => {
                                let x = t[i].clone();
                                t.insert(i, format!(" {} ", x));
                            }
                            2 => t[i] = r.pick(&self.words).clone(),
                            3 => t[i] = r.pick(&self.symbols).clone(),
                            4 => {
                                let x = r.pick(&self.words).clone();
                                t.insert(i, format!("{} ", x));
                            }
                            5 => {
                                let j = *r.pick(&nw);
                                t.swap(i, j);
                            }
                            _ => {
                                let x = r.pick(&["-- c\n", "/* c */", "\n\n", " ", "# c\n"]).to_string();
                                t.insert(i, x);
                            }
                        }
                        t.concat()
                    }
                }
            };
            if s.len() > 60_000 {
                break;
            }
        }
        s
    }
    /// One token of some kind, of those that fit and those that do not.
    pub fn token(&self, r: &mut Rng) -> String {
        match r.below(16) {
            0..=4 => r.pick(&self.words).clone(),
            5..=7 => r.pick(&self.symbols).clone(),
            8 => r.pick(&["1", "0", "1.5", ".5", "1e3", "0x1F", "18446744073709551616", "4294967296", "99999999999999999999999"]).to_string(),
            9 => r.pick(&["'s'", "\"d\"", "''", "'''m'''", "r'x'", "b\"y\"", "rb'z'", "'\\''", "'"]).to_string(),
            10 => r.pick(&["`q`", "`a.b`", "`", "a.b", "a.`b`.c", "``"]).to_string(),
            11 => r.pick(&["@p", "@@v.w", "?", "@", "@`x`", "{{ t }}", "{% u %}", "{1,2}", "{,}", "{@p}", "{"]).to_string(),
            12 => r.pick(&["(", ")", "[", "]", "<", ">", ",", ".", ";", "*", "-", "=>", "|>", "||"]).to_string(),
            13 => r.pick(&["-- c\n", "/* c */", "# c\n", "/*", "--", "\n", "\u{feff}"]).to_string(),
            14 => r.pick(&["NULL", "TRUE", "DATE '2000-01-01'", "INTERVAL 1 DAY", "ARRAY<INT64>[1]", "STRUCT<a INT64>(1)", "(SELECT 1)", "NOT", "EXISTS (SELECT 1)"]).to_string(),
            _ => self.name(r),
        }
    }
    /// Another token of the kind of `t`, an extreme one as a rule.
    fn like(&self, t: &str, r: &mut Rng) -> String {
        let c = t.chars().next().unwrap_or(' ');
        if c.is_ascii_digit() {
            return match r.below(8) {
                0 => "0".into(),
                1 | 2 => "9".repeat(r.range(3, 40) as usize),
                3 => format!("{}", (1u64 << r.range(7, 63)) - r.below(2)),
                4 => format!("1e{}", r.log(1, 5000)),
                5 => format!("{}.{}", r.below(100), r.below(1000)),
                6 => format!("0x{:x}", r.next() >> r.below(60)),
                _ => "00012".into(),
            };
        }
        if c == '\'' || c == '"' || c == '`' {
            let n = r.log(1, 300) as usize;
            let x = *r.pick(&["a", "é", "🙂", "\\\\", "\\n", " ", "\n", "%", "ß", "İ", "{}", "--", "/*"]);
            return format!("{}{}{}", c, x.repeat(n), c);
        }
        if c == '-' && t.starts_with("--") || c == '#' || t.starts_with("/*") {
            let x = r.pick(&["é", " ", "*", "-", "🙂", "x\t"]).repeat(r.log(1, 200) as usize);
            return if t.starts_with("/*") { format!("/*{}*/", x) } else { format!("{}{}\n", c, x) };
        }
        if c.is_alphabetic() || c == '_' {
            return match r.below(5) {
                0 => t.to_lowercase(),
                1 => t.chars().rev().collect(),
                2 => format!("`{}`", t),
                3 => format!("{}{}", t, r.below(100)),
                _ => r.pick(&self.words).clone(),
            };
        }
        r.pick(&self.symbols).clone()
    }
    /// A document that went wrong in one place, anywhere in the grammar.
    pub fn probe(&self, r: &mut Rng) -> String {
        let d = if r.pct(80) { self.pooled(r) } else { self.plain(r) };
        let mut t = lex(&d);
        let nw: Vec<usize> = (0..t.len()).filter(|&i| !t[i].trim().is_empty()).collect();
        if nw.is_empty() {
            return self.token(r);
        }
        match r.below(20) {
            0..=8 => {
                let i = *r.pick(&nw);
                t.truncate(i + 1);
                let mut s = t.concat();
                if r.pct(50) {
                    let x = self.token(r);
                    s.push_str(if r.pct(90) { " " } else { "" });
                    s.push_str(&x);
                }
                s
            }
            9..=16 => {
                for _ in 0..r.log(1, 3) {
                    let i = *r.pick(&nw);
                    if r.pct(35) {
                        t[i] = self.like(&t[i], r);
                        continue;
                    }
                    let x = self.token(r);
                    match r.below(4) {
                        0 => t[i] = format!(" {} ", x),
                        1 => t[i] = format!(" {} {}", x, t[i]),
                        2 => t[i] = x,
                        _ => t[i] = String::new(),
                    }
                }
                t.concat()
            }
            _ => {
                let k = r.log(1, 3);
                self.mutate(&d, r, k)
            }
        }
    }
    /// A document that arrives damaged or was never a statement.
    /// A document that ends where something has just begun.
    pub fn cut(&self, r: &mut Rng) -> String {
        let d = if self.pool.is_empty() { self.plain(r) } else { self.pooled(r) };
        let t = lex(&d);
        let n = r.idx(t.len().min(40) + 1);
        let s = t[..n].concat();
        s + *r.pick(&["'", "''", "\"", "\"\"", "'''", "''''", "'''a''", "\"\"\"a\"", "'a\\", "`", "``", "-", "--", "--\r", "/", "/*", "/*/", "/**", "#", "|", "<", ">", "ARRAY<", "STRUCT<a ARRAY<", "=", "!", "{", "{{", "{{a}", "{1", "{@", "@", "@@", "@`", ".", "1", "1.", "1e", "1e+", ".1", "0x", "r'", "b\"", "rb''", "*", "?", ":", "\\", "\u{FEFF}", "é", "\u{E000}", "(", "[", "NULL", "a", "a.", "-1", " ", "\n", ";"])
    }
    /// A document in which a word or two are far longer than words are.
    pub fn stretched(&self, r: &mut Rng) -> String {
        let d = if self.pool.is_empty() { self.plain(r) } else { self.pooled(r) };
        let mut t = lex(&d);
        if t.is_empty() {
            return d;
        }
        for _ in 0..r.range(1, 3) {
            let n = r.log(20, 3_000) as usize;
            let fill = *r.pick(&["x", "ab_", "9", "é", "name_"]);
            let fill: String = fill.chars().cycle().take(n).collect();
            let i = r.idx(t.len());
            let x = t[i].clone();
            let (a, z) = (x.chars().next().unwrap_or(' '), x.chars().last().unwrap_or(' '));
            t[i] = if a == z && (a == '\'' || a == '"' || a == '`') && x.len() > 1 {
                format!("{}{}{}", a, fill, z)
            } else if a.is_ascii_digit() {
                format!("{}{}", x, "7".repeat(n))
            } else if a.is_ascii_lowercase() {
                format!("{}_{}", x, fill.replace('é', "y"))
            } else if a == '@' {
                format!("@p_{}", fill.replace('é', "y"))
            } else if a == '#' || x.starts_with("--") {
                format!("-- {}\n", fill)
            } else {
                match r.below(3) {
                    0 => format!("{}/* {} */", x, fill),
                    1 => format!(" '{}' {}", fill, x),
                    _ => format!("{} {} ", x, fill.replace(|c: char| c == 'é' || c == '9', "z")),
                }
            };
        }
        t.concat()
    }
    pub fn torn(&self, r: &mut Rng) -> String {
        match r.below(19) {
            16..=17 => self.cut(r),
            18 => self.stretched(r),
            12..=15 if !self.pool.is_empty() => self.probe(r),
            0 => self.unusual(r),
            1 => self.deep(r, 40),
            2 => {
                let d = self.deep(r, 40);
                self.mutate(&d, r, 1)
            }
            3 => {
                let d = self.chain(r, 200);
                self.mutate(&d, r, 1)
            }
            4 => self.doc(r),
            _ => {
                let d = self.plain(r);
                let k = r.log(1, 4);
                self.mutate(&d, r, k)
            }
        }
    }
    /// A document near `d`: one a careless key or a careless comparison would take for it.
    pub fn sibling(&self, d: &str, r: &mut Rng) -> String {
        let c: Vec<char> = d.chars().collect();
        let n = c.len();
        match r.below(18) {
            16 | 17 => self.dress(d, r),
            0 => format!("{} ", d),
            1 => format!("\n{}", d),
            2 => d.chars().map(|x| if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }).collect(),
            3 => d.to_ascii_lowercase(),
            4 => d.split_whitespace().collect::<Vec<_>>().join(" "),
            5 => format!("{}\n-- c", d),
            6 => format!("/* c */{}", d),
            7 if n > 0 => c[..n - 1].iter().collect(),
            8 => format!("{} x", d),
            9 | 10 | 11 => {
                // same length, one letter or digit different
                let p: Vec<usize> = (0..n).filter(|&i| c[i].is_ascii_alphanumeric()).collect();
                if p.is_empty() {
                    return format!("{}1", d);
                }
                let i = if r.pct(40) { *p.last().unwrap() } else { *r.pick(&p) };
                let mut c = c.clone();
                c[i] = if c[i].is_ascii_digit() {
                    if c[i] == '7' { '8' } else { '7' }
                } else if c[i] == 'q' {
                    'z'
                } else {
                    'q'
                };
                c.iter().collect()
            }
            12 => {
                // same characters, different order
                let mut t = lex(d);
                let p: Vec<usize> = (0..t.len()).filter(|&i| !t[i].trim().is_empty()).collect();
                if p.len() < 2 {
                    return format!("{};", d);
                }
                let (a, b) = (*r.pick(&p), *r.pick(&p));
                t.swap(a, b);
                t.concat()
            }
            13 => {
                // one identifier, other words kept
                let mut t = lex(d);
                let p: Vec<usize> = (0..t.len()).filter(|&i| t[i].chars().next().unwrap().is_ascii_alphabetic()).collect();
                if p.is_empty() {
                    return format!("{}a", d);
                }
                let i = *p.last().unwrap();
                t[i] = r.pick(&self.words).clone();
                t.concat()
            }
            14 => d.replace('\n', " "),
            _ => self.mutate(d, r, 1),
        }
    }
    /// The same document with something in it that is new every time it is sent.
    pub fn unique(&self, r: &mut Rng) -> String {
        let d = self.unique_(r);
        match r.below(6) {
            // long words, too
            0 => d.replace("__U__", &format!("{}__U__", "a_longer_word_".repeat(r.range(1, 8) as usize))),
            1 => d.replace("__U__", &format!("__U__{}", self.name(r))),
            _ => d,
        }
    }
    fn unique_(&self, r: &mut Rng) -> String {
        if r.pct(35) {
            // any construct, with new words, strings or comments in it
            let mut d = self.pooled(r);
            for _ in 0..10 {
                if d.len() < 200 {
                    break;
                }
                d = self.pooled(r);
            }
            let mut t = lex(&d);
            let lower = |x: &str| x.chars().all(|c| c.is_ascii_lowercase() || c == '_' || c.is_ascii_digit()) && x.chars().any(|c| c.is_ascii_lowercase());
            let mut any = false;
            let all = r.pct(50);
            for x in t.iter_mut() {
                if lower(x) && (all || r.pct(30)) {
                    *x = "__U__".into();
                    any = true;
                } else if x.len() > 2 && x.starts_with(['\'', '"', '`']) && r.pct(30) {
                    let q = x[..1].to_string();
                    *x = format!("{}__U__{}", q, q);
                    any = true;
                } else if x.starts_with(|c: char| c.is_ascii_digit()) && r.pct(10) {
                    *x = "__N__".into();
                    any = true;
                }
            }
            if any {
                return t.concat();
            }
        }
        let d = self.small(r);
        let mut t = lex(&d);
        let p: Vec<usize> = (0..t.len()).filter(|&i| t[i].chars().next().unwrap().is_ascii_alphabetic()).collect();
        match r.below(9) {
            5 => format!("SELECT `p.__U__`; {}", d),
            6 => format!("SELECT f___U__(@__U__), \"\"\"__U__\"\"\", r'__U__'; {}", d),
            7 => format!("/* __U__ */ {} # __U__", d),
            8 => format!("{} {{{{__U__}}}}", d),
            0 => format!("{} -- __U__\n", d),
            1 => format!("SELECT '__U__'; {}", d),
            2 => format!("SELECT __U__, {} '__U__", r.range(1, 99)),
            3 => format!("SELECT __U__ FROM __U__.t WHERE a = {}", r.range(1, 99)),
            _ => {
                if p.is_empty() {
                    return "SELECT __U__".into();
                }
                let i = *r.pick(&p);
                t[i] = "__U__".into();
                t.concat()
            }
        }
    }
}
