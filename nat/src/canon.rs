//! Canonical form of an answer: keys sorted, so that only what a caller can rely on is compared.
use wasm_bindgen::{JsValue, Repr};

pub struct H {
    a: u32,
    b: u32,
    pub n: u64,
}
impl H {
    pub fn new() -> H {
        H { a: 0x811C_9DC5, b: 0x9747_B28C, n: 0 }
    }
    pub fn byte(&mut self, x: u8) {
        self.a = (self.a ^ x as u32).wrapping_mul(0x0100_0193);
        self.b = (self.b ^ x as u32).wrapping_mul(0x85EB_CA6B).rotate_left(13);
        self.n += 1;
    }
    pub fn bytes(&mut self, s: &[u8]) {
        for b in s {
            self.byte(*b);
        }
    }
    pub fn done(&self) -> String {
        format!("{:08x}{:08x}-{}", self.a, self.b, self.n)
    }
}

/// Messages spell out the end-of-document position, which is the largest machine word: shown as
/// the 32-bit one, as the shipped module does.
fn word(s: &str) -> std::borrow::Cow<'_, str> {
    if s.contains("18446744073709551615") {
        s.replace("18446744073709551615", "4294967295").into()
    } else {
        s.into()
    }
}

fn num(n: f64) -> String {
    if n.fract() == 0.0 && n.abs() < 9e15 {
        format!("{}", n as i64)
    } else {
        format!("{:?}", n)
    }
}

pub fn hash(v: &JsValue, h: &mut H) {
    match &v.repr {
        Repr::Undefined => h.byte(b'u'),
        Repr::Null => h.byte(b'n'),
        Repr::Bool(true) => h.byte(b't'),
        Repr::Bool(false) => h.byte(b'f'),
        Repr::Num(n) => {
            h.byte(b'#');
            h.bytes(num(*n).as_bytes());
            h.byte(b';')
        }
        Repr::BigInt(n) => {
            h.byte(b'b');
            h.bytes(n.to_string().as_bytes());
            h.byte(b';')
        }
        Repr::Str(s) => {
            h.byte(b'"');
            h.bytes(word(s).as_bytes());
            h.byte(b'"')
        }
        Repr::Array(a) => {
            h.byte(b'[');
            for x in a {
                hash(x, h);
            }
            h.byte(b']')
        }
        Repr::Object(o) => {
            h.byte(b'{');
            let mut idx: Vec<usize> = (0..o.len()).collect();
            idx.sort_by(|a, b| o[*a].0.cmp(&o[*b].0));
            for i in idx {
                h.bytes(o[i].0.as_bytes());
                h.byte(b':');
                hash(&o[i].1, h);
            }
            h.byte(b'}')
        }
        Repr::Error(s) => {
            h.byte(b'E');
            h.bytes(s.as_bytes())
        }
    }
}

pub fn show(v: &JsValue, out: &mut String, cap: usize) {
    if out.len() > cap {
        return;
    }
    match &v.repr {
        Repr::Undefined => out.push_str("undefined"),
        Repr::Null => out.push_str("null"),
        Repr::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        Repr::Num(n) => out.push_str(&num(*n)),
        Repr::BigInt(n) => out.push_str(&n.to_string()),
        Repr::Str(s) => out.push_str(&format!("{:?}", word(s))),
        Repr::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                show(x, out, cap);
                if out.len() > cap {
                    return;
                }
            }
            out.push(']')
        }
        Repr::Object(o) => {
            let mut idx: Vec<usize> = (0..o.len()).collect();
            idx.sort_by(|a, b| o[*a].0.cmp(&o[*b].0));
            out.push('{');
            for (k, i) in idx.into_iter().enumerate() {
                if k > 0 {
                    out.push(',');
                }
                out.push_str(&o[i].0);
                out.push(':');
                show(&o[i].1, out, cap);
                if out.len() > cap {
                    return;
                }
            }
            out.push('}')
        }
        Repr::Error(s) => out.push_str(&format!("Error({:?})", s)),
    }
}

fn get<'a>(v: &'a JsValue, k: &str) -> Option<&'a JsValue> {
    match &v.repr {
        Repr::Object(o) => o.iter().find(|e| e.0 == k).map(|e| &e.1),
        _ => None,
    }
}
/// A structured rejection: a place in the document and a message.
pub fn rejection_ok(v: &JsValue) -> bool {
    let pos = |k| matches!(get(v, k).map(|x| &x.repr), Some(Repr::Num(n)) if *n >= 1.0);
    pos("line") && pos("column") && matches!(get(v, "message").map(|x| &x.repr), Some(Repr::Str(s)) if !s.is_empty())
}
/// The answer of `parse`: statements and then the end marker. Of `tokenize`: tokens and then the end.
pub fn answer_ok(f: usize, v: &JsValue) -> bool {
    let a = match &v.repr {
        Repr::Array(a) if !a.is_empty() => a,
        _ => return false,
    };
    let last = a.last().unwrap();
    if f == 0 {
        matches!(get(last, "node_type").map(|x| &x.repr), Some(Repr::Str(s)) if s == "EOF")
    } else {
        matches!(get(last, "literal").map(|x| &x.repr), Some(Repr::Str(s)) if s.is_empty())
    }
}
