//! JSON text writer with control over key order, whitespace and number form.

use crate::rng::Rng;
use serde_json::Value;

pub fn number(n: &serde_json::Number, out: &mut String) {
    if let (true, Some(f)) = (n.is_f64(), n.as_f64()) {
        if f.fract() == 0.0 && f.abs() < 1e15 && !(f == 0.0 && f.is_sign_negative()) {
            out.push_str(&format!("{}", f as i64));
            return;
        }
    }
    out.push_str(&n.to_string());
}

pub fn string(s: &str, out: &mut String) {
    out.push_str(&serde_json::to_string(s).unwrap());
}

fn put(v: &Value, out: &mut String) {
    match v {
        Value::Number(n) => number(n, out),
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                put(x, out);
            }
            out.push(']');
        }
        Value::Object(o) => {
            out.push('{');
            for (i, (k, x)) in o.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                string(k, out);
                out.push(':');
                put(x, out);
            }
            out.push('}');
        }
        Value::String(s) => string(s, out),
        Value::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        Value::Null => out.push_str("null"),
    }
}

pub fn plain(v: &Value) -> String {
    let mut s = String::new();
    put(v, &mut s);
    s
}

fn ws(r: &mut Rng, out: &mut String) {
    if r.chance(0.3) {
        for _ in 0..r.below(3) {
            out.push(*r.pick(&[' ', '\n', '\t', '\r']));
        }
    }
}

fn shuffled_put(v: &Value, r: &mut Rng, out: &mut String) {
    ws(r, out);
    match v {
        Value::Array(a) => {
            out.push('[');
            for (i, x) in a.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                shuffled_put(x, r, out);
            }
            ws(r, out);
            out.push(']');
        }
        Value::Object(o) => {
            out.push('{');
            let mut e: Vec<(&String, &Value)> = o.iter().collect();
            r.shuffle(&mut e);
            for (i, (k, x)) in e.into_iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                ws(r, out);
                string(k, out);
                ws(r, out);
                out.push(':');
                shuffled_put(x, r, out);
            }
            ws(r, out);
            out.push('}');
        }
        other => put(other, out),
    }
    ws(r, out);
}

/// Random key order and whitespace.
pub fn shuffled(v: &Value, r: &mut Rng) -> String {
    let mut s = String::new();
    shuffled_put(v, r, &mut s);
    s
}
