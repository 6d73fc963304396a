//! Damage done to documents: soft (values stay of the right type), structural (any JSON
//! node replaced), textual (bytes changed), and texts that never were documents.

use crate::rng::Rng;
use crate::schema::{self, K, T};
use serde_json::{Value, json};

pub fn odd_number(r: &mut Rng, cap: f64) -> f64 {
    let v = match r.below(16) {
        0 => 0.0,
        1 => -0.0,
        2 => 1.0,
        3 => -1.0,
        4 => 1e-9,
        5 => -1e-300,
        6 => 0.5,
        7 => 100.0,
        8 => -100.0,
        9 => 1e6,
        10 => -1e6,
        11 => 360.0,
        12 => 1e18,
        13 => -1e300,
        14 => r.range(-10.0, 10.0),
        _ => r.range(-1e6, 1e6).round(),
    };
    if v.abs() > cap { v.signum() * cap } else { v }
}

fn pointers(v: &Value, p: String, out: &mut Vec<String>) {
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                pointers(x, format!("{p}/{i}"), out);
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                let k = k.replace('~', "~0").replace('/', "~1");
                pointers(x, format!("{p}/{k}"), out);
            }
        }
        _ => {}
    }
    out.push(p);
}

fn asset_ids(doc: &Value) -> Vec<Value> {
    doc["assets"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|a| a["id"].clone())
        .collect()
}

/// Integers that are too large for anything to be allocated by them.
pub const LARGE: [u64; 8] = [
    255,
    65_536,
    1 << 31,
    1 << 32,
    1 << 53,
    1 << 62,
    i64::MAX as u64,
    u64::MAX,
];

/// Gives numbers many significant digits (at most 15).
pub fn precise(v: &mut Value, r: &mut Rng, p: f64) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| precise(x, r, p)),
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                // times stay in order
                if k != "t" {
                    precise(x, r, p);
                }
            }
        }
        Value::Number(n) if n.is_f64() && r.chance(p) => {
            let x = n.as_f64().unwrap() + r.range(-0.01, 0.01);
            // in the range where the JSON parser is exact: at most 15 digits, 22 decimals
            let far = x.abs() < 1e-3;
            let x: f64 = match r.below(4) {
                _ if far => format!("{x:.9}"),
                0 => format!("{x:.14e}"),
                1 => format!("{x:.12e}"),
                2 if x.abs() > 1.0 => format!("{:.14e}", x * 1e-6),
                _ => format!("{x:.9}"),
            }
            .parse()
            .unwrap();
            *v = json!(x);
        }
        _ => {}
    }
}

/// Changes values without changing their JSON types: most results still load.
pub fn soft(doc: &mut Value, r: &mut Rng, n: usize, cap: f64) {
    for _ in 0..n {
        let sites = schema::sites(doc);
        let ids = asset_ids(doc);
        let s = r.pick(&sites);
        let (ptr, kind) = (s.ptr.clone(), s.kind);
        let snap = doc.pointer(&ptr).unwrap().clone();
        let fs = schema::fields(kind, &snap);
        let Some(Value::Object(o)) = doc.pointer_mut(&ptr) else {
            continue;
        };
        let present: Vec<_> = fs.iter().filter(|f| o.contains_key(f.k)).collect();
        if present.is_empty() {
            continue;
        }
        let f = r.pick(&present);
        if !f.req && r.chance(0.15) {
            o.remove(f.k);
            continue;
        }
        let v = o.get_mut(f.k).unwrap();
        match (f.t, f.k) {
            (T::Str, "refId") => {
                *v = if ids.is_empty() || r.chance(0.2) {
                    json!("nowhere")
                } else {
                    r.pick(&ids).clone()
                }
            }
            (T::Str, "id") => {
                if !ids.is_empty() {
                    *v = r.pick(&ids).clone();
                }
            }
            (T::Num, _) => *v = json!(odd_number(r, cap)),
            (T::Int, "w" | "h") => *v = json!(*r.pick(&[0u64, 1, 7, 1_000_000])),
            (T::Int, "p") => *v = json!(*r.pick(&[0u64, 1, 2, 3, 50])),
            (T::Int, "ind" | "parent" | "tp") => {
                *v = if r.chance(0.15) {
                    json!(*r.pick(&LARGE))
                } else {
                    json!(r.int(0, 6))
                }
            }
            (T::Int, _) => *v = json!(r.int(0, 9)),
            (T::NumArr, _) => {
                if let Some(a) = v.as_array_mut() {
                    match r.below(5) {
                        0 => a.clear(),
                        1 => {
                            a.pop();
                        }
                        2 => a.push(json!(odd_number(r, cap))),
                        _ => {
                            let i = r.below(a.len());
                            if let Some(x) = a.get_mut(i) {
                                *x = json!(odd_number(r, cap));
                            }
                        }
                    }
                }
            }
            (T::PairArr, _) => {
                if let Some(a) = v.as_array_mut() {
                    match r.below(5) {
                        0 => a.clear(),
                        1 => {
                            a.pop();
                        }
                        2 => a.push(json!([odd_number(r, cap), 1])),
                        3 => {
                            if let Some(x) = a.first().cloned() {
                                a.iter_mut().for_each(|y| *y = x.clone());
                            }
                        }
                        _ => {
                            let i = r.below(a.len());
                            if let Some(x) = a.get_mut(i) {
                                *x = json!([odd_number(r, cap), odd_number(r, cap)]);
                            }
                        }
                    }
                }
            }
            (T::Arr(e), _) => {
                if let Some(a) = v.as_array_mut() {
                    match r.below(6) {
                        0 => a.clear(),
                        1 => {
                            a.pop();
                        }
                        2 => a.reverse(),
                        3 if a.len() > 1 => {
                            let i = r.below(a.len());
                            let x = a[i].clone();
                            a.push(x);
                        }
                        4 if matches!(e, K::Keyframe | K::PosKeyframe | K::PathKeyframe) => {
                            // equal times
                            let t = a.first().map(|k| k["t"].clone()).unwrap_or(json!(0));
                            for k in a.iter_mut() {
                                if r.chance(0.6) && k.is_object() {
                                    k["t"] = t.clone();
                                }
                            }
                        }
                        _ => r.shuffle(a),
                    }
                }
            }
            (T::Comp, _) => {
                *v = match r.below(4) {
                    0 => json!([]),
                    1 => json!([odd_number(r, cap)]),
                    2 => json!([odd_number(r, cap), odd_number(r, cap), 0.5]),
                    _ => json!(odd_number(r, cap)),
                }
            }
            (T::Scalar | T::Vector | T::Color | T::Position, _) => {
                if let Some(k) = v.get_mut("k") {
                    if k.is_number() {
                        *k = json!(odd_number(r, cap));
                    } else if let Some(a) = k.as_array_mut()
                        && r.chance(0.3)
                    {
                        a.clear();
                    }
                }
            }
            (T::PosOrSplit, _) => {
                *v = if r.chance(0.5) {
                    json!({"s":r.chance(0.5),"x":{"k":odd_number(r, cap)},"y":{"a":1,"k":[]}})
                } else {
                    json!({"k": [odd_number(r, cap)]})
                }
            }
            (t, _) => {
                if let Some(x) = schema::sample(t, r) {
                    *v = x;
                }
            }
        }
    }
}

fn junk_node(r: &mut Rng, doc: &Value) -> Value {
    match r.below(12) {
        0 => Value::Null,
        1 => json!(r.chance(0.5)),
        2 => json!(odd_number(r, 1e308)),
        3 => json!(*r.pick(&[u64::MAX, 0, 1, 255, 256, 65536, 4294967296, 1 << 53])),
        4 => json!(*r.pick(&[i64::MIN, -1, -128])),
        5 => json!(*r.pick(&["", "seq", "gr", "tr", "a", "0", "\u{0}", "\u{10FFFF}"])),
        6 => json!([]),
        7 => json!({}),
        8 => json!([[[[]]], {"k": [{}]}]),
        9 => json!({"a": 1, "k": [{"t": 0}, {"t": null}]}),
        _ => {
            let mut p = vec![];
            pointers(doc, String::new(), &mut p);
            let v = doc
                .pointer(&p[r.below(p.len())])
                .cloned()
                .unwrap_or(Value::Null);
            if v.to_string().len() < 4000 {
                v
            } else {
                json!({"it": [], "shapes": []})
            }
        }
    }
}

/// Replaces, deletes, duplicates or moves arbitrary JSON nodes.
pub fn structural(doc: &mut Value, r: &mut Rng, n: usize) {
    for _ in 0..n {
        let mut p = vec![];
        pointers(doc, String::new(), &mut p);
        let ptr = r.pick(&p).clone();
        let new = junk_node(r, doc);
        let Some(node) = doc.pointer_mut(&ptr) else {
            continue;
        };
        match (r.below(5), node) {
            (0 | 1, node) => *node = new,
            (2, Value::Object(o)) if !o.is_empty() => {
                let k = o.keys().nth(r.below(o.len())).unwrap().clone();
                o.remove(&k);
            }
            (3, Value::Object(o)) if !o.is_empty() => {
                let k = o.keys().nth(r.below(o.len())).unwrap().clone();
                o.insert(k, new);
            }
            (2, Value::Array(a)) if !a.is_empty() => {
                a.remove(r.below(a.len()));
            }
            (3, Value::Array(a)) => a.insert(r.below(a.len() + 1), new),
            (_, Value::Object(o)) => {
                let k = *r.pick(&[
                    "ty",
                    "k",
                    "a",
                    "s",
                    "e",
                    "o",
                    "i",
                    "t",
                    "h",
                    "p",
                    "r",
                    "x",
                    "y",
                    "c",
                    "v",
                    "g",
                    "ks",
                    "it",
                    "shapes",
                    "layers",
                    "refId",
                    "w",
                    "id",
                    "tm",
                    "or",
                    "tt",
                    "td",
                    "tp",
                    "parent",
                    "ind",
                    "masksProperties",
                    "hd",
                    "bm",
                    "nm",
                ]);
                o.insert(k.into(), new);
            }
            (_, node) => *node = new,
        }
    }
}

const TOKENS: &[&str] = &[
    "{",
    "}",
    "[",
    "]",
    ":",
    ",",
    "\"",
    "null",
    "true",
    "false",
    "0",
    "-1",
    "1e3",
    "1e-400",
    "0.5",
    "\"layers\":[",
    "\"ty\":4",
    "\"ks\":{",
    "\"k\":",
    "\"a\":1,",
    "\"shapes\":[",
    "\"it\":[",
    "\\u0000",
    "\\",
    "\u{feff}",
    " ",
    "\n",
    "\"assets\":[{\"id\":\"a\",\"layers\":[",
    "\"w\":10,\"h\":10,",
    "NaN",
    "Infinity",
    "1e999",
    "--",
    "\"fr\":30,\"ip\":0,\"op\":9,",
];

pub fn soup(r: &mut Rng) -> Vec<u8> {
    let mut s = vec![];
    for _ in 0..r.below(60) {
        if r.chance(0.1) {
            s.push(r.below(256) as u8);
        } else {
            s.extend(r.pick(TOKENS).as_bytes());
        }
    }
    s
}

pub fn bytes(t: &mut Vec<u8>, r: &mut Rng, n: usize) {
    for _ in 0..n {
        if t.is_empty() {
            t.push(r.below(256) as u8);
            continue;
        }
        let i = r.below(t.len());
        match r.below(7) {
            0 => t[i] = r.below(256) as u8,
            1 => {
                t.remove(i);
            }
            2 => t.insert(i, r.below(256) as u8),
            3 => {
                let tok = r.pick(TOKENS).as_bytes().to_vec();
                t.splice(i..i, tok);
            }
            4 => t.truncate(i),
            5 => {
                let j = (i + r.below(40)).min(t.len());
                let part = t[i..j].to_vec();
                let at = r.below(t.len());
                t.splice(at..at, part);
            }
            _ => {
                if t[i].is_ascii_digit() {
                    t[i] = b'0' + r.below(10) as u8;
                } else {
                    t[i] = *r.pick(b"{}[]:,\"0-e.");
                }
            }
        }
    }
}

/// Groups nested `n` deep.
pub fn nested_groups(n: usize, inner: Value) -> Value {
    let mut v = inner;
    for _ in 0..n {
        let mut m = serde_json::Map::new();
        m.insert("ty".into(), "gr".into());
        m.insert("it".into(), Value::Array(vec![v]));
        v = Value::Object(m);
    }
    v
}

/// Features of the format the library does not support.
pub fn unsupported(doc: &mut Value, r: &mut Rng) {
    let text_layer = json!({"ty":5,"ind":77,"nm":"text","ip":0,"op":60,"ks":{"p":{"a":0,"k":[0,0]}},
        "t":{"d":{"k":[{"s":{"t":"Hello","f":"Roboto","s":24,"j":0,"fc":[1,0,0]},"t":0}]},"a":[],"m":{}}});
    let anim_image = json!({"id":"img_x","w":10,"h":10,"p":"a.png","u":"images/","e":0});
    let sound = json!({"id":"aud_0","u":"","p":"a.mp3","e":0,"t":2});
    let kind = r.below(15);
    let l = doc["layers"].as_array_mut().unwrap();
    match kind {
        0 => l.push(text_layer),
        1 => {
            for k in [6, 13, 15] {
                l.push(json!({"ty":k,"ip":0,"op":9,"ks":{"p":{"k":[0,0]}}}));
            }
        }
        2 => {
            doc["fonts"] =
                json!({"list":[{"fName":"R","fFamily":"R","fStyle":"Regular","ascent":75}]})
        }
        3 => doc["chars"] = json!([{"ch":"a","size":10,"w":5,"data":{"shapes":[]}}]),
        4 => push_asset(doc, anim_image),
        5 => push_asset(doc, sound),
        6 => push_asset(doc, json!({"id":"d","t":3,"p":"x.json"})),
        7 => {
            for x in l.iter_mut() {
                x["ef"] =
                    json!([{"ty":5,"nm":"Drop Shadow","ef":[{"ty":0,"v":{"a":0,"k":5}}],"en":1}]);
                x["sy"] = json!([{"ty":1,"c":{"k":[0,0,0,1]}}]);
            }
        }
        8 => {
            for x in l.iter_mut() {
                x["tm"] = json!({"a":1,"k":[{"t":0,"s":[0]},{"t":30,"s":[1]}]});
            }
        }
        9 => {
            for x in l.iter_mut() {
                x["ks"]["r"] = Value::Null;
                x["ks"]["or"] = json!({"a":0,"k":[0,0,0]});
                x["ks"]["rx"] = json!({"a":0,"k":10});
                x["ks"]["rz"] = json!({"a":1,"k":[{"t":0,"s":[10]},{"t":4,"s":[0]}]});
                x["ddd"] = json!(1);
            }
        }
        10 => {
            for x in l.iter_mut() {
                x["ks"]["r"] = json!({"x":{"k":1},"y":{"k":2},"z":{"k":3},"or":{"k":[0,0,0]}});
            }
        }
        11 => shape_in(
            doc,
            json!({"ty":"zz","nm":"zigzag","s":{"k":5},"r":{"k":5},"pt":{"k":1}}),
        ),
        12 => shape_in(doc, json!({"ty":"no"})),
        13 => {
            doc["slots"] = json!({"a":{"p":{"a":0,"k":1}}});
            doc["comps"] = json!([]);
            doc["mb"] = json!({"sa":180,"sp":-90,"spf":16});
        }
        _ => shape_in(
            doc,
            json!({"ty":"st","c":{"sid":"x"},"o":{"k":100},"w":{"k":1},"d":[{"n":"d","v":{"k":1}}]}),
        ),
    }
}

fn push_asset(doc: &mut Value, a: Value) {
    if !doc["assets"].is_array() {
        doc["assets"] = json!([]);
    }
    doc["assets"].as_array_mut().unwrap().push(a);
}

fn shape_in(doc: &mut Value, s: Value) {
    for l in doc["layers"].as_array_mut().unwrap() {
        if let Some(v) = l.get_mut("shapes").and_then(|v| v.as_array_mut()) {
            v.push(s);
            return;
        }
    }
}

/// References made cyclic or dangling: parents, mattes and precompositions.
pub fn tangle(doc: &mut Value, r: &mut Rng) {
    let ids = asset_ids(doc);
    let mut lists = vec!["/layers".to_string()];
    for i in 0..ids.len() {
        lists.push(format!("/assets/{i}/layers"));
    }
    for p in lists {
        let Some(Value::Array(ls)) = doc.pointer_mut(&p) else {
            continue;
        };
        let n = ls.len() as i64;
        for (i, l) in ls.iter_mut().enumerate() {
            let Some(o) = l.as_object_mut() else { continue };
            o.insert("ind".into(), json!(i as i64 + 1));
            if r.chance(0.6) {
                o.insert("parent".into(), json!(r.int(0, n + 1)));
            }
            if r.chance(0.4) {
                o.insert("tt".into(), json!(r.int(0, 4)));
                if r.chance(0.7) {
                    o.insert("tp".into(), json!(r.int(0, n + 1)));
                }
            }
            if r.chance(0.2) {
                o.insert("td".into(), json!(1));
            }
            if o.get("ty") == Some(&json!(0)) && !ids.is_empty() {
                o.insert("refId".into(), r.pick(&ids).clone());
            }
        }
    }
}

/// Largest magnitude of any number in the value.
pub fn biggest(v: &Value) -> f64 {
    match v {
        Value::Number(n) => n.as_f64().unwrap_or(f64::INFINITY).abs(),
        Value::Array(a) => a.iter().map(biggest).fold(0.0, f64::max),
        Value::Object(o) => o.values().map(biggest).fold(0.0, f64::max),
        _ => 0.0,
    }
}

/// Limits every number to the magnitude `c`.
pub fn cap(v: &mut Value, c: f64) {
    match v {
        Value::Number(n) => {
            let x = n.as_f64().unwrap_or(0.0);
            if x.abs() > c {
                *v = if n.is_f64() {
                    json!(c.copysign(x))
                } else {
                    json!(c.copysign(x) as i64)
                };
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| cap(x, c)),
        Value::Object(o) => o.values_mut().for_each(|x| cap(x, c)),
        _ => {}
    }
}

/// A string of any length and of characters of any width.
pub fn word(r: &mut Rng) -> String {
    let pool: Vec<char> = match r.below(6) {
        0 => vec!['\u{0}', '"', '\\', '\n', '\u{7f}', '\u{2028}'],
        1 => vec!['a', 'Z', '7', '_', ' '],
        2 => vec!['é', 'ß', 'Ж', 'a'],
        3 => vec!['図', '形', '層', '\u{301}', '\u{fffd}'],
        4 => vec!['\u{1F600}', '\u{10FFFF}', '\u{200d}'],
        _ => vec!['é', '図', '\u{1F600}', 'x', '\'', '{', '%', '/'],
    };
    let n = match r.below(4) {
        0 => r.int(0, 3),
        1 => r.int(0, 40),
        2 => r.int(20, 200),
        _ => r.int(100, 700),
    };
    (0..n).map(|_| *r.pick(&pool)).collect()
}

/// Long and foreign strings where strings belong, and some where they do not: what a message
/// about them has to cope with.
pub fn words(doc: &mut Value, r: &mut Rng) {
    let mut ids = vec![];
    if let Some(a) = doc.get_mut("assets").and_then(|a| a.as_array_mut()) {
        for x in a {
            if r.chance(0.7) {
                let w = word(r);
                ids.push((x["id"].clone(), w.clone()));
                x["id"] = json!(w);
            }
        }
    }
    let mut all = vec![];
    pointers(doc, String::new(), &mut all);
    for p in &all {
        let Some(v) = doc.pointer_mut(p) else {
            continue;
        };
        if let (true, Some((_, w))) = (
            p.ends_with("/refId"),
            ids.iter().find(|(id, _)| *id == *v).cloned(),
        ) {
            if r.chance(0.8) {
                *v = json!(w);
            }
        } else if v.is_string() && r.chance(0.1) {
            *v = json!(word(r));
        }
    }
    // faults, most of them inside an asset
    let inside: Vec<&String> = all.iter().filter(|p| p.starts_with("/assets/")).collect();
    for _ in 0..r.int(0, 3) {
        let p = if !inside.is_empty() && r.chance(0.7) {
            (*r.pick(&inside)).clone()
        } else {
            r.pick(&all).clone()
        };
        let Some(v) = doc.pointer_mut(&p) else {
            continue;
        };
        match r.below(5) {
            0 | 1 => *v = json!(word(r)),
            2 => *v = json!({ word(r): word(r) }),
            3 => {
                if let Some(o) = v.as_object_mut() {
                    let k = o.keys().next().cloned();
                    if let Some(x) = k.and_then(|k| o.remove(&k)) {
                        o.insert(word(r), x);
                    }
                } else {
                    *v = json!([word(r)]);
                }
            }
            _ => *v = Value::Null,
        }
    }
}

/// Keeps easings and the point counts of stars within reason, so that the work a render does
/// shows in what it draws even where the outline is not painted.
pub fn cap_points(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(cap_points),
        Value::Object(o) => {
            for k in ["o", "i"] {
                if let Some(y) = o.get_mut(k).and_then(|h| h.get_mut("y")) {
                    cap(y, 3.0);
                }
            }
            if let Some(p) = o.get_mut("pt")
                && p.get("k").is_some()
            {
                let paths = p.to_string().contains("\"v\"");
                if !paths {
                    cap(p, 200.0);
                }
            }
            o.values_mut().for_each(cap_points);
        }
        _ => {}
    }
}
