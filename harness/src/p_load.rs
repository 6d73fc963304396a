//! Properties of loading: P01, P05, P06, P07, P08, P09.

use crate::base::*;
use crate::cmp;
use crate::docgen::{self, Profile};
use crate::ev::Ev;
use crate::mutate;
use crate::obs::Obs;
use crate::rng::{Rng, hash_str};
use crate::run::{Prop, guard};
use crate::schema::{self, K, T};
use crate::text;
use serde_json::{Value, json};
use std::collections::BTreeMap;
use std::str::FromStr;
use velato::Composition;
use velato::schema::Animation;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
        .collect()
}

pub fn bytes_case(b: &[u8]) -> Value {
    match std::str::from_utf8(b) {
        Ok(t) => json!({ "text": t }),
        Err(_) => json!({ "hex": hex(b) }),
    }
}

/// A document in which one value is nested `n` deep, written as text (so that no deep
/// value has to be built here).
fn nest_text(style: &str, n: usize) -> String {
    let inner = json!([rect(0.0, 0.0, 9.0, 9.0), fill(1.0, 0.0, 0.0)]);
    let mut d = doc1(inner.clone());
    let (open, core, close) = match style {
        "groups" => {
            d["layers"][0]["shapes"] = json!(["@@"]);
            ("{\"ty\":\"gr\",\"it\":[", inner[0].to_string(), "]}")
        }
        "metadata" => {
            d["metadata"] = json!("@@");
            ("[", "1".into(), "]")
        }
        "unknown" => {
            d["layers"][0]["shapes"][0]["zz"] = json!("@@");
            ("{\"q\":", "1".into(), "}")
        }
        "top" => {
            d["zz"] = json!("@@");
            ("[", "1".into(), "]")
        }
        _ => {
            d["layers"][0]["ks"]["p"] = json!("@@");
            ("{\"a\":0,\"k\":", "[0,0]".into(), "}")
        }
    };
    let nested = format!("{}{core}{}", open.repeat(n), close.repeat(n));
    text::plain(&d).replace("\"@@\"", &nested)
}

/// The bytes of a case.
pub fn case_bytes(c: &Value) -> Vec<u8> {
    if let Some(t) = c["text"].as_str() {
        t.as_bytes().to_vec()
    } else if let Some(h) = c["hex"].as_str() {
        unhex(h)
    } else if let Some(n) = c["nest"].as_u64() {
        nest_text(c["style"].as_str().unwrap(), n as usize).into_bytes()
    } else if let Some(n) = c["raw_nest"].as_u64() {
        let (a, b) = match c["open"].as_str() {
            Some("{") => ("{\"layers\":", "}"),
            _ => ("[", "]"),
        };
        let mut s = String::new();
        for _ in 0..n {
            s.push_str(a);
        }
        if c["close"] == json!(true) {
            s.push('0');
            for _ in 0..n {
                s.push_str(b);
            }
        }
        s.into_bytes()
    } else {
        text::plain(&c["doc"]).into_bytes()
    }
}

pub fn hostile_doc(r: &mut Rng) -> Value {
    let mut p = Profile::full();
    p.layers = (1, 3);
    p.anim = 0.5;
    p.path_anim = 0.5;
    if r.chance(0.5) {
        p.layers = (1, 2);
        p.shapes = (1, 3);
        p.depth = 1;
    }
    let mut d = docgen::doc(r, &p);
    if r.chance(0.3) {
        schema::enrich(&mut d, r, 0.15, |_, _| true);
    }
    d
}

fn p01_make(r: &mut Rng) -> Value {
    let mut d = hostile_doc(r);
    match r.below(12) {
        10 | 11 => {
            mutate::words(&mut d, r);
            json!({ "doc": d })
        }
        0 => {
            let n = r.int(1, 12) as usize;
            mutate::soft(&mut d, r, n, 1e308);
            json!({ "doc": d })
        }
        1..=4 => {
            let n = r.int(1, 6) as usize;
            mutate::structural(&mut d, r, n);
            json!({ "doc": d })
        }
        5 | 6 => {
            let mut t = text::plain(&d).into_bytes();
            let n = r.int(1, 5) as usize;
            mutate::bytes(&mut t, r, n);
            bytes_case(&t)
        }
        7 => bytes_case(&mutate::soup(r)),
        8 => {
            mutate::unsupported(&mut d, r);
            json!({ "doc": d })
        }
        _ => {
            let n = r.int(1, 4) as usize;
            mutate::soft(&mut d, r, n, 1e308);
            mutate::structural(&mut d, r, 1);
            json!({"doc": d, "shuffle": r.int(0, 1 << 40)})
        }
    }
}

/// All loading entry points; a panic is the violation.
fn load_all(b: &[u8], obs: &mut Obs) -> Result<(bool, Option<Composition>), String> {
    let mut ok = vec![];
    let mut first = None;
    let mut note = |name: &str, r: Result<bool, String>| -> Result<(), String> {
        match r {
            Ok(x) => {
                ok.push(x);
                Ok(())
            }
            Err(m) => Err(format!("{name} {m}")),
        }
    };
    note(
        "Composition::from_slice",
        guard(|| {
            let c = Composition::from_slice(b).ok();
            let k = c.is_some();
            first = c;
            k
        }),
    )?;
    note(
        "Animation::from_slice",
        guard(|| Animation::from_slice(b).is_ok()),
    )?;
    if let Ok(t) = std::str::from_utf8(b) {
        note(
            "Composition::from_str",
            guard(|| Composition::from_str(t).is_ok()),
        )?;
        note(
            "Animation::from_str",
            guard(|| Animation::from_str(t).is_ok()),
        )?;
    }
    if let Ok(v) = serde_json::from_slice::<Value>(b) {
        obs.count("inputs that are JSON", 1);
        note(
            "Composition::from_json",
            guard(|| Composition::from_json(v.clone()).is_ok()),
        )?;
        note(
            "Animation::from_json",
            guard(|| Animation::from_json(v).is_ok()),
        )?;
    }
    Ok((ok[0], first))
}

fn p01_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let b = match c["shuffle"].as_u64() {
        Some(s) => text::shuffled(&c["doc"], &mut Rng::new(s)).into_bytes(),
        None => case_bytes(c),
    };
    let (ok, _) = load_all(&b, obs)?;
    obs.count(
        if ok {
            "loaded"
        } else {
            "rejected with an error"
        },
        1,
    );
    let h = b.iter().fold(7u64, |h, x| crate::obs::mix(h, *x as u64));
    obs.eval(h, true);
    Ok(())
}

fn p01_fixed() -> Vec<(String, Value)> {
    let mut v: Vec<(String, Value)> = vec![];
    for t in [
        "",
        " ",
        "null",
        "0",
        "\"",
        "{}",
        "[]",
        "[[[",
        "{\"layers\":[]}",
        "\u{feff}{}",
        "nul",
        "1e999",
        "-",
        "{\"a\":}",
        "{\"fr\":30,\"ip\":0,\"op\":9,\"w\":-1,\"h\":1,\"layers\":[]}",
        "{\"fr\":30,\"ip\":0,\"op\":9,\"w\":18446744073709551615,\"h\":1,\"layers\":[]}",
        "{\"fr\":30,\"ip\":0,\"op\":9,\"w\":18446744073709551616,\"h\":1,\"layers\":[]}",
        "{\"fr\":1e400,\"ip\":0,\"op\":9,\"w\":1,\"h\":1,\"layers\":[]}",
        "[30,0,9]",
    ] {
        v.push((format!("text {t:?}"), json!({ "text": t })));
    }
    v.push((
        "invalid utf-8".into(),
        json!({"hex": "7b226e6d223a22ff227d"}),
    ));
    for n in [
        1, 10, 40, 60, 63, 64, 120, 126, 127, 128, 200, 20_000, 200_000,
    ] {
        for s in ["groups", "metadata", "unknown", "top", "values"] {
            v.push((format!("{s} nested {n}"), json!({"nest": n, "style": s})));
        }
    }
    for n in [127, 128, 1_000_000] {
        for o in ["[", "{"] {
            for close in [true, false] {
                v.push((
                    format!("{o} x{n} {close}"),
                    json!({"raw_nest": n, "open": o, "close": close}),
                ));
            }
        }
    }
    // declared counts
    let mut add = |name: &str, d: Value| v.push((name.to_string(), json!({ "doc": d })));
    for n in [0u64, 1, 1000, 1 << 32, 1 << 62, u64::MAX] {
        let g = json!({"ty":"gf","o":fx(json!(100)),"s":fx(json!([0,0])),"e":fx(json!([9,9])),"t":1,
            "g":{"p":n,"k":fx(json!([0,1,0,0,1,0,1,0]))}});
        add(
            &format!("gradient count {n}"),
            doc1(json!([rect(0.0, 0.0, 5.0, 5.0), g.clone()])),
        );
        let mut g2 = g;
        g2["g"]["k"] = kf(json!([{"t":0,"s":[0,1,0,0,1,0,1,0]},{"t":9,"s":[]}]));
        add(
            &format!("keyframed gradient count {n}"),
            doc1(json!([rect(0.0, 0.0, 5.0, 5.0), g2])),
        );
    }
    for n in mutate::LARGE {
        for k in ["ind", "parent", "tp", "td"] {
            let mut d = docl(json!([
                layer(3, 1),
                shape_layer(2, json!([rect(0.0, 0.0, 5.0, 5.0), fill(1.0, 0.0, 0.0)])),
                shape_layer(3, json!([rect(0.0, 0.0, 5.0, 5.0), fill(0.0, 1.0, 0.0)]))
            ]));
            d["layers"][0][k] = json!(n);
            d["layers"][1][k] = json!(n);
            d["layers"][1]["tt"] = json!(1);
            add(&format!("layers whose {k} is {n}"), d);
        }
        for k in ["w", "h"] {
            let mut d = doc1(json!([rect(0.0, 0.0, 5.0, 5.0), fill(1.0, 0.0, 0.0)]));
            d[k] = json!(n);
            add(&format!("{k} is {n}"), d);
        }
    }
    for x in [1e18, -1e18, 1e300, 1e-300] {
        let mut s = star(5.0);
        s["pt"] = fx(json!(x));
        add(
            &format!("star points {x}"),
            doc1(json!([s, fill(1.0, 0.0, 0.0)])),
        );
    }
    for (name, k) in [
        ("no keyframes", json!([])),
        ("keyframe without values", json!([{"t":0,"s":[]}])),
        (
            "keyframe of one component",
            json!([{"t":0,"s":[1]},{"t":1,"s":[1,2,3,4]}]),
        ),
        (
            "keyframe handles empty",
            json!([{"t":0,"s":[1,2],"o":{"x":[],"y":[]},"i":{"x":[],"y":[]}},{"t":1,"s":[1,2]}]),
        ),
        (
            "keyframe handles of three",
            json!([{"t":0,"s":[1,2],"o":{"x":[1,2,3],"y":[1,2,3]},"i":{"x":[1,2,3],"y":[0,0,0]}},{"t":1,"s":[1,2]}]),
        ),
    ] {
        for p in ["p", "a", "s", "r", "o", "sk", "sa"] {
            let mut d = doc1(json!([rect(0.0, 0.0, 5.0, 5.0), fill(1.0, 0.0, 0.0)]));
            d["layers"][0]["ks"][p] = kf(k.clone());
            add(&format!("{name} in ks.{p}"), d);
            let mut t = tr();
            t[p] = kf(k.clone());
            add(
                &format!("{name} in tr.{p}"),
                doc1(json!([group(json!([
                    rect(0.0, 0.0, 5.0, 5.0),
                    fill(1.0, 0.0, 0.0),
                    t
                ]))])),
            );
        }
        let mut f = fill(1.0, 0.0, 0.0);
        f["c"] = kf(k.clone());
        add(
            &format!("{name} in a colour"),
            doc1(json!([rect(0.0, 0.0, 5.0, 5.0), f])),
        );
    }
    for (name, k) in [
        ("empty", json!([])),
        ("empty shapes", json!([{"t":0,"s":[]},{"t":1,"s":[]}])),
        ("no start at all", json!([{"t":0},{"t":1}])),
        ("only time", json!([{"t":0}])),
        (
            "vertex counts differ",
            json!([{"t":0,"s":[bez(json!([[0,0],[1,1]]),true)]},{"t":1,"s":[bez(json!([[0,0],[1,1],[2,2]]),false)]}]),
        ),
        (
            "several start shapes",
            json!([{"t":0,"s":[bez(json!([[0,0]]),true),bez(json!([]),true)],"e":[]},{"t":1}]),
        ),
    ] {
        let s = json!({"ty":"sh","ks":{"a":1,"k":k.clone()}});
        add(
            &format!("path keyframes {name}"),
            doc1(json!([s, fill(1.0, 0.0, 0.0)])),
        );
        let mut d = doc1(json!([rect(0.0, 0.0, 5.0, 5.0), fill(1.0, 0.0, 0.0)]));
        d["layers"][0]["masksProperties"] = json!([{"mode":"a","pt":{"a":1,"k":k}}]);
        add(&format!("mask keyframes {name}"), d);
    }
    for bm in 0..20 {
        let mut d = doc1(json!([rect(0.0, 0.0, 5.0, 5.0), fill(1.0, 0.0, 0.0)]));
        d["layers"][0]["bm"] = json!(bm);
        add(&format!("blend mode {bm}"), d);
    }
    for rot in [
        json!({"x":{"k":1},"y":{"k":2},"z":{"k":3},"or":{"k":[0,0,0]}}),
        Value::Null,
        json!({"a":1,"k":[]}),
    ] {
        let mut d = doc1(json!([rect(0.0, 0.0, 5.0, 5.0), fill(1.0, 0.0, 0.0)]));
        d["layers"][0]["ks"]["r"] = rot.clone();
        add(&format!("rotation {rot}"), d);
        let mut t = tr();
        t["r"] = rot.clone();
        add(
            &format!("group rotation {rot}"),
            doc1(json!([group(json!([rect(0.0, 0.0, 5.0, 5.0), t]))])),
        );
    }
    let mut t = tr();
    t["p"] = json!({"s":true,"x":{"k":1},"y":{"k":2}});
    add(
        "split position in a group",
        doc1(json!([group(json!([rect(0.0, 0.0, 5.0, 5.0), t]))])),
    );
    let mut d = doc1(json!([]));
    d["assets"] =
        json!([{"id":"i","w":1,"h":1,"p":"x.png","u":"","e":0}, {"id":"j","w":1,"p":"x"}]);
    add("image asset", d);
    let mut d = doc1(json!([]));
    d["assets"] = json!([{"id":"i","w":1,"h":1,"p":"x.png","t":"seq"}]);
    add("image sequence asset", d);
    let mut d = doc1(json!([]));
    d["layers"] = json!([layer(2, 1), layer(3, 2), layer(1, 3)]);
    d["layers"][0]["refId"] = json!("i");
    d["layers"][2]["sw"] = json!(1);
    d["layers"][2]["sh"] = json!(1);
    d["layers"][2]["sc"] = json!("#zzz");
    add("image, null and solid layers", d);
    for k in 0..24 {
        let mut r = Rng::new(k);
        let mut d = doc1(json!([rect(0.0, 0.0, 5.0, 5.0), fill(1.0, 0.0, 0.0)]));
        mutate::unsupported(&mut d, &mut r);
        add(&format!("unsupported {k}"), d);
    }
    v
}

pub fn star(n: f64) -> Value {
    json!({"ty":"sr","sy":1,"p":fx(json!([0,0])),"or":fx(json!(50)),"os":fx(json!(30)),"r":fx(json!(0)),
        "pt":fx(json!(n)),"ir":fx(json!(20)),"is":fx(json!(10))})
}

// ------------------------------------------------------------------ P05 ----

/// Debug text of everything in a composition, independent of map order.
pub fn dump(c: &Composition) -> String {
    let assets: BTreeMap<&String, _> = c.assets.iter().collect();
    format!(
        "{:?} {:?} {} {} {:?} {:?}",
        c.frames, c.frame_rate, c.width, c.height, c.layers, assets
    )
}

fn dup_keys(t: &str) -> bool {
    // a parsed value prints as many members as the text has, unless keys repeat
    struct C(usize);
    impl<'de> serde::de::Visitor<'de> for &mut C {
        type Value = ();
        fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "json")
        }
        fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
            let mut seen = std::collections::HashSet::new();
            while let Some(k) = a.next_key::<String>()? {
                if !seen.insert(k) {
                    self.0 += 1;
                }
                a.next_value_seed(S(self))?;
            }
            Ok(())
        }
        fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
            while a.next_element_seed(S(self))?.is_some() {}
            Ok(())
        }
        fn visit_unit<E>(self) -> Result<(), E> {
            Ok(())
        }
        fn visit_bool<E>(self, _: bool) -> Result<(), E> {
            Ok(())
        }
        fn visit_u64<E>(self, _: u64) -> Result<(), E> {
            Ok(())
        }
        fn visit_i64<E>(self, _: i64) -> Result<(), E> {
            Ok(())
        }
        fn visit_f64<E>(self, _: f64) -> Result<(), E> {
            Ok(())
        }
        fn visit_str<E>(self, _: &str) -> Result<(), E> {
            Ok(())
        }
    }
    struct S<'a>(&'a mut C);
    impl<'de> serde::de::DeserializeSeed<'de> for S<'_> {
        type Value = ();
        fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
            d.deserialize_any(self.0)
        }
    }
    let mut c = C(0);
    let mut d = serde_json::Deserializer::from_str(t);
    use serde::de::DeserializeSeed;
    S(&mut c).deserialize(&mut d).is_ok() && c.0 > 0
}

fn p05_make(r: &mut Rng) -> Value {
    let mut d = hostile_doc(r);
    match r.below(6) {
        0 => mutate::structural(&mut d, r, 1),
        1 => {
            let n = r.int(1, 8) as usize;
            mutate::soft(&mut d, r, n, 1e300);
        }
        2 => mutate::unsupported(&mut d, r),
        _ => {}
    }
    if d.is_object() {
        for s in schema::sites(&d.clone()) {
            if r.chance(0.1)
                && let Some(o) = d.pointer_mut(&s.ptr).and_then(|v| v.as_object_mut())
            {
                o.insert(format!("zz{}", r.below(9)), schema::anything(r));
            }
        }
    }
    let mut t = text::shuffled(&d, r);
    if r.chance(0.2) {
        // other spellings of the same numbers
        t = t
            .replace(":100,", ":1e2,")
            .replace(":0,", ":-0.0,")
            .replace("[0,", "[0.0E+1,");
    }
    if r.chance(0.1) {
        // other spellings of the same strings
        for k in ["layers", "ty", "ks", "nm", "shapes", "k", "refId"] {
            if r.chance(0.3) {
                let c = k.chars().next().unwrap() as u32;
                t = t.replace(&format!("\"{k}\""), &format!("\"\\u{c:04x}{}\"", &k[1..]));
            }
        }
    }
    if r.chance(0.15) {
        // something before or after the document, or both
        const AROUND: &[&str] = &[
            "\u{feff}",
            " ",
            "\n\r\t ",
            "\u{a0}",
            "\u{b}",
            "\u{c}",
            "\0",
            "\u{85}",
            "\u{2028}",
            "\u{200b}",
            "//x\n",
            "/**/",
            "#",
            ",",
            ";",
            "{}",
            "[]",
            "null",
            "0",
            "\"\"",
            ")]}'\n",
            "}",
            "]",
            "\u{1a}",
            "\u{1b}",
            "callback(",
            ")",
            "x",
            "\u{3000}",
            "'",
        ];
        let a = if r.chance(0.5) { *r.pick(AROUND) } else { "" };
        let b = if r.chance(0.6) { *r.pick(AROUND) } else { "" };
        t = format!("{a}{t}{b}");
    }
    if r.chance(0.02) {
        t = t.replacen(
            '{',
            &format!(
                "{{\"zzlong\":\"{}\",",
                "\u{e9}y".repeat(r.int(1000, 60000) as usize)
            ),
            1,
        );
    }
    let frames: Vec<Value> = docgen::frames(&d, r, 2).into_iter().map(enc).collect();
    if r.chance(0.06) {
        // a sound document, one of whose strings is not UTF-8
        let sound = docgen::doc(r, &Profile::full());
        if let Some(b) = broken_string(&sound, r) {
            return json!({"hex": hex(&b), "broken": true, "frames": frames});
        }
    }
    if r.chance(0.15) {
        let mut b = t.into_bytes();
        let n = r.int(1, 2) as usize;
        mutate::bytes(&mut b, r, n);
        match String::from_utf8(b) {
            Ok(t) => json!({"text": t, "frames": frames}),
            Err(e) => json!({"hex": hex(e.as_bytes()), "frames": frames}),
        }
    } else {
        json!({"text": t, "frames": frames})
    }
}

/// The text of a document, with bytes that are not UTF-8 inside a string that loading reads: a
/// name or reference of a layer, or the identifier of an asset.
fn broken_string(d: &Value, r: &mut Rng) -> Option<Vec<u8>> {
    let mut spots: Vec<String> = vec![];
    for (list, keys) in [
        ("layers", &["nm", "refId"][..]),
        ("assets", &["id", "nm"][..]),
    ] {
        for i in 0..d[list].as_array().map_or(0, |a| a.len()) {
            for k in keys {
                if d[list][i][k].is_string()
                    && (list == "layers" || d[list][i]["layers"].is_array())
                {
                    spots.push(format!("/{list}/{i}/{k}"));
                }
            }
        }
    }
    if spots.is_empty() {
        return None;
    }
    const BAD: &[&[u8]] = &[
        b"\xff",
        b"\x80",
        b"\xc3",
        b"\xc0\xaf",
        b"\xe5\x9b",
        b"\xed\xa0\x80",
        b"\xf0\x9f\x98",
        b"\xf4\x90\x80\x80",
        b"caf\xe9",
    ];
    let mut d = d.clone();
    *d.pointer_mut(r.pick(&spots)).unwrap() = json!("a@@b");
    let t = text::plain(&d);
    let at = t.find("@@")?;
    Some([&t.as_bytes()[..at], *r.pick(BAD), &t.as_bytes()[at + 2..]].concat())
}

fn p05_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let b = case_bytes(c);
    let Ok(t) = std::str::from_utf8(&b) else {
        let comp = guard(|| Composition::from_slice(&b).is_ok())?;
        let owned = guard(|| Composition::from_slice(b.clone()).is_ok())?;
        let tree = guard(|| Animation::from_slice(&b).is_ok())?;
        if comp != tree || comp != owned {
            return Err(format!(
                "entry points disagree whether bytes that are not UTF-8 load: Composition::from_slice {comp}, with a \
Vec {owned}, Animation::from_slice {tree}"
            ));
        }
        if c["broken"] == true {
            obs.count("a string of the document is not UTF-8", 1);
            if comp {
                return Err("a document with a name or identifier that is not UTF-8 loads".into());
            }
            obs.eval(
                b.iter().fold(7u64, |h, x| crate::obs::mix(h, *x as u64)),
                true,
            );
        } else {
            obs.count("not UTF-8 elsewhere", 1);
        }
        return Ok(());
    };
    if dup_keys(t) {
        obs.count("repeated keys (outside the property)", 1);
        return Ok(());
    }
    let slice = guard(|| Composition::from_slice(&b))?.map_err(|e| e.to_string());
    let st = guard(|| Composition::from_str(t))?.map_err(|e| e.to_string());
    let owned = guard(|| Composition::from_slice(t.to_string()))?.map_err(|e| e.to_string());
    let val = match serde_json::from_str::<Value>(t) {
        Ok(v) => guard(|| Composition::from_json(v))?.map_err(|e| e.to_string()),
        Err(e) => Err(e.to_string()),
    };
    let tree = guard(|| Animation::from_slice(&b).is_ok())?;
    let tree2 = guard(|| Animation::from_str(t).is_ok())?;
    let oks = [
        slice.is_ok(),
        st.is_ok(),
        owned.is_ok(),
        val.is_ok(),
        tree,
        tree2,
    ];
    if oks.iter().any(|x| *x != oks[0]) {
        return Err(format!(
            "entry points disagree whether the input loads: from_slice {:?}, from_str {:?}, from_slice(String) {:?}, \
from_json {:?}, document model from_slice {tree}, from_str {tree2}",
            slice.err(),
            st.err(),
            owned.err(),
            val.err()
        ));
    }
    let (Ok(a), Ok(s), Ok(o), Ok(v)) = (slice, st, owned, val) else {
        obs.count("rejected by every entry point", 1);
        obs.eval(hash_str(t), true);
        return Ok(());
    };
    obs.count("loaded by every entry point", 1);
    let d = dump(&a);
    for (name, x) in [
        ("from_str", &s),
        ("from_slice(String)", &o),
        ("from_json", &v),
    ] {
        let e = dump(x);
        if e != d {
            let at = d.bytes().zip(e.bytes()).take_while(|(x, y)| x == y).count();
            let lo = d.floor_char_boundary(at.saturating_sub(80));
            let f = |s: &str| {
                s[s.floor_char_boundary(lo)..]
                    .chars()
                    .take(200)
                    .collect::<String>()
            };
            return Err(format!(
                "{name} loads another animation than from_slice: ...{} versus ...{}",
                f(&e),
                f(&d)
            ));
        }
    }
    let huge = serde_json::from_str::<Value>(t).is_ok_and(|v| mutate::biggest(&v) > 1e6);
    if huge {
        obs.count("not rendered, because of numbers beyond 1e6", 1);
    }
    for f in frames_of(c).into_iter().filter(|_| !huge) {
        let want = guard(|| render(&a, f, crate::refm::ID, 1.0));
        let Ok(Ok(want)) = want else { continue };
        for (name, x) in [("from_str", &s), ("from_json", &v)] {
            let got = render(x, f, crate::refm::ID, 1.0)?;
            same_events(&got, &want)
                .map_err(|m| format!("{name} versus from_slice at frame {f}: {m}"))?;
        }
        obs.events(&want);
    }
    obs.eval(hash_str(t), true);
    Ok(())
}

/// Exact equality of logs (not-a-number equals itself).
pub fn same_events(a: &[Ev], b: &[Ev]) -> Result<(), String> {
    if a.len() != b.len() {
        return Err(format!(
            "{} calls instead of {}\n{}\n---\n{}",
            a.len(),
            b.len(),
            cmp::show(a),
            cmp::show(b)
        ));
    }
    if a == b {
        return Ok(());
    }
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            let (p, q) = (format!("{x:?}"), format!("{y:?}"));
            if p != q {
                return Err(format!("call {i} is {p} instead of {q}"));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P06 ----

fn p06_make(r: &mut Rng) -> Value {
    let mut p = Profile::full();
    p.layers = (1, 3);
    p.modifier = 0.4;
    p.deco = 0.3;
    p.meta = 0.0;
    let mut d = docgen::doc(r, &p);
    let q = *r.pick(&[0.05, 0.3, 0.8]);
    schema::enrich(&mut d, r, q, |_, _| true);
    if r.chance(0.3) {
        // deprecated end values and tangents on vector keyframes
        for s in schema::sites(&d.clone()) {
            if s.kind == K::PosKeyframe && r.chance(0.5) {
                let k = d.pointer_mut(&s.ptr).unwrap();
                k["ti"] = json!([r.nice(-5.0, 5.0), 1.25]);
                k["to"] = json!([r.nice(-5.0, 5.0), 0]);
            }
        }
    }
    if r.chance(0.4) {
        let q = *r.pick(&[0.1, 0.5]);
        mutate::precise(&mut d, r, q);
    }
    case_for(r, schema::recognised(&d, K::Animation), 2)
}

fn p06_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let doc = &c["doc"];
    let t = text::plain(doc);
    let m = match guard(|| Animation::from_str(&t))? {
        Ok(m) => m,
        Err(e) => return Err(format!("a valid document was rejected: {e}")),
    };
    let out =
        guard(|| serde_json::to_value(&m))?.map_err(|e| format!("serialising failed: {e}"))?;
    let want = schema::recognised(doc, K::Animation);
    if let Some(d) = schema::diff(&want, &out, "") {
        return Err(format!("serialising the document model: {d}"));
    }
    let shown = guard(|| m.to_string())?;
    let shown_v: Value = serde_json::from_str(&shown)
        .map_err(|e| format!("the displayed text is not JSON: {e}: {shown}"))?;
    if let Some(d) = schema::diff(&want, &shown_v, "") {
        return Err(format!("displaying the document model: {d}"));
    }
    let strs =
        guard(|| serde_json::to_string(&m))?.map_err(|e| format!("serialising failed: {e}"))?;
    for (name, again) in [
        ("the displayed text", guard(|| Animation::from_str(&shown))?),
        (
            "the serialised text",
            guard(|| Animation::from_slice(strs.as_bytes()))?,
        ),
        (
            "the serialised value",
            guard(|| Animation::from_json(out.clone()))?,
        ),
    ] {
        let again = again.map_err(|e| format!("{name} does not parse again: {e}"))?;
        if again != m {
            return Err(format!("{name} parses to another document model"));
        }
    }
    let a = load_text(&t)?;
    let b = guard(|| Composition::from_str(&shown))?
        .map_err(|e| format!("the displayed text does not load: {e}"))?;
    if dump(&a) != dump(&b) {
        return Err("the displayed text loads as another animation".into());
    }
    for f in frames_of(c) {
        let x = render(&a, f, tf_of(c), alpha_of(c))?;
        let y = render(&b, f, tf_of(c), alpha_of(c))?;
        same_events(&y, &x)
            .map_err(|m| format!("drawn from the displayed text at frame {f}: {m}"))?;
        obs.events(&x);
    }
    obs.count(
        "recognised objects compared",
        schema::sites(doc).len() as u64,
    );
    obs.eval(hash_str(&t), true);
    Ok(())
}

/// A document with every kind of object, and optional fields with probability `p`.
fn every_object(k: u64, p: f64) -> Value {
    let mut r = Rng::new(k);
    let items = json!([
        rect(0.0, 0.0, 5.0, 5.0),
        {"ty":"el","p":fx(json!([1,2])),"s":fx(json!([3,4]))},
        star(5.0),
        sh(json!([[0,0],[9,0],[9,9]]), true),
        fill(1.0, 0.5, 0.0),
        {"ty":"st","c":fx(json!([1,0,0])),"o":fx(json!(50)),"w":fx(json!(3))},
        {"ty":"gf","o":fx(json!(100)),"s":fx(json!([0,0])),"e":fx(json!([9,9])),"g":{"p":2,"k":fx(json!([0,1,0,0,1,0,1,0]))}},
        {"ty":"gs","o":fx(json!(100)),"w":fx(json!(2)),"s":fx(json!([0,0])),"e":fx(json!([9,9])),"g":{"p":2,"k":fx(json!([0,1,0,0,1,0,1,0]))}},
        {"ty":"tm","s":fx(json!(0)),"e":fx(json!(90)),"o":fx(json!(0))},
        {"ty":"rd","r":fx(json!(0))},
        {"ty":"pb"}, {"ty":"op"}, {"ty":"mm"},
        {"ty":"tw","a":fx(json!(0)),"p":fx(json!([0,0]))},
        {"ty":"rp","c":fx(json!(2)),"tr":{"p":fx(json!([5,5]))}},
        tr(),
    ]);
    let mut d = docl(json!([
        shape_layer(1, json!([group(items)])),
        layer(0, 2),
        layer(1, 3),
        layer(2, 4),
        layer(3, 5)
    ]));
    let l = d["layers"].as_array_mut().unwrap();
    for (k, x) in [("refId", json!("a")), ("w", json!(5)), ("h", json!(6))] {
        l[1][k] = x;
    }
    for (k, x) in [
        ("sw", json!(5.5)),
        ("sh", json!(6)),
        ("sc", json!("#aabbcc")),
    ] {
        l[2][k] = x;
    }
    l[3]["refId"] = json!("i");
    for x in l.iter_mut().skip(1) {
        x["ks"]["r"] = json!({"x":{"k":1},"y":{"a":0,"k":2},"z":{"k":3},"or":{"k":[1,2,3]}});
        x["ks"]["p"] = json!({"s": k % 2 == 0,"x":{"k":1},"y":{"a":0,"k":2.5},"z":{"k":3}});
    }
    d["assets"] = json!([{"id":"a","layers":[layer(3, 1)]},{"id":"i","w":3,"h":4.5,"p":"data:x"},{"id":"q","h":4.5,"p":"y"}]);
    schema::enrich(&mut d, &mut r, p, |_, _| true);
    schema::enrich(&mut d, &mut r, p, |_, _| true);
    schema::recognised(&d, K::Animation)
}

fn p06_fixed() -> Vec<(String, Value)> {
    // every kind of object with every optional field
    (0..12u64)
        .map(|k| {
            let p = if k == 0 {
                0.0
            } else if k == 1 {
                1.0
            } else {
                0.5
            };
            (
                format!("every-object-{k}"),
                json!({"doc": every_object(k, p), "frames": [0, 3]}),
            )
        })
        .collect()
}

// ------------------------------------------------------------------ P07 ----

/// One fault. Returns what was done, the asset it lies in, and a text its error must contain.
fn fault(doc: &mut Value, r: &mut Rng) -> Option<(String, Option<String>, Option<String>)> {
    let sites = schema::sites(doc);
    let kf: Vec<&schema::Site> = sites.iter().filter(|s| s.kind == K::PathKeyframe).collect();
    let s = if !kf.is_empty() && r.chance(0.1) {
        *r.pick(&kf)
    } else {
        r.pick(&sites)
    };
    let (ptr, kind) = (s.ptr.clone(), s.kind);
    let snap = doc.pointer(&ptr).unwrap().clone();
    let asset = ptr
        .strip_prefix("/assets/")
        .and_then(|p| p.split('/').next())
        .and_then(|i| doc["assets"][i.parse::<usize>().unwrap()]["id"].as_str())
        .map(String::from);
    let fs = schema::fields(kind, &snap);
    let direct = matches!(kind, K::Layer | K::Shape | K::Transform | K::Animation)
        || (kind == K::Asset && snap.get("layers").is_some());
    if kind == K::PathKeyframe && r.chance(0.7) {
        // dropping the start shape is a fault unless it is the last keyframe of several
        let (list, i) = ptr.rsplit_once('/').unwrap();
        let a = doc.pointer(list).unwrap().as_array().unwrap();
        let i: usize = i.parse().unwrap();
        if i + 1 == a.len() && a.len() > 1 {
            return None;
        }
        doc.pointer_mut(&ptr)
            .unwrap()
            .as_object_mut()
            .unwrap()
            .remove("s")?;
        return Some((format!("{ptr}: start shape removed"), asset, None));
    }
    if matches!(kind, K::Layer | K::Shape) && r.chance(0.2) {
        let o = doc.pointer_mut(&ptr).unwrap().as_object_mut().unwrap();
        if !o.contains_key("ty") {
            return None;
        }
        let bad = if kind == K::Layer {
            r.pick(&[
                json!(5),
                json!(6),
                json!(13),
                json!(99),
                json!(-1),
                json!("4"),
                json!(null),
                json!(true),
            ])
            .clone()
        } else {
            r.pick(&[
                json!("zz"),
                json!("xx"),
                json!(""),
                json!("GR"),
                // inside a group the small numbers name kinds by position: the
                // known finding shape-type-as-number
                json!(99),
                json!(null),
                json!({}),
            ])
            .clone()
        };
        if r.chance(0.2) {
            o.remove("ty");
            return Some((format!("{ptr}: ty removed"), asset, None));
        }
        o.insert("ty".into(), bad.clone());
        return Some((format!("{ptr}: ty {bad}"), asset, None));
    }
    let f = r.pick(&fs);
    let o = doc.pointer_mut(&ptr).unwrap().as_object_mut().unwrap();
    if f.req && r.chance(0.5) {
        o.remove(f.k)?;
        let named = (direct && f.k != "id" && !(matches!(kind, K::Asset) && f.k == "layers"))
            .then(|| format!("`{}`", f.k));
        let asset = if f.k == "id" && kind == K::Asset {
            None
        } else {
            asset
        };
        return Some((format!("{ptr}: required {} removed", f.k), asset, named));
    }
    if f.k == "metadata" {
        return None;
    }
    let w = schema::wrong(f.t, f.req, r)?;
    let asset = if f.k == "id" && kind == K::Asset {
        None
    } else {
        asset
    };
    o.insert(f.k.into(), w.clone());
    Some((
        format!("{ptr}: {} of type {:?} set to {w}", f.k, f.t),
        asset,
        None,
    ))
}

fn p07_make(r: &mut Rng) -> Value {
    let mut p = Profile::full();
    p.layers = (1, 2);
    p.assets = (1, 2);
    p.asset_layers = (1, 2);
    p.shapes = (1, 3);
    p.modifier = 0.3;
    p.deco = 0.3;
    p.path_anim = 0.5;
    let mut d = docgen::doc(r, &p);
    if r.chance(0.4) {
        schema::enrich(&mut d, r, 0.2, |_, _| true);
    }
    if r.chance(0.1) {
        let t = text::shuffled(&d, r);
        let t = if r.chance(0.7) {
            let mut end = r.below(t.trim_end().len());
            while !t.is_char_boundary(end) {
                end -= 1;
            }
            t[..end].to_string()
        } else {
            format!("{t}{}", r.pick(&["}", "x", "{}", ",", "\"", "0", "null"]))
        };
        return json!({"good": d, "text": t, "what": "not a JSON text"});
    }
    for _ in 0..50 {
        let mut b = d.clone();
        if let Some((what, asset, named)) = fault(&mut b, r) {
            return json!({"good": d, "doc": b, "what": what, "asset": asset, "named": named, "shuffle": r.int(0, 1 << 40)});
        }
    }
    json!({"good": d, "text": "", "what": "empty"})
}

/// What is wrong with an asset read by itself.
#[cfg(feature = "model")]
fn asset_error(a: Value) -> Option<String> {
    if a.get("layers").is_some() {
        serde_json::from_value::<velato::schema::assets::precomposition::Precomposition>(a)
            .err()
            .map(|e| e.to_string())
    } else if a.get("w").is_some() || a.get("h").is_some() {
        serde_json::from_value::<velato::schema::assets::image::Image>(a)
            .err()
            .map(|e| e.to_string())
    } else {
        None
    }
}

#[cfg(not(feature = "model"))]
fn asset_error(_: Value) -> Option<String> {
    None
}

fn p07_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let what = c["what"].as_str().unwrap_or("");
    if let Some(n) = c["base"].as_u64() {
        let mut c = c.clone();
        let mut d = every_object_base(n);
        let o = d
            .pointer_mut(c["at"].as_str().unwrap())
            .unwrap()
            .as_object_mut()
            .unwrap();
        let key = c["key"].as_str().unwrap();
        if c["remove"] == json!(true) {
            o.remove(key);
        } else {
            o.insert(key.into(), c["set"].clone());
        }
        c.as_object_mut().unwrap().remove("base");
        c["doc"] = d;
        return p07_check(&c, obs);
    }
    // the document is accepted without the fault
    if !c["good"].is_null() {
        load(&c["good"])?;
    }
    let t = match c["text"].as_str() {
        Some(t) => t.to_string(),
        None => match c["shuffle"].as_u64() {
            Some(s) => text::shuffled(&c["doc"], &mut Rng::new(s)),
            None => text::plain(&c["doc"]),
        },
    };
    let mut errs: Vec<(&str, String)> = vec![];
    let mut take = |name, r: Result<String, ()>| match r {
        Ok(e) => {
            errs.push((name, e));
            Ok(())
        }
        Err(()) => Err(format!("{name} loads a document with a fault ({what})")),
    };
    fn e<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<String, ()> {
        match r {
            Ok(_) => Err(()),
            Err(e) => Ok(e.to_string()),
        }
    }
    take(
        "Composition::from_slice",
        e(guard(|| Composition::from_slice(t.as_bytes()))?),
    )?;
    take(
        "Composition::from_str",
        e(guard(|| Composition::from_str(&t))?),
    )?;
    take(
        "Animation::from_slice",
        e(guard(|| Animation::from_slice(t.as_bytes()))?),
    )?;
    take("Animation::from_str", e(guard(|| Animation::from_str(&t))?))?;
    if let Ok(v) = serde_json::from_str::<Value>(&t) {
        take(
            "Composition::from_json",
            e(guard(|| Composition::from_json(v.clone()))?),
        )?;
        take(
            "Animation::from_json",
            e(guard(|| Animation::from_json(v))?),
        )?;
    }
    for (name, m) in &errs {
        if m.trim().is_empty() {
            return Err(format!("{name}: empty error message ({what})"));
        }
        if let Some(id) = c["asset"].as_str() {
            let q = format!("{id:?}");
            if !m.contains(id) && !m.contains(&q[1..q.len() - 1]) {
                return Err(format!(
                    "{name}: the error does not name asset {id:?} ({what}): {m}"
                ));
            }
            // the cause, as reported when the asset is read by itself
            let i: usize = c["doc"]["assets"]
                .as_array()
                .and_then(|a| a.iter().position(|x| x["id"].as_str() == Some(id)))
                .unwrap();
            let a = c["doc"]["assets"][i].clone();
            let cause = asset_error(a);
            if let Some(cause) = cause {
                obs.count("asset errors with their cause compared", 1);
                if !m.contains(&cause) {
                    return Err(format!(
                        "{name}: the error does not give the cause {cause:?} ({what}): {m}"
                    ));
                }
            }
        }
        if let Some(n) = c["named"].as_str()
            && !m.contains(n)
        {
            return Err(format!(
                "{name}: the error does not name the missing field {n} ({what}): {m}"
            ));
        }
    }
    obs.count("faulty documents rejected", 1);
    if c["asset"].is_string() {
        obs.count("errors naming their asset", 1);
    }
    obs.eval(hash_str(&t), true);
    Ok(())
}

const MOVED_ID: &str = "inner \"z\"";

/// The rich document with few (0, 1) or all (2, 3) optional fields; odd: its layers are in an asset.
fn every_object_base(n: u64) -> Value {
    let mut d = every_object(n / 2, (n / 2) as f64);
    if n % 2 == 1 {
        let layers = d["layers"].take();
        d["layers"] = json!([]);
        d["assets"]
            .as_array_mut()
            .unwrap()
            .push(json!({"id": MOVED_ID, "layers": layers}));
    }
    d
}

fn p07_fixed() -> Vec<(String, Value)> {
    let mut v = vec![];
    let good = || {
        let mut d = doc1(json!([rect(0.0, 0.0, 5.0, 5.0), fill(1.0, 0.0, 0.0)]));
        d["assets"] = json!([{"id":"comp \"x\"","layers":[shape_layer(1, json!([rect(0.0,0.0,1.0,1.0)]))]},
            {"id":"pic","w":4,"h":4,"p":"x.png"}]);
        d
    };
    let mut add = |name: &str, f: &dyn Fn(&mut Value), asset: Option<&str>| {
        let mut d = good();
        f(&mut d);
        v.push((
            name.to_string(),
            json!({"good": good(), "doc": d, "what": name, "asset": asset}),
        ));
    };
    add(
        "asset layer of unknown kind",
        &|d| d["assets"][0]["layers"][0]["ty"] = json!(42),
        Some("comp \"x\""),
    );
    add(
        "shape-type-as-number",
        &|d| {
            d["assets"][0]["layers"][0]["shapes"][0] = json!({"ty": "gr", "it": [{
                "ty": 7, "c": {"a": 0, "k": 3}, "o": {"a": 0, "k": 0}, "m": 1,
                "tr": {"ty": "tr", "a": {"a": 0, "k": [0, 0]}, "p": {"a": 0, "k": [1, 0]},
                    "s": {"a": 0, "k": [100, 100]}, "r": {"a": 0, "k": 0},
                    "so": {"a": 0, "k": 100}, "eo": {"a": 0, "k": 100}}}]})
        },
        Some("comp \"x\""),
    );
    add(
        "asset layer without transform",
        &|d| {
            d["assets"][0]["layers"][0]
                .as_object_mut()
                .unwrap()
                .remove("ks");
        },
        Some("comp \"x\""),
    );
    add(
        "image without file",
        &|d| {
            d["assets"][1].as_object_mut().unwrap().remove("p");
        },
        Some("pic"),
    );
    add(
        "image width text",
        &|d| d["assets"][1]["w"] = json!("4"),
        Some("pic"),
    );
    add(
        "image sequence number",
        &|d| d["assets"][1]["t"] = json!(2),
        Some("pic"),
    );
    add(
        "data source",
        &|d| d["assets"][1] = json!({"id":"pic","t":3,"p":"x"}),
        Some("pic"),
    );
    add(
        "sound",
        &|d| d["assets"][1] = json!({"id":"pic","t":2,"p":"x.mp3"}),
        Some("pic"),
    );
    add(
        "asset without id",
        &|d| d["assets"][0] = json!({"layers":[]}),
        None,
    );
    add("layers null", &|d| d["layers"] = Value::Null, None);
    for ty in [5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 255, 256] {
        add(
            &format!("layer type {ty}"),
            &|d| d["layers"][0]["ty"] = json!(ty),
            None,
        );
    }
    let b = || bez(json!([[0, 0], [1, 1]]), true);
    for (name, ks) in [
        (
            "path start missing first",
            json!([{"t":0},{"t":5,"s":[b()]}]),
        ),
        (
            "path start missing in the middle",
            json!([{"t":0,"s":[b()]},{"t":5},{"t":9,"s":[b()]}]),
        ),
        (
            "path single keyframe without start",
            json!([{"t":0,"e":[b()]}]),
        ),
        (
            "path start missing twice",
            json!([{"t":0,"s":[b()]},{"t":5},{"t":9}]),
        ),
    ] {
        add(
            name,
            &|d| d["layers"][0]["shapes"][0] = json!({"ty":"sh","ks":{"a":1,"k":ks}}),
            None,
        );
        add(
            &format!("{name} (mask)"),
            &|d| {
                d["layers"][0]["masksProperties"] = json!([{"mode":"a","pt":{"a":1,"k":ks}}]);
            },
            None,
        );
        add(
            &format!("{name} (asset)"),
            &|d| {
                d["assets"][0]["layers"][0]["shapes"][0] =
                    json!({"ty":"gr","it":[{"ty":"sh","ks":{"a":1,"k":ks}}]});
            },
            Some("comp \"x\""),
        );
    }
    // every field of every object of a document with every kind of object: once without it
    // if it is required, and once with each kind of wrong value
    for n in 0..4u64 {
        let good = every_object_base(n);
        // at the first one or two objects of each kind
        let mut seen: std::collections::HashMap<String, usize> = Default::default();
        for s in schema::sites(&good) {
            if n % 2 == 1 && !s.ptr.starts_with("/assets/3/layers/") {
                continue;
            }
            let obj = good.pointer(&s.ptr).unwrap();
            let times = seen
                .entry(format!("{:?} {}", s.kind, obj["ty"]))
                .or_default();
            *times += 1;
            if *times > 2 - n as usize / 2 {
                continue;
            }
            for f in schema::fields(s.kind, obj) {
                if f.t == T::Any || (s.kind == K::Asset && f.k == "layers") {
                    continue;
                }
                let mut to: Vec<Option<Value>> =
                    schema::wrongs(f.t, f.req).into_iter().map(Some).collect();
                if f.req {
                    to.push(None);
                }
                for w in to {
                    let what = match &w {
                        Some(w) => format!("{} {} = {w}", s.ptr, f.k),
                        None => format!("{} without {}", s.ptr, f.k),
                    };
                    let asset = (n % 2 == 1).then_some(MOVED_ID);
                    v.push((
                        format!("{n} {what}"),
                        json!({"base": n, "at": s.ptr, "key": f.k, "set": w, "remove": w.is_none(),
                            "what": what, "asset": asset}),
                    ));
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ P08 ----

fn p08_make(r: &mut Rng) -> Value {
    let mut p = Profile::full();
    p.layers = (1, 3);
    p.modifier = 0.0;
    p.meta = 0.0;
    let d = docgen::doc(r, &p);
    let mut e = d.clone();
    let kinds: Vec<bool> = (0..4).map(|_| r.chance(0.7)).collect();
    let q = *r.pick(&[0.05, 0.3, 1.0]);
    if kinds[0] {
        for s in schema::sites(&d) {
            if r.chance(q) {
                let key = format!(
                    "{}{}",
                    r.pick(&["zz", "Ef", "_", "x-", "é", "$"]),
                    r.below(30)
                );
                let v = schema::anything(r);
                let o = e.pointer_mut(&s.ptr).unwrap().as_object_mut().unwrap();
                o.insert(key, v);
            }
        }
    }
    if kinds[1] {
        // data for editors
        schema::enrich(&mut e, r, q, |k, f| {
            matches!(
                (k, f),
                (_, "mn" | "cl" | "ln" | "tg" | "np" | "cix")
                    | (
                        K::Shape
                            | K::Mask
                            | K::Dash
                            | K::Asset
                            | K::Animation
                            | K::RepeaterTransform,
                        "nm"
                    )
                    | (
                        K::Scalar | K::Vector | K::Color | K::Position | K::Path,
                        "ix" | "x" | "l" | "sid"
                    )
                    | (K::Shape, "ix" | "ind")
                    | (
                        K::Animation,
                        "markers" | "meta" | "metadata" | "v" | "ver" | "ddd"
                    )
                    | (K::Asset, "fr" | "xt")
            )
        });
    }
    if kinds[2] {
        // modifiers that are not drawn
        let mut lists = vec![];
        for s in schema::sites(&e) {
            let v = e.pointer(&s.ptr).unwrap();
            if s.kind == K::Layer && v["shapes"].is_array() {
                lists.push(format!("{}/shapes", s.ptr));
            } else if s.kind == K::Shape && v["it"].is_array() {
                lists.push(format!("{}/it", s.ptr));
            }
        }
        // innermost first, so that the positions stay valid
        lists.sort_by_key(|p| std::cmp::Reverse(p.len()));
        let pr = Profile {
            anim: 0.3,
            ..Profile::default()
        };
        for l in lists {
            if !r.chance(0.5) {
                continue;
            }
            let m = {
                let mut g = docgen::Gen {
                    r,
                    p: &pr,
                    len: 30.0,
                    color: 0,
                    asset_ids: vec![],
                    names: 0,
                };
                g.modifier()
            };
            let a = e.pointer_mut(&l).unwrap().as_array_mut().unwrap();
            let at = r.below(a.len() + 1);
            a.insert(at, m);
        }
    }
    let order = if kinds[3] { r.int(0, 1 << 40) } else { -1 };
    let mut c = case_for(r, d, 3);
    c["changed"] = e;
    c["order"] = json!(order);
    c
}

fn p08_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let t = text::plain(&c["doc"]);
    let u = match c["order"].as_i64() {
        Some(s) if s >= 0 => text::shuffled(&c["changed"], &mut Rng::new(s as u64)),
        _ => text::plain(&c["changed"]),
    };
    let a = load_text(&t)?;
    let b = load_text(&u).map_err(|e| format!("with unrecognised content: {e}"))?;
    let mut drawn = false;
    for f in frames_of(c) {
        let x = render(&a, f, tf_of(c), alpha_of(c))?;
        let y = render(&b, f, tf_of(c), alpha_of(c))?;
        same_events(&y, &x).map_err(|m| format!("with unrecognised content at frame {f}: {m}"))?;
        obs.events(&x);
        drawn |= x.iter().any(|e| matches!(e, Ev::Draw { .. }));
    }
    obs.eval(hash_str(&u), drawn);
    Ok(())
}

// ------------------------------------------------------------------ P09 ----

fn p09_make(r: &mut Rng) -> Value {
    let mut p = Profile::full();
    p.layers = (1, 7);
    p.assets = (0, 3);
    p.asset_layers = (1, 5);
    p.shapes = (1, 1);
    p.depth = 0;
    p.parent = 0.6;
    p.dangling = 0.15;
    p.mask = 0.5;
    p.blend = 0.6;
    p.stretch = 0.6;
    p.start = 0.6;
    p.precomp = 0.5;
    p.deco = 0.3;
    p.hidden = 0.15;
    let mut d = docgen::doc(r, &p);
    d["fr"] = json!(r.nice(0.5, 240.0));
    d["ip"] = json!(r.nice(-50.0, 50.0));
    d["op"] = json!(r.nice(-50.0, 500.0));
    json!({ "doc": d })
}

const MIXES: [&str; 16] = [
    "Normal",
    "Multiply",
    "Screen",
    "Overlay",
    "Darken",
    "Lighten",
    "ColorDodge",
    "ColorBurn",
    "HardLight",
    "SoftLight",
    "Difference",
    "Exclusion",
    "Hue",
    "Saturation",
    "Color",
    "Luminosity",
];

#[cfg(feature = "model")]
fn layer_table(
    doc: &Value,
    got: &[velato::model::Layer],
    at: &str,
    obs: &mut Obs,
) -> Result<(), String> {
    let want = doc.as_array().unwrap();
    if want.len() != got.len() {
        return Err(format!(
            "{at}: {} layers instead of {}",
            got.len(),
            want.len()
        ));
    }
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        let bad = |what: &str, have: String, should: String| {
            Err(format!(
                "{at}, layer {i}: {what} is {have} instead of {should}"
            ))
        };
        let name = w["nm"].as_str().unwrap_or("");
        if g.name != name {
            return bad("name", format!("{:?}", g.name), format!("{name:?}"));
        }
        let n = |k: &str, d: f64| w[k].as_f64().unwrap_or(d);
        if (g.frames.start, g.frames.end) != (n("ip", 0.0), n("op", 0.0)) {
            return bad(
                "active range",
                format!("{:?}", g.frames),
                format!("{}..{}", n("ip", 0.0), n("op", 0.0)),
            );
        }
        if g.start_frame != n("st", 0.0) {
            return bad(
                "start frame",
                format!("{}", g.start_frame),
                format!("{}", n("st", 0.0)),
            );
        }
        if g.stretch != n("sr", 1.0) {
            return bad(
                "time stretch",
                format!("{}", g.stretch),
                format!("{}", n("sr", 1.0)),
            );
        }
        let parent = w["parent"]
            .as_u64()
            .and_then(|p| want.iter().position(|x| x["ind"].as_u64() == Some(p)));
        if g.parent != parent {
            return bad("parent", format!("{:?}", g.parent), format!("{parent:?}"));
        }
        if w["ty"] == json!(0) {
            if (g.width, g.height) != (n("w", 0.0), n("h", 0.0)) {
                return bad(
                    "size",
                    format!("{} x {}", g.width, g.height),
                    format!("{} x {}", n("w", 0.0), n("h", 0.0)),
                );
            }
            obs.count("precomposition layers", 1);
        }
        let masks = w["masksProperties"]
            .as_array()
            .map_or(0, |m| m.iter().filter(|m| !m["pt"].is_null()).count());
        if g.masks.len() != masks {
            return bad(
                "number of masks",
                g.masks.len().to_string(),
                masks.to_string(),
            );
        }
        let bm = w["bm"].as_u64().unwrap_or(0) as usize;
        if bm < 16 {
            let have = g.blend_mode.map(|b| format!("{:?}/{:?}", b.mix, b.compose));
            let should = (bm > 0).then(|| format!("{}/SrcOver", MIXES[bm]));
            if have != should {
                return bad(
                    "blend mode",
                    format!("{have:?}"),
                    format!("{should:?} (bm {bm})"),
                );
            }
        }
        obs.count("layers compared", 1);
    }
    Ok(())
}

#[cfg(not(feature = "model"))]
fn p09_check(_: &Value, _: &mut Obs) -> Result<(), String> {
    Ok(())
}

#[cfg(feature = "model")]
fn p09_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let doc = &c["doc"];
    let t = text::plain(doc);
    let comp = load_text(&t)?;
    let n = |k: &str| doc[k].as_f64().unwrap();
    let have = (
        comp.frames.start,
        comp.frames.end,
        comp.frame_rate,
        comp.width as f64,
        comp.height as f64,
    );
    let want = (n("ip"), n("op"), n("fr"), n("w"), n("h"));
    if have != want {
        return Err(format!(
            "in, out, rate, width, height are {have:?} instead of {want:?}"
        ));
    }
    layer_table(&doc["layers"], &comp.layers, "top level", obs)?;
    let mut count = 0;
    for a in doc["assets"].as_array().into_iter().flatten() {
        let id = a["id"].as_str().unwrap();
        if !a["layers"].is_array() {
            if comp.assets.contains_key(id) {
                return Err(format!("image asset {id:?} became a precomposition"));
            }
            continue;
        }
        count += 1;
        let Some(l) = comp.assets.get(id) else {
            return Err(format!("asset {id:?} is missing"));
        };
        layer_table(&a["layers"], l, &format!("asset {id:?}"), obs)?;
    }
    if comp.assets.len() != count {
        return Err(format!("{} assets instead of {count}", comp.assets.len()));
    }
    obs.eval(hash_str(&t), comp.layers.len() > 1);
    Ok(())
}

fn p09_fixed() -> Vec<(String, Value)> {
    let mut v = vec![];
    let mut many = vec![];
    for i in 0..40 {
        let mut l = shape_layer(100 - i, json!([]));
        l["bm"] = json!(i % 16);
        l["ip"] = json!(i as f64 * 0.5);
        l["op"] = json!(i as f64 * 0.5 + 10.25);
        l["sr"] = json!(1.0 + i as f64);
        if i > 0 {
            l["parent"] = json!(100 - (i * 7) % 40);
        }
        many.push(l);
    }
    v.push(tcase("many-layers", docl(json!(many)), &[0.0]));
    let mut d = docl(json!([]));
    d["w"] = json!(0);
    d["h"] = json!(65537);
    d["ip"] = json!(-0.5);
    v.push(tcase("no-layers", d, &[0.0]));
    v
}

// -------------------------------------------------------------------------

pub fn props() -> Vec<Prop> {
    let none: fn() -> Vec<(String, Value)> = Vec::new;
    let _ = T::Num;
    vec![
        Prop {
            id: "P01",
            fixed: p01_fixed,
            make: p01_make,
            check: p01_check,
            quick: 8000,
            thorough: 1_000_000,
            rule: "byte strings: generated documents with nodes replaced, deleted, added or moved, with values of the \
right type but odd size, with bytes changed, with features the library does not support, token soup, and deep nesting; \
each given to every loading entry point in a process that is watched for panics, aborts, stack overflows, memory \
exhaustion (6 GB) and hangs. Distinct: by bytes. Non-trivial: all.",
            assumptions: &[
                "stack of 8 MiB",
                "the build under test has overflow checks and debug assertions on",
            ],
            hang: 20,
        },
        Prop {
            id: "P05",
            fixed: none,
            make: p05_make,
            check: p05_check,
            quick: 6000,
            thorough: 250_000,
            rule: "generated, mutated and damaged JSON texts loaded through from_slice (bytes and String), from_str and \
from_json and through the document model; outcome, complete Debug text of the animation and drawing calls compared. \
Distinct: by text. Non-trivial: all.",
            assumptions: &["a Debug text shows every field of the animation"],
            hang: 30,
        },
        Prop {
            id: "P06",
            fixed: p06_fixed,
            make: p06_make,
            check: p06_check,
            quick: 3000,
            thorough: 200_000,
            rule: "generated documents with optional recognised fields added from an independent table of the format; \
parsed, serialised, displayed, compared field by field with the original, parsed again, compared as models and as \
drawings. Distinct: by document. Non-trivial: all.",
            assumptions: &[
                "the table of recognised fields (harness/src/schema.rs)",
                "null stands for an absent field",
            ],
            hang: 30,
        },
        Prop {
            id: "P07",
            fixed: p07_fixed,
            make: p07_make,
            check: p07_check,
            quick: 7000,
            thorough: 600_000,
            rule: "valid generated documents with exactly one fault (required field removed, wrong JSON type, unknown \
kind or constant, keyframed path without start shape, text cut or followed by garbage) given to every entry point; \
each must fail, name the asset the fault lies in, and give the cause. Distinct: by text. Non-trivial: all.",
            assumptions: &["the table of required fields and types (harness/src/schema.rs)"],
            hang: 30,
        },
        Prop {
            id: "P08",
            fixed: none,
            make: p08_make,
            check: p08_check,
            quick: 6000,
            thorough: 250_000,
            rule: "pairs of documents that differ in unrecognised fields, editor-only data, undrawn modifiers, key order \
and whitespace; drawing calls compared exactly at sampled frames. Distinct: by changed document. Non-trivial: something \
is drawn.",
            assumptions: &["field names beginning with zz, Ef, _, x-, é, $ are unrecognised"],
            hang: 30,
        },
        Prop {
            id: "P09",
            fixed: p09_fixed,
            make: p09_make,
            check: p09_check,
            quick: 30000,
            thorough: 400_000,
            rule: "generated documents whose header, layer tables and assets are compared field by field with the loaded \
composition. Distinct: by document. Non-trivial: more than one layer.",
            assumptions: &[],
            hang: 30,
        },
    ]
}
