//! Independent table of the document format: which fields each kind of object has, their
//! types and which are required. Used to walk documents, to add optional fields, and to
//! make single faults.

use crate::rng::Rng;
use serde_json::{Map, Value, json};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum T {
    Num,
    /// non-negative integer
    Int,
    /// 0..=255
    Byte,
    Bool,
    Str,
    BoolInt,
    Enum(&'static [i64]),
    StrEnum(&'static [&'static str]),
    NumArr,
    PairArr,
    Any,
    /// "seq"
    Seq,
    /// the constant `true` that marks a split vector
    True,
    Obj(K),
    Arr(K),
    /// keyframed or constant number
    Scalar,
    Vector,
    Color,
    Position,
    /// a position or a split vector
    PosOrSplit,
    /// a rotation or a split rotation
    RotOrSplit,
    Path,
    /// a number or an array of numbers
    Comp,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum K {
    Animation,
    Asset,
    Layer,
    Transform,
    Mask,
    Marker,
    Meta,
    Shape,
    Dash,
    RepeaterTransform,
    GradColors,
    Bezier,
    // property objects
    Scalar,
    Vector,
    Color,
    Position,
    Split,
    SplitRot,
    Path,
    Keyframe,
    PosKeyframe,
    PathKeyframe,
    Handle,
}

pub struct F {
    pub k: &'static str,
    pub t: T,
    pub req: bool,
}

const fn r(k: &'static str, t: T) -> F {
    F { k, t, req: true }
}
const fn o(k: &'static str, t: T) -> F {
    F { k, t, req: false }
}

const BM: &[i64] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17];
const ONE3: &[i64] = &[1, 2, 3];
const ONE2: &[i64] = &[1, 2];

fn layer(v: &Value) -> Vec<F> {
    let ty = v["ty"].as_u64().unwrap_or(99);
    let mut f = vec![
        o("nm", T::Str),
        o("mn", T::Str),
        o("ddd", T::BoolInt),
        o("hd", T::Bool),
        o("ind", T::Int),
        o("parent", T::Int),
        o("sr", T::Num),
        r("ip", T::Num),
        r("op", T::Num),
        o("tt", T::Enum(&[0, 1, 2, 3, 4])),
        o("td", T::BoolInt),
        o("masksProperties", T::Arr(K::Mask)),
        r("ks", T::Obj(K::Transform)),
        o("ao", T::BoolInt),
        o("tp", T::Num),
        o("hasMask", T::Bool),
        o("mb", T::Bool),
        o("bm", T::Enum(BM)),
        o("cl", T::Str),
        o("ln", T::Str),
        o("tg", T::Str),
        o("cp", T::Str),
        o("ct", T::BoolInt),
    ];
    // the discriminator itself is handled separately
    match ty {
        0 => {
            f.push(r("refId", T::Str));
            f.push(r("w", T::Num));
            f.push(r("h", T::Num));
            f.push(r("st", T::Num));
            f.push(o("tm", T::Scalar));
        }
        1 => {
            f.push(o("st", T::Num));
            f.push(r("sw", T::Num));
            f.push(r("sh", T::Num));
            f.push(r("sc", T::Str));
        }
        2 => {
            f.push(o("st", T::Num));
            f.push(r("refId", T::Str));
        }
        4 => {
            f.push(o("st", T::Num));
            f.push(r("shapes", T::Arr(K::Shape)));
        }
        _ => f.push(o("st", T::Num)),
    }
    f
}

fn graphic() -> Vec<F> {
    vec![
        o("nm", T::Str),
        o("mn", T::Str),
        o("hd", T::Bool),
        o("bm", T::Enum(BM)),
        o("ix", T::Num),
        o("cl", T::Str),
        o("ln", T::Str),
        o("ind", T::Num),
    ]
}

fn transform(split: bool) -> Vec<F> {
    vec![
        o("a", T::Position),
        r("p", if split { T::PosOrSplit } else { T::Position }),
        o("s", T::Vector),
        o("r", T::RotOrSplit),
        o("sk", T::Scalar),
        o("sa", T::Scalar),
        o("o", T::Scalar),
    ]
}

fn stroke() -> Vec<F> {
    vec![
        o("lc", T::Enum(ONE3)),
        o("lj", T::Enum(ONE3)),
        o("ml", T::Num),
        o("ml2", T::Scalar),
        r("w", T::Scalar),
        o("d", T::Arr(K::Dash)),
    ]
}

fn gradient() -> Vec<F> {
    vec![
        r("g", T::Obj(K::GradColors)),
        r("s", T::Vector),
        r("e", T::Vector),
        o("t", T::Enum(ONE2)),
        o("h", T::Scalar),
        o("a", T::Scalar),
    ]
}

fn shape(v: &Value) -> Vec<F> {
    let mut f = graphic();
    let dir = || o("d", T::Enum(&[1, 3]));
    match v["ty"].as_str().unwrap_or("") {
        "gr" => f.extend([
            o("np", T::Num),
            r("it", T::Arr(K::Shape)),
            o("cix", T::Byte),
        ]),
        "rc" => f.extend([
            r("p", T::Position),
            r("s", T::Vector),
            r("r", T::Scalar),
            dir(),
        ]),
        "el" => f.extend([r("p", T::Position), r("s", T::Vector), dir()]),
        "sr" => f.extend([
            r("p", T::Position),
            r("or", T::Scalar),
            r("os", T::Scalar),
            r("r", T::Scalar),
            r("pt", T::Scalar),
            r("sy", T::Enum(ONE2)),
            o("ir", T::Scalar),
            o("is", T::Scalar),
            dir(),
        ]),
        "sh" => f.extend([r("ks", T::Path), dir()]),
        "fl" => f.extend([r("c", T::Color), r("o", T::Scalar), o("r", T::Enum(ONE2))]),
        "st" => {
            f.extend([r("c", T::Color), r("o", T::Scalar)]);
            f.extend(stroke());
        }
        "gf" => {
            f.extend([r("o", T::Scalar), o("r", T::Enum(ONE2))]);
            f.extend(gradient());
        }
        "gs" => {
            f.push(r("o", T::Scalar));
            f.extend(stroke());
            f.extend(gradient());
        }
        "tm" => f.extend([
            r("s", T::Scalar),
            r("e", T::Scalar),
            r("o", T::Scalar),
            o("m", T::Enum(ONE2)),
        ]),
        "tr" => f.extend(transform(true)),
        "rd" => f.push(r("r", T::Scalar)),
        "pb" => f.push(o("a", T::Scalar)),
        "op" => f.extend([
            o("a", T::Scalar),
            o("lj", T::Enum(ONE3)),
            o("ml", T::Scalar),
        ]),
        "mm" => f.push(o("mm", T::Enum(&[1, 2, 3, 4, 5]))),
        "tw" => f.extend([r("a", T::Scalar), r("p", T::Position)]),
        "rp" => f.extend([
            r("c", T::Scalar),
            o("o", T::Scalar),
            o("m", T::Enum(ONE2)),
            r("tr", T::Obj(K::RepeaterTransform)),
        ]),
        _ => {}
    }
    f
}

fn prop(value: T) -> Vec<F> {
    let _ = value;
    vec![o("ix", T::Num), o("a", T::BoolInt), o("x", T::Str)]
}

fn keyframe() -> Vec<F> {
    vec![
        r("t", T::Num),
        o("h", T::BoolInt),
        o("i", T::Obj(K::Handle)),
        o("o", T::Obj(K::Handle)),
    ]
}

pub fn fields(k: K, v: &Value) -> Vec<F> {
    match k {
        K::Animation => vec![
            o("nm", T::Str),
            o("mn", T::Str),
            r("layers", T::Arr(K::Layer)),
            o("v", T::Str),
            o("ver", T::Int),
            r("fr", T::Num),
            r("ip", T::Num),
            r("op", T::Num),
            r("w", T::Int),
            r("h", T::Int),
            o("ddd", T::BoolInt),
            o("assets", T::Arr(K::Asset)),
            o("markers", T::Arr(K::Marker)),
            o("meta", T::Obj(K::Meta)),
            o("metadata", T::Any),
        ],
        K::Asset => {
            if v.get("layers").is_some() {
                vec![
                    r("id", T::Str),
                    o("nm", T::Str),
                    o("mn", T::Str),
                    r("layers", T::Arr(K::Layer)),
                    o("fr", T::Num),
                    o("xt", T::BoolInt),
                ]
            } else {
                vec![
                    r("id", T::Str),
                    o("nm", T::Str),
                    o("mn", T::Str),
                    o("u", T::Str),
                    r("p", T::Str),
                    o("e", T::BoolInt),
                    o("sid", T::Str),
                    o("w", T::Num),
                    o("h", T::Num),
                    o("t", T::Seq),
                ]
            }
        }
        K::Layer => layer(v),
        K::Transform => transform(true),
        K::Mask => vec![
            o("nm", T::Str),
            o("mn", T::Str),
            o("inv", T::Bool),
            o("pt", T::Path),
            o("o", T::Scalar),
            o("mode", T::StrEnum(&["n", "a", "s", "i", "l", "d", "f"])),
            o("x", T::Scalar),
        ],
        K::Marker => vec![o("cm", T::Str), o("tm", T::Num), o("dr", T::Num)],
        K::Meta => vec![
            o("a", T::Str),
            o("d", T::Str),
            o("tc", T::Str),
            o("g", T::Str),
            o("k", T::Any),
        ],
        K::Shape => shape(v),
        K::Dash => vec![
            o("nm", T::Str),
            o("mn", T::Str),
            o("n", T::StrEnum(&["d", "g", "o"])),
            o("v", T::Scalar),
        ],
        K::RepeaterTransform => {
            let mut f = graphic();
            f.extend(transform(true));
            f.extend([o("so", T::Scalar), o("eo", T::Scalar)]);
            f
        }
        K::GradColors => vec![r("k", T::Vector), r("p", T::Int)],
        K::Bezier => vec![
            o("c", T::Bool),
            r("v", T::PairArr),
            r("i", T::PairArr),
            r("o", T::PairArr),
        ],
        K::Scalar | K::Vector | K::Color | K::Position | K::Path => {
            let mut f = prop(T::Any);
            if k == K::Vector || k == K::Position {
                f.push(o("l", T::Num));
            }
            if matches!(k, K::Scalar | K::Vector | K::Color) {
                f.push(o("sid", T::Str));
            }
            let kf = match k {
                K::Position => K::PosKeyframe,
                K::Path => K::PathKeyframe,
                _ => K::Keyframe,
            };
            // a keyframed value is an array of objects
            let animated = v["k"]
                .as_array()
                .is_some_and(|a| !a.is_empty() && a.iter().all(|x| x.is_object()));
            f.push(r(
                "k",
                if animated {
                    T::Arr(kf)
                } else {
                    match k {
                        K::Scalar => T::Num,
                        K::Path => T::Obj(K::Bezier),
                        _ => T::NumArr,
                    }
                },
            ));
            f
        }
        K::Split => vec![
            r("s", T::True),
            r("x", T::Scalar),
            r("y", T::Scalar),
            o("z", T::Scalar),
        ],
        K::SplitRot => vec![
            r("x", T::Scalar),
            r("y", T::Scalar),
            r("z", T::Scalar),
            r("or", T::Vector),
        ],
        K::Keyframe | K::PosKeyframe => {
            let mut f = keyframe();
            f.extend([r("s", T::NumArr), o("e", T::NumArr)]);
            if k == K::PosKeyframe {
                f.extend([o("ti", T::NumArr), o("to", T::NumArr)]);
            }
            f
        }
        K::PathKeyframe => {
            let mut f = keyframe();
            f.extend([o("s", T::Arr(K::Bezier)), o("e", T::Arr(K::Bezier))]);
            f
        }
        K::Handle => vec![r("x", T::Comp), r("y", T::Comp)],
    }
}

/// The object kind behind a field type, given the value.
pub fn kind_of(t: T, v: &Value) -> Option<K> {
    Some(match t {
        T::Obj(k) => k,
        T::Scalar => K::Scalar,
        T::Vector => K::Vector,
        T::Color => K::Color,
        T::Position => K::Position,
        T::PosOrSplit => {
            if v.get("k").is_some() {
                K::Position
            } else {
                K::Split
            }
        }
        T::RotOrSplit => {
            if v.get("k").is_some() {
                K::Scalar
            } else {
                K::SplitRot
            }
        }
        T::Path => K::Path,
        _ => return None,
    })
}

pub struct Site {
    pub ptr: String,
    pub kind: K,
}

fn esc(k: &str) -> String {
    k.replace('~', "~0").replace('/', "~1")
}

fn walk(v: &Value, k: K, ptr: String, out: &mut Vec<Site>) {
    if !v.is_object() {
        return;
    }
    for f in fields(k, v) {
        let Some(x) = v.get(f.k) else { continue };
        let p = format!("{ptr}/{}", esc(f.k));
        if let T::Arr(e) = f.t {
            for (i, y) in x.as_array().into_iter().flatten().enumerate() {
                walk(y, e, format!("{p}/{i}"), out);
            }
        } else if let Some(e) = kind_of(f.t, x) {
            walk(x, e, p, out);
        }
    }
    out.push(Site { ptr, kind: k });
}

/// Every known object of the document.
pub fn sites(doc: &Value) -> Vec<Site> {
    let mut v = vec![];
    walk(doc, K::Animation, String::new(), &mut v);
    v
}

fn text(r: &mut Rng) -> Value {
    json!(*r.pick(&[
        "",
        "x",
        "a b",
        "ünï \"q\" \\ \n",
        "comp_0",
        "null",
        "\u{1F600}"
    ]))
}

fn any(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 5 } else { 7 }) {
        0 => json!(r.nice(-10.0, 10.0)),
        1 => json!(r.chance(0.5)),
        2 => text(r),
        3 => json!(r.int(-5, 1_000_000)),
        4 => Value::Null,
        5 => Value::Array((0..r.below(3)).map(|_| any(r, depth - 1)).collect()),
        _ => {
            let mut m = Map::new();
            for i in 0..r.below(3) {
                m.insert(format!("k{i}"), any(r, depth - 1));
            }
            Value::Object(m)
        }
    }
}

pub fn anything(r: &mut Rng) -> Value {
    any(r, 3)
}

/// A valid value of a simple type (None for types that need more).
pub fn sample(t: T, r: &mut Rng) -> Option<Value> {
    if r.chance(0.12) {
        // the emptiest value there is
        match t {
            T::Num | T::Int | T::Byte | T::BoolInt => return Some(json!(0)),
            T::Bool => return Some(json!(false)),
            T::Str => return Some(json!("")),
            T::Arr(K::Mask | K::Marker | K::Dash | K::Asset) => return Some(json!([])),
            T::Obj(K::Meta) => return Some(json!({})),
            _ => {}
        }
    }
    Some(match t {
        T::Num => json!(r.nice(-20.0, 200.0)),
        T::Int => json!(r.int(0, 50)),
        T::Byte => json!(r.int(0, 255)),
        T::Bool => json!(r.chance(0.5)),
        T::Str => text(r),
        T::BoolInt => json!(r.int(0, 1)),
        T::Enum(e) => json!(*r.pick(e)),
        T::StrEnum(e) => json!(*r.pick(e)),
        T::NumArr => Value::Array((0..r.int(2, 3)).map(|_| json!(r.nice(-9.0, 9.0))).collect()),
        T::Any => {
            let v = anything(r);
            if v.is_null() {
                json!({"a": [1, null, "x"]})
            } else {
                v
            }
        }
        T::Seq => json!("seq"),
        T::Scalar | T::RotOrSplit => {
            if r.chance(0.5) {
                json!({"a":0,"k":r.nice(0.0, 9.0)})
            } else {
                json!({"a":1,"k":[{"t":0,"s":[r.nice(0.0,9.0)],"e":[2],"h":0,"o":{"x":[0.2],"y":0.1},"i":{"x":0.3,"y":[0.9]}},{"t":5,"s":[r.nice(0.0,9.0)]}]})
            }
        }
        T::Arr(K::Mask) => {
            json!([{"nm":"m","mn":"mm","inv":true,"mode":"s","o":{"k":50},"x":{"a":0,"k":3.5}}])
        }
        T::Arr(K::Marker) => json!([{"cm":"c","tm":1.5,"dr":0},{}]),
        T::Arr(K::Dash) => {
            json!([{"n":"d","nm":"dash","v":{"a":0,"k":4}},{"n":"g","v":{"k":2.5}},{"n":"o","mn":"x"},{}])
        }
        T::Obj(K::Meta) => {
            json!({"a":"au","d":"","tc":"#123456","g":"gen 1","k":if r.chance(0.2) { json!([]) } else { json!(["p","q"]) }})
        }
        T::Obj(K::Handle) => json!({"x":[0.25],"y":[0.75]}),
        _ => return None,
    })
}

/// A value of a JSON type the field must not have.
pub fn wrong(t: T, req: bool, r: &mut Rng) -> Option<Value> {
    let c = wrongs(t, req);
    if c.is_empty() {
        None
    } else {
        Some(r.pick(&c).clone())
    }
}

/// Values of JSON types the field must not have.
pub fn wrongs(t: T, req: bool) -> Vec<Value> {
    let s = || json!("nonsense");
    let b = || json!(true);
    let n = || json!(7);
    let ob = || json!({"zz": 1});
    let c: Vec<Value> = match t {
        T::Num | T::Int | T::Byte => vec![s(), b(), ob(), json!([1])],
        T::Bool => vec![s(), n(), ob(), json!([true])],
        T::Str => vec![n(), b(), ob(), json!(["a"])],
        T::Seq => vec![n(), b(), ob()],
        T::BoolInt => vec![s(), b(), ob(), json!(2), json!(-1)],
        T::Enum(e) => vec![
            s(),
            b(),
            ob(),
            json!(e[e.len() - 1] + 1),
            json!(e[0] - 1),
            json!(99),
        ],
        T::StrEnum(_) => vec![n(), b(), ob(), json!("zz"), json!("")],
        T::NumArr => vec![s(), b(), ob(), json!([1, "x"]), json!([[1, 2]]), n()],
        T::PairArr => vec![
            s(),
            b(),
            ob(),
            json!([1, 2]),
            json!([["a", "b"]]),
            json!([[1]]),
            n(),
        ],
        T::Any => return vec![],
        T::True => vec![s(), n(), ob()],
        T::Obj(_) => vec![s(), b(), n()],
        T::Arr(K::Bezier) => vec![s(), b(), n(), json!([1])],
        T::Arr(K::Keyframe | K::PosKeyframe | K::PathKeyframe) => vec![s(), b(), ob()],
        T::Arr(_) => vec![s(), b(), n(), json!([5]), json!(["a"])],
        T::Scalar
        | T::Vector
        | T::Color
        | T::Position
        | T::PosOrSplit
        | T::RotOrSplit
        | T::Path => {
            vec![
                s(),
                b(),
                n(),
                json!({"a": 0}),
                json!({"a":0,"k":"x"}),
                json!({"a":0,"k":true}),
            ]
        }
        T::Comp => vec![s(), b(), ob(), json!(["x"])],
    };
    let mut c = c;
    if req {
        c.push(Value::Null);
    }
    c
}

fn set(doc: &mut Value, ptr: &str, key: &str, v: Value) {
    if let Some(Value::Object(o)) = doc.pointer_mut(ptr) {
        o.insert(key.into(), v);
    }
}

/// Adds optional recognised fields; `p` is the chance per field.
pub fn enrich(doc: &mut Value, r: &mut Rng, p: f64, keep: impl Fn(K, &str) -> bool) -> usize {
    let mut n = 0;
    for s in sites(doc) {
        let v = doc.pointer(&s.ptr).unwrap().clone();
        for f in fields(s.kind, &v) {
            if f.req || v.get(f.k).is_some() || !keep(s.kind, f.k) || !r.chance(p) {
                continue;
            }
            if let Some(x) = sample(f.t, r) {
                set(doc, &s.ptr, f.k, x);
                n += 1;
            }
        }
    }
    n
}

/// Keeps only recognised fields that are not null.
pub fn recognised(v: &Value, k: K) -> Value {
    let Value::Object(o) = v else {
        return v.clone();
    };
    let mut out = Map::new();
    let fs = fields(k, v);
    for (key, x) in o {
        if x.is_null() {
            continue;
        }
        if key == "ty" && matches!(k, K::Layer | K::Shape) {
            out.insert(key.clone(), x.clone());
            continue;
        }
        let Some(f) = fs.iter().find(|f| f.k == key) else {
            continue;
        };
        let y = if let T::Arr(e) = f.t {
            Value::Array(
                x.as_array()
                    .into_iter()
                    .flatten()
                    .map(|y| recognised(y, e))
                    .collect(),
            )
        } else if let Some(e) = kind_of(f.t, x) {
            recognised(x, e)
        } else {
            x.clone()
        };
        out.insert(key.clone(), y);
    }
    Value::Object(out)
}

/// First difference between two values, numbers compared by value, null object members ignored.
pub fn diff(a: &Value, b: &Value, ptr: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                let w = y.get(k).unwrap_or(&Value::Null);
                if v.is_null() && w.is_null() {
                    continue;
                }
                if w.is_null() {
                    return Some(format!("{ptr}/{k}: {v} became absent"));
                }
                if let Some(d) = diff(v, w, &format!("{ptr}/{k}")) {
                    return Some(d);
                }
            }
            for (k, w) in y {
                if !w.is_null() && x.get(k).unwrap_or(&Value::Null).is_null() {
                    return Some(format!("{ptr}/{k}: invented value {w}"));
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{ptr}: {} items became {}", x.len(), y.len()));
            }
            x.iter()
                .zip(y)
                .enumerate()
                .find_map(|(i, (v, w))| diff(v, w, &format!("{ptr}/{i}")))
        }
        (Value::Number(x), Value::Number(y)) => {
            (x.as_f64() != y.as_f64()).then(|| format!("{ptr}: {x} became {y}"))
        }
        _ => (a != b).then(|| format!("{ptr}: {a} became {b}")),
    }
}
