//! Helpers shared by the checks.

use crate::cmp::{self, Mask};
use crate::docgen::{self, Profile};
use crate::ev::{BUDGET_MSG, Ev, Recorder};
use crate::obs::{Obs, mix};
use crate::refm::{self, RefOut, Tf};
use crate::rng::{Rng, hash_str};
use crate::run::guard;
use crate::text;
use kurbo::Affine;
use serde_json::{Value, json};
use velato::{Composition, Renderer};

pub const BUDGET: usize = 400_000;

pub fn load_text(t: &str) -> Result<Composition, String> {
    match guard(|| Composition::from_slice(t.as_bytes())) {
        Ok(Ok(c)) => Ok(c),
        Ok(Err(e)) => Err(format!("a valid document was rejected: {e}")),
        Err(p) => Err(format!("loading {p}")),
    }
}

pub fn load(doc: &Value) -> Result<Composition, String> {
    load_text(&text::plain(doc))
}

pub fn render_with(
    r: &mut Renderer,
    c: &Composition,
    f: f64,
    tf: Tf,
    alpha: f64,
    budget: usize,
) -> Result<Vec<Ev>, String> {
    let mut rec = Recorder::new(budget);
    match guard(|| r.append(c, f, Affine::new(tf), alpha, &mut rec)) {
        Ok(()) => Ok(rec.evs),
        Err(m) if m.contains(BUDGET_MSG) => {
            Err(format!("frame {f}: more than {budget} drawing calls"))
        }
        Err(m) => Err(format!("frame {f}: rendering {m}")),
    }
}

pub fn render(c: &Composition, f: f64, tf: Tf, alpha: f64) -> Result<Vec<Ev>, String> {
    render_with(&mut Renderer::new(), c, f, tf, alpha, BUDGET)
}

pub fn num(v: &Value) -> f64 {
    match v {
        Value::String(s) => match s.as_str() {
            "nan" => f64::NAN,
            "inf" => f64::INFINITY,
            "-inf" => f64::NEG_INFINITY,
            _ => s.parse().unwrap(),
        },
        _ => v.as_f64().unwrap(),
    }
}

pub fn enc(f: f64) -> Value {
    if f.is_nan() {
        json!("nan")
    } else if f == f64::INFINITY {
        json!("inf")
    } else if f == f64::NEG_INFINITY {
        json!("-inf")
    } else {
        json!(f)
    }
}

pub fn frames_of(c: &Value) -> Vec<f64> {
    c["frames"].as_array().unwrap().iter().map(num).collect()
}

pub fn tf_of(c: &Value) -> Tf {
    let mut t = refm::ID;
    if let Some(a) = c["tf"].as_array() {
        for i in 0..6 {
            t[i] = num(&a[i]);
        }
    }
    t
}

pub fn alpha_of(c: &Value) -> f64 {
    if c["alpha"].is_null() {
        1.0
    } else {
        num(&c["alpha"])
    }
}

pub fn random_tf(r: &mut Rng) -> Tf {
    match r.below(4) {
        0 => refm::ID,
        1 => [
            1.0,
            0.0,
            0.0,
            1.0,
            r.nice(-100.0, 100.0),
            r.nice(-100.0, 100.0),
        ],
        2 => {
            let (s, c) = r.range(0.0, 6.28).sin_cos();
            let k = r.range(0.2, 3.0);
            [
                k * c,
                k * s,
                -k * s,
                k * c,
                r.nice(-50.0, 50.0),
                r.nice(-50.0, 50.0),
            ]
        }
        _ => loop {
            let t: Tf = std::array::from_fn(|i| {
                if i < 4 {
                    r.nice(-2.0, 2.0)
                } else {
                    r.nice(-100.0, 100.0)
                }
            });
            if (t[0] * t[3] - t[1] * t[2]).abs() > 0.05 {
                return t;
            }
        },
    }
}

pub fn random_alpha(r: &mut Rng) -> f64 {
    if r.chance(0.5) {
        1.0
    } else if r.chance(0.06) {
        r.nice(0.0, 3.0)
    } else {
        r.nice(0.05, 1.0)
    }
}

pub fn case_for(r: &mut Rng, doc: Value, n: usize) -> Value {
    let f: Vec<Value> = docgen::frames(&doc, r, n).into_iter().map(enc).collect();
    let tf = random_tf(r);
    let a = random_alpha(r);
    json!({"doc": doc, "frames": f, "tf": tf, "alpha": a})
}

pub fn mk(r: &mut Rng, p: &Profile, n: usize) -> Value {
    let d = docgen::doc(r, p);
    case_for(r, d, n)
}

pub fn hash_case(doc: &str, f: f64) -> u64 {
    mix(hash_str(doc), f.to_bits())
}

/// Compare every frame of the case with the reference interpreter.
pub fn spec(
    c: &Value,
    obs: &mut Obs,
    mask: &Mask,
    nontrivial: impl Fn(&RefOut) -> bool,
) -> Result<(), String> {
    let doc = &c["doc"];
    let t = text::plain(doc);
    let comp = load_text(&t)?;
    spec_loaded(c, doc, &t, &comp, obs, mask, nontrivial)
}

pub fn spec_loaded(
    c: &Value,
    doc: &Value,
    text: &str,
    comp: &Composition,
    obs: &mut Obs,
    mask: &Mask,
    nontrivial: impl Fn(&RefOut) -> bool,
) -> Result<(), String> {
    let (tf, alpha) = (tf_of(c), alpha_of(c));
    let mut r = Renderer::new();
    for f in frames_of(c) {
        let want = refm::render(doc, f, tf, alpha);
        if want.ambiguous {
            obs.count("frames on a discontinuity up to rounding (no verdict)", 1);
            continue;
        }
        let got = render_with(&mut r, comp, f, tf, alpha, BUDGET)?;
        obs.events(&got);
        let n = cmp::compare(&got, &want.evs, &want.loose, mask)
            .map_err(|e| format!("frame {f}: {e}"))?;
        obs.count("calls compared with the reference", n as u64);
        obs.eval(hash_case(text, f), nontrivial(&want));
    }
    Ok(())
}

pub fn draws(o: &RefOut) -> usize {
    o.evs
        .iter()
        .filter(|e| matches!(e, Ev::Draw { path, .. } if !cmp::draws_nothing(path)))
        .count()
}

pub fn some_draw(o: &RefOut) -> bool {
    draws(o) > 0
}

// ------------------------------------------------ hand-made documents ----

pub fn fx(v: Value) -> Value {
    json!({"a":0,"k":v})
}

pub fn kf(ks: Value) -> Value {
    json!({"a":1,"k":ks})
}

pub fn ks_id() -> Value {
    json!({"p": fx(json!([0,0])), "a": fx(json!([0,0])), "s": fx(json!([100,100])), "r": fx(json!(0)), "o": fx(json!(100))})
}

pub fn layer(ty: i64, ind: i64) -> Value {
    json!({"ty":ty,"ind":ind,"nm":format!("L{ind}"),"ip":0,"op":100,"st":0,"ks":ks_id()})
}

pub fn shape_layer(ind: i64, shapes: Value) -> Value {
    let mut l = layer(4, ind);
    l["shapes"] = shapes;
    l
}

pub fn docl(layers: Value) -> Value {
    json!({"v":"5.7","fr":30,"ip":0,"op":100,"w":200,"h":100,"layers":layers})
}

pub fn doc1(shapes: Value) -> Value {
    docl(json!([shape_layer(1, shapes)]))
}

pub fn rect(x: f64, y: f64, w: f64, h: f64) -> Value {
    json!({"ty":"rc","p":fx(json!([x,y])),"s":fx(json!([w,h])),"r":fx(json!(0))})
}

pub fn fill(r: f64, g: f64, b: f64) -> Value {
    json!({"ty":"fl","c":fx(json!([r,g,b,1])),"o":fx(json!(100))})
}

pub fn group(items: Value) -> Value {
    json!({"ty":"gr","it":items})
}

pub fn tr() -> Value {
    let mut t = ks_id();
    t["ty"] = json!("tr");
    t
}

pub fn sh(v: Value, closed: bool) -> Value {
    let n = v.as_array().unwrap().len();
    let z: Vec<Value> = (0..n).map(|_| json!([0, 0])).collect();
    json!({"ty":"sh","ks":fx(json!({"v":v,"i":z,"o":z,"c":closed}))})
}

pub fn bez(v: Value, closed: bool) -> Value {
    let n = v.as_array().unwrap().len();
    let z: Vec<Value> = (0..n).map(|_| json!([0, 0])).collect();
    json!({"v":v,"i":z,"o":z,"c":closed})
}

pub fn tcase(label: &str, doc: Value, frames: &[f64]) -> (String, Value) {
    (
        label.to_string(),
        json!({"doc": doc, "frames": frames.iter().map(|f| enc(*f)).collect::<Vec<_>>()}),
    )
}
