//! Properties of rendering as such: P02, P03, P04, P12, P20, P28, P30.

use crate::base::*;
use crate::cmp::{self, ALL, Mask};
use crate::docgen::{self, Profile};
use crate::ev::{BrushRec, Ev};
use crate::heap;
use crate::mutate;
use crate::obs::Obs;
use crate::p_load::{dump, hostile_doc, same_events};
use crate::p_spec::{fill_groups, load_with_repeaters, repeater_profile};
use crate::refm::{self, Cut, Tf};
use crate::rng::{Rng, hash_str};
use crate::run::{Prop, guard};
use crate::schema::{self, K};
use crate::text;
use kurbo::{PathEl, Point};
use serde_json::{Value, json};
use velato::{Composition, Renderer};

fn none() -> Vec<(String, Value)> {
    vec![]
}

fn odd_f64(r: &mut Rng) -> f64 {
    match r.below(14) {
        0 => f64::NAN,
        1 => f64::INFINITY,
        2 => f64::NEG_INFINITY,
        3 => f64::MAX,
        4 => f64::MIN,
        5 => -0.0,
        6 => 1e300,
        7 => f64::MIN_POSITIVE,
        8 => -1e9,
        9 => 1e18,
        10 => 0.0,
        _ => r.range(-1000.0, 1000.0),
    }
}

fn few_refs() -> Profile {
    let mut p = Profile::full();
    p.layers = (1, 4);
    p.assets = (1, 3);
    p.asset_layers = (1, 3);
    p.precomp = 0.7;
    p.matte = 0.3;
    p.shapes = (1, 2);
    p.depth = 1;
    p
}

/// A document that usually loads, of any kind.
fn any_doc(r: &mut Rng, cap: f64) -> Value {
    let mut d = match r.below(8) {
        0 | 1 => {
            let p = few_refs();
            let mut d = docgen::doc(r, &p);
            mutate::tangle(&mut d, r);
            if r.chance(0.3) {
                let n = r.int(1, 4) as usize;
                mutate::soft(&mut d, r, n, cap);
            }
            d
        }
        2 | 3 => {
            let mut d = hostile_doc(r);
            let n = r.int(1, 12) as usize;
            mutate::soft(&mut d, r, n, cap);
            d
        }
        4 => {
            let mut d = hostile_doc(r);
            mutate::structural(&mut d, r, 1);
            d
        }
        5 => {
            let mut d = hostile_doc(r);
            mutate::unsupported(&mut d, r);
            d
        }
        _ => docgen::doc(r, &Profile::full()),
    };
    mutate::cap(&mut d, cap);
    d
}

fn odd_case(r: &mut Rng, doc: Value, n: usize) -> Value {
    let mut c = case_for(r, doc, n);
    if r.chance(0.5) {
        let f = odd_f64(r);
        c["frames"].as_array_mut().unwrap().push(enc(f));
    }
    if r.chance(0.25) {
        let i = r.below(6);
        let v = odd_f64(r);
        let mut t: Vec<Value> = tf_of(&c).iter().map(|x| enc(*x)).collect();
        t[i] = enc(v);
        c["tf"] = json!(t);
    }
    if r.chance(0.2) {
        c["alpha"] = enc(odd_f64(r));
    }
    c
}

fn try_load(doc: &Value, obs: &mut Obs) -> Option<(String, Composition)> {
    let t = text::plain(doc);
    match guard(|| Composition::from_slice(t.as_bytes())) {
        Ok(Ok(c)) => Some((t, c)),
        _ => {
            obs.count("documents that do not load (no verdict)", 1);
            None
        }
    }
}

// ------------------------------------------------------------------ P02 ----

const MANY: usize = 3_000_000;

fn p02_make(r: &mut Rng) -> Value {
    let cap = if r.chance(0.3) { 1e308 } else { 1e6 };
    let d = any_doc(r, cap);
    odd_case(r, d, 4)
}

fn p02_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let Some((t, comp)) = try_load(&c["doc"], obs) else {
        return Ok(());
    };
    let (tf, alpha) = (tf_of(c), alpha_of(c));
    let mut r = Renderer::new();
    for f in frames_of(c) {
        let mut rec = crate::ev::Recorder::new(MANY);
        rec.keep = false;
        guard(|| r.append(&comp, f, kurbo::Affine::new(tf), alpha, &mut rec))
            .map_err(|m| format!("frame {f}: rendering {m}"))?;
        obs.count("drawing calls", rec.count as u64);
        obs.max("drawing calls in one render", rec.count as u64);
        obs.eval(hash_case(&t, f), rec.count > 2);
    }
    Ok(())
}

fn colored(ind: i64) -> Value {
    shape_layer(ind, json!([rect(0.0, 0.0, 9.0, 9.0), fill(1.0, 0.0, 0.0)]))
}

fn precomp(ind: i64, id: &str) -> Value {
    let mut l = layer(0, ind);
    l["refId"] = json!(id);
    l["w"] = json!(10);
    l["h"] = json!(10);
    l
}

fn p02_fixed() -> Vec<(String, Value)> {
    let mut v = vec![];
    let fr = [0.0, 50.0, -1.0, f64::NAN, f64::INFINITY, 1e300];
    // parent cycles of every length, self parents, dangling, index 0
    for n in [1i64, 2, 3, 5, 17] {
        let ls: Vec<Value> = (0..n)
            .map(|i| {
                let mut l = colored(i + 1);
                l["parent"] = json!((i + 1) % n + 1);
                l
            })
            .collect();
        v.push(tcase(&format!("parent cycle {n}"), docl(json!(ls)), &fr));
        let mut d = docl(json!([]));
        d["assets"] = json!([{"id":"a","layers":ls}]);
        d["layers"] = json!([precomp(1, "a")]);
        v.push(tcase(&format!("parent cycle {n} in an asset"), d, &fr));
        // a tail running into a cycle
        let mut ls2: Vec<Value> = (0..n + 3)
            .map(|i| {
                let mut l = colored(i + 1);
                l["parent"] = json!(i);
                l
            })
            .collect();
        ls2[0]["parent"] = json!(n);
        v.push(tcase(
            &format!("tail into parent cycle {n}"),
            docl(json!(ls2)),
            &fr,
        ));
        // matte cycles
        let ls: Vec<Value> = (0..n)
            .map(|i| {
                let mut l = colored(i + 1);
                l["tt"] = json!(1);
                l["tp"] = json!((i + 1) % n + 1);
                l
            })
            .collect();
        v.push(tcase(&format!("matte cycle {n}"), docl(json!(ls)), &fr));
        // assets in a cycle, also through mattes
        let assets: Vec<Value> = (0..n)
            .map(|i| {
                let mut p = precomp(2, &format!("c{}", (i + 1) % n));
                p["tt"] = json!(1);
                p["tp"] = json!(1);
                json!({"id":format!("c{i}"),"layers":[colored(1), p]})
            })
            .collect();
        let mut d = docl(json!([precomp(1, "c0"), precomp(2, "gone")]));
        d["assets"] = json!(assets);
        v.push(tcase(&format!("asset cycle {n}"), d, &fr));
        let assets: Vec<Value> = (0..n)
            .map(|i| {
                let mut m = precomp(1, &format!("c{}", (i + 1) % n));
                m["td"] = json!(1);
                let mut l = colored(2);
                l["tt"] = json!(2);
                json!({"id":format!("c{i}"),"layers":[m, l]})
            })
            .collect();
        let mut d = docl(json!([precomp(1, "c0")]));
        d["assets"] = json!(assets);
        v.push(tcase(&format!("asset cycle {n} through mattes"), d, &fr));
    }
    for (k, x) in [
        ("parent", 99),
        ("parent", 0),
        ("parent", -1),
        ("tp", 99),
        ("tp", 0),
    ] {
        let mut l = colored(1);
        l["tt"] = json!(1);
        l[k] = json!(x);
        v.push(tcase(&format!("dangling {k} {x}"), docl(json!([l])), &fr));
    }
    // a matte that is its own parent's matte and so on
    let mut a = colored(1);
    a["tt"] = json!(1);
    a["tp"] = json!(1);
    a["parent"] = json!(1);
    v.push(tcase("self matte and parent", docl(json!([a])), &fr));
    // long chains
    for n in [50usize, 400, 3000] {
        let ls: Vec<Value> = (0..n)
            .map(|i| {
                let mut l = colored(i as i64 + 1);
                l["parent"] = json!(i + 2);
                if i > 2 {
                    l["ip"] = json!(90);
                }
                l
            })
            .collect();
        v.push(tcase(&format!("parent chain {n}"), docl(json!(ls)), &[0.0]));
    }
    let n = 50usize;
    let assets: Vec<Value> = (0..n)
        .map(|i| json!({"id":format!("c{i}"),"layers":[precomp(1, &format!("c{}", i + 1))]}))
        .chain([json!({"id":format!("c{n}"),"layers":[colored(1)]})])
        .collect();
    let mut d = docl(json!([precomp(1, "c0")]));
    d["assets"] = json!(assets);
    v.push(tcase("50 nested precompositions", d, &fr));
    let ls: Vec<Value> = (0..200i64)
        .map(|i| {
            let mut l = colored(i + 1);
            l["tt"] = json!(1);
            l["tp"] = json!(i + 2);
            if i > 0 {
                l["td"] = json!(1);
            }
            l
        })
        .collect();
    v.push(tcase("matte chain 200", docl(json!(ls)), &[0.0]));
    // groups as deep as the parser allows
    for n in [30usize, 61] {
        let g = mutate::nested_groups(n, rect(0.0, 0.0, 3.0, 3.0));
        v.push(tcase(
            &format!("groups {n} deep"),
            doc1(json!([g, fill(1.0, 0.0, 0.0)])),
            &fr,
        ));
    }
    // counts and shapes that stress evaluation
    for x in [0.0, 1.0, 2.0, 0.4, -3.0, 1e6, -1e6] {
        let mut s = crate::p_load::star(x);
        v.push(tcase(
            &format!("star points {x}"),
            doc1(json!([s.clone(), fill(1.0, 0.0, 0.0)])),
            &[0.0],
        ));
        s["sy"] = json!(2);
        v.push(tcase(
            &format!("polygon points {x}"),
            doc1(json!([s, fill(1.0, 0.0, 0.0)])),
            &[0.0],
        ));
    }
    for (s, e, o) in [
        (0.0, 0.0, 0.0),
        (0.0, 100.0, 1e6),
        (-1e6, 1e6, -720.0),
        (50.0, 50.0, 90.0),
        (1e6, 1e6, 0.5),
    ] {
        for g in [
            rect(0.0, 0.0, 0.0, 0.0),
            rect(0.0, 0.0, 9.0, 9.0),
            sh(json!([]), true),
            sh(json!([[1, 1]]), true),
            sh(json!([[1, 1], [1, 1]]), false),
        ] {
            let t = json!({"ty":"tm","s":fx(json!(s)),"e":fx(json!(e)),"o":fx(json!(o))});
            v.push(tcase(
                &format!("trim {s} {e} {o} of {}", hash_str(&g.to_string()) % 1000),
                doc1(json!([g, t.clone(), t, fill(1.0, 0.0, 0.0)])),
                &[0.0],
            ));
        }
    }
    // one huge or tiny value in each place
    for x in [1e9, -1e12, 1e18, 1e300, -1e300, 1e-300] {
        let spots: Vec<(&str, Value)> = {
            let mut v = vec![];
            let base = || {
                let mut st = json!({"ty":"st","c":fx(json!([1,0,0])),"o":fx(json!(50)),"w":fx(json!(3)),"lc":2,"lj":1,"ml":4});
                st["ml"] = json!(4);
                let gf = json!({"ty":"gf","o":fx(json!(100)),"s":fx(json!([0,0])),"e":fx(json!([90,9])),"t":2,
                    "h":fx(json!(20)),"a":fx(json!(30)),"g":{"p":2,"k":fx(json!([0,1,0,0,1,0,1,0]))}});
                let tm = json!({"ty":"tm","s":fx(json!(10)),"e":fx(json!(60)),"o":fx(json!(30))});
                let rc =
                    json!({"ty":"rc","p":fx(json!([1,2])),"s":fx(json!([9,8])),"r":fx(json!(2))});
                let el = json!({"ty":"el","p":fx(json!([1,2])),"s":fx(json!([9,8]))});
                let tr = json!({"ty":"tr","p":fx(json!([1,2])),"a":fx(json!([1,2])),"s":fx(json!([90,80])),"r":fx(json!(30)),
                    "sk":fx(json!(10)),"sa":fx(json!(5)),"o":fx(json!(70))});
                let mut l = shape_layer(
                    1,
                    json!([{"ty":"gr","it":[rc, el, crate::p_load::star(5.0), tm, st, gf, tr]}]),
                );
                l["hasMask"] = json!(true);
                l["masksProperties"] = json!([{"mode":"a","o":fx(json!(50)),"x":fx(json!(0)),
                    "pt":fx(bez(json!([[0,0],[9,0],[9,9]]), true))}]);
                docl(json!([l]))
            };
            for ptr in [
                "/layers/0/shapes/0/it/0/p/k/0",
                "/layers/0/shapes/0/it/0/s/k/1",
                "/layers/0/shapes/0/it/0/r/k",
                "/layers/0/shapes/0/it/1/p/k/1",
                "/layers/0/shapes/0/it/1/s/k/0",
                "/layers/0/shapes/0/it/2/p/k/0",
                "/layers/0/shapes/0/it/2/r/k",
                "/layers/0/shapes/0/it/2/or/k",
                "/layers/0/shapes/0/it/2/os/k",
                "/layers/0/shapes/0/it/2/ir/k",
                "/layers/0/shapes/0/it/2/is/k",
                "/layers/0/shapes/0/it/3/s/k",
                "/layers/0/shapes/0/it/3/e/k",
                "/layers/0/shapes/0/it/3/o/k",
                "/layers/0/shapes/0/it/4/w/k",
                "/layers/0/shapes/0/it/4/o/k",
                "/layers/0/shapes/0/it/4/c/k/0",
                "/layers/0/shapes/0/it/4/ml",
                "/layers/0/shapes/0/it/5/s/k/0",
                "/layers/0/shapes/0/it/5/e/k/1",
                "/layers/0/shapes/0/it/5/h/k",
                "/layers/0/shapes/0/it/5/a/k",
                "/layers/0/shapes/0/it/5/o/k",
                "/layers/0/shapes/0/it/5/g/k/k/0",
                "/layers/0/shapes/0/it/5/g/k/k/5",
                "/layers/0/shapes/0/it/6/p/k/0",
                "/layers/0/shapes/0/it/6/a/k/1",
                "/layers/0/shapes/0/it/6/s/k/0",
                "/layers/0/shapes/0/it/6/r/k",
                "/layers/0/shapes/0/it/6/sk/k",
                "/layers/0/shapes/0/it/6/sa/k",
                "/layers/0/shapes/0/it/6/o/k",
                "/layers/0/masksProperties/0/o/k",
                "/layers/0/masksProperties/0/pt/k/v/1/0",
                "/layers/0/masksProperties/0/pt/k/i/1/0",
                "/layers/0/ip",
                "/layers/0/op",
                "/layers/0/st",
                "/layers/0/sr",
                "/fr",
                "/ip",
                "/op",
            ] {
                let mut d = base();
                let Some(spot) = d.pointer_mut(ptr) else {
                    continue;
                };
                *spot = json!(x);
                v.push((ptr, d));
            }
            v
        };
        for (ptr, d) in spots {
            v.push(tcase(&format!("{x} in {ptr}"), d, &[0.0, 50.0]));
        }
    }
    v
}

// ------------------------------------------------------------------ P03 ----

fn p03_make(r: &mut Rng) -> Value {
    if r.chance(0.6) {
        let mut p = Profile::full();
        p.mask = 0.4;
        p.matte = 0.35;
        p.tp = 0.4;
        let mut d = docgen::doc(r, &p);
        if r.chance(0.3) {
            mutate::tangle(&mut d, r);
        }
        return odd_case(r, d, 5);
    }
    let d = any_doc(r, 1e6);
    odd_case(r, d, 4)
}

fn rect_of(path: &[PathEl]) -> Option<[f64; 4]> {
    let mut lines = path.len();
    if path.last() == Some(&PathEl::ClosePath) {
        lines -= 1;
    }
    let pts: Option<Vec<Point>> = path[..lines]
        .iter()
        .map(|e| match e {
            PathEl::MoveTo(p) | PathEl::LineTo(p) => Some(*p),
            _ => None,
        })
        .collect();
    let mut pts = pts?;
    if pts.len() == 5 && pts[4] == pts[0] {
        pts.pop();
    }
    if pts.len() != 4 {
        return None;
    }
    let (a, b) = (pts[0], pts[2]);
    let corner = |p: &Point, q: &Point| {
        (p.x == a.x && p.y == b.y && q.x == b.x && q.y == a.y)
            || (p.x == b.x && p.y == a.y && q.x == a.x && q.y == b.y)
    };
    corner(&pts[1], &pts[3]).then(|| [a.x.min(b.x), a.y.min(b.y), a.x.max(b.x), a.y.max(b.y)])
}

fn bits(t: &Tf) -> [u64; 6] {
    t.map(|x| {
        if x.is_nan() {
            0x7ff8 << 48
        } else {
            x.to_bits()
        }
    })
}

/// The protocol of brackets, judged call by call.
pub fn protocol(evs: &[Ev], size: (f64, f64), tf: &Tf, obs: &mut Obs) -> Result<(), String> {
    #[derive(PartialEq, Debug)]
    enum B {
        Outer,
        Clip,
        Layer,
        Group,
    }
    let mut st: Vec<B> = vec![];
    let mut deepest = 0;
    let mut closed = false;
    for (i, e) in evs.iter().enumerate() {
        let at = |m: &str| {
            Err(format!(
                "call {i} ({}): {m}; calls: {}",
                e.kind(),
                cmp::show(evs)
            ))
        };
        if closed {
            return at("follows the pop of the outermost clip");
        }
        if i == 0 {
            let Ev::PushClip { tf: t, path } = e else {
                return at("the first call is not the outermost clip");
            };
            if bits(t) != bits(tf) {
                return at(&format!(
                    "the outermost clip is placed by {t:?}, the caller gave {tf:?}"
                ));
            }
            match rect_of(path) {
                Some([a, b, x, y]) if a == 0.0 && b == 0.0 && x == size.0 && y == size.1 => {}
                r => {
                    return at(&format!(
                        "the outermost clip is {r:?}, the composition is {size:?}"
                    ));
                }
            }
            st.push(B::Outer);
            continue;
        }
        match e {
            Ev::PushClip { .. } => st.push(B::Clip),
            Ev::PushLayer { .. } => st.push(B::Layer),
            Ev::Begin { .. } => st.push(B::Group),
            Ev::End => match st.pop() {
                Some(B::Group) => {}
                top => {
                    return at(&format!(
                        "a layer group ends while the innermost open bracket is {top:?}"
                    ));
                }
            },
            Ev::Pop => match st.pop() {
                Some(B::Clip | B::Layer) => {}
                Some(B::Outer) => closed = true,
                top => {
                    return at(&format!(
                        "a pop while the innermost open bracket is {top:?}"
                    ));
                }
            },
            Ev::Draw { .. } => {}
        }
        deepest = deepest.max(st.len());
    }
    if !closed {
        return Err(format!(
            "left open at the end: {st:?}; calls: {}",
            cmp::show(evs)
        ));
    }
    obs.max("bracket depth", deepest as u64);
    Ok(())
}

fn p03_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let Some((t, comp)) = try_load(&c["doc"], obs) else {
        return Ok(());
    };
    let (tf, alpha) = (tf_of(c), alpha_of(c));
    let size = (num(&c["doc"]["w"]), num(&c["doc"]["h"]));
    let mut r = Renderer::new();
    for f in frames_of(c) {
        let Ok(evs) = render_with(&mut r, &comp, f, tf, alpha, 200_000) else {
            obs.count("renders that panic or are too long (no verdict)", 1);
            r = Renderer::new();
            continue;
        };
        obs.events(&evs);
        protocol(&evs, size, &tf, obs).map_err(|m| format!("frame {f}: {m}"))?;
        let brackets = evs.iter().filter(|e| !matches!(e, Ev::Draw { .. })).count();
        obs.eval(hash_case(&t, f), brackets > 4);
    }
    Ok(())
}

// ------------------------------------------------------------------ P04 ----

/// Keeps products representable: handles up to 10, five levels of nesting.
fn tame(doc: &mut Value) -> bool {
    for s in schema::sites(&doc.clone()) {
        if s.kind == K::Handle {
            for k in ["x", "y"] {
                let v = doc.pointer_mut(&s.ptr).and_then(|v| v.get_mut(k));
                match v {
                    Some(Value::Array(a)) => {
                        for x in a {
                            *x = json!(x.as_f64().unwrap_or(0.0).clamp(-10.0, 10.0));
                        }
                    }
                    Some(x) => *x = json!(x.as_f64().unwrap_or(0.0).clamp(-10.0, 10.0)),
                    None => {}
                }
            }
        }
    }
    true
}

fn p04_make(r: &mut Rng) -> Value {
    let mut p = Profile::full();
    p.layers = (1, 3);
    p.assets = (0, 2);
    p.anim = 0.6;
    p.path_anim = 0.6;
    p.zero_scale = 0.2;
    p.degenerate = 0.3;
    p.shapes = (1, 4);
    p.depth = 2;
    p.rounded_star = 0.6;
    let mut d = docgen::doc(r, &p);
    if r.chance(0.7) {
        let n = r.int(1, 10) as usize;
        mutate::soft(&mut d, r, n, 1e6);
    }
    tame(&mut d);
    let mut c = case_for(r, d, 3);
    // exactly on keyframes
    let mut ts = vec![];
    times(&c["doc"], &mut ts);
    for _ in 0..4 {
        if !ts.is_empty() {
            let t = *r.pick(&ts);
            c["frames"].as_array_mut().unwrap().push(json!(t));
        }
    }
    if r.chance(0.2) {
        let f = r.range(-1e6, 1e6);
        c["frames"].as_array_mut().unwrap().push(json!(f));
    }
    if r.chance(0.1) {
        c["tf"] = json!([0, 0, 0, 0, 0, 0]);
    }
    c
}

/// Every number that is somewhere the value of a "t", "ip" or "op" member.
fn times(v: &Value, out: &mut Vec<f64>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| times(x, out)),
        Value::Object(o) => {
            for (k, x) in o {
                if matches!(k.as_str(), "t" | "ip" | "op")
                    && let Some(f) = x.as_f64()
                {
                    out.push(f);
                }
                times(x, out);
            }
        }
        _ => {}
    }
}

fn fin(name: &str, x: f64) -> Result<(), String> {
    if x.is_finite() {
        Ok(())
    } else {
        Err(format!("{name} is {x}"))
    }
}

fn fin_path(path: &[PathEl]) -> Result<(), String> {
    for (i, e) in path.iter().enumerate() {
        let ps: Vec<Point> = match e {
            PathEl::MoveTo(p) | PathEl::LineTo(p) => vec![*p],
            PathEl::QuadTo(p, q) => vec![*p, *q],
            PathEl::CurveTo(p, q, r) => vec![*p, *q, *r],
            PathEl::ClosePath => vec![],
        };
        for p in ps {
            fin(&format!("a coordinate of outline element {i}"), p.x)?;
            fin(&format!("a coordinate of outline element {i}"), p.y)?;
        }
    }
    Ok(())
}

/// First number in the call that is not finite.
pub fn finite(e: &Ev) -> Result<(), String> {
    let tf = |t: &Tf| t.iter().try_for_each(|x| fin("a transform entry", *x));
    match e {
        Ev::PushLayer {
            alpha, tf: t, path, ..
        } => {
            fin("a layer's alpha", *alpha as f64)?;
            tf(t)?;
            fin_path(path)
        }
        Ev::PushClip { tf: t, path } => {
            tf(t)?;
            fin_path(path)
        }
        Ev::Draw {
            stroke,
            tf: t,
            brush,
            path,
        } => {
            tf(t)?;
            if let Some(s) = stroke {
                fin("a stroke width", s.width)?;
                if let Some(m) = s.miter {
                    fin("a miter limit", m)?;
                }
            }
            match brush {
                BrushRec::Solid(c) => c
                    .iter()
                    .try_for_each(|x| fin("a colour component", *x as f64))?,
                BrushRec::Linear {
                    start, end, stops, ..
                } => {
                    for x in [start.0, start.1, end.0, end.1] {
                        fin("a gradient point", x)?;
                    }
                    fin_stops(stops)?;
                }
                BrushRec::Radial {
                    center,
                    radius,
                    stops,
                    ..
                } => {
                    fin("a gradient centre", center.0)?;
                    fin("a gradient centre", center.1)?;
                    fin("a gradient radius", *radius as f64)?;
                    fin_stops(stops)?;
                }
                BrushRec::Other(s) => {
                    if s.contains("NaN") || s.contains("inf") {
                        return Err(format!("brush {s}"));
                    }
                }
            }
            fin_path(path)
        }
        Ev::Pop | Ev::Begin { .. } | Ev::End => Ok(()),
    }
}

fn fin_stops(s: &[(f32, [f32; 4])]) -> Result<(), String> {
    for (o, c) in s {
        fin("a stop offset", *o as f64)?;
        c.iter()
            .try_for_each(|x| fin("a stop's colour component", *x as f64))?;
    }
    Ok(())
}

fn p04_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let Some((t, comp)) = try_load(&c["doc"], obs) else {
        return Ok(());
    };
    let (tf, alpha) = (tf_of(c), alpha_of(c));
    let mut r = Renderer::new();
    for f in frames_of(c) {
        let Ok(evs) = render_with(&mut r, &comp, f, tf, alpha, 200_000) else {
            obs.count("renders that panic or are too long (no verdict)", 1);
            r = Renderer::new();
            continue;
        };
        obs.events(&evs);
        for (i, e) in evs.iter().enumerate() {
            finite(e).map_err(|m| format!("frame {f}: call {i} ({}): {m}: {e:?}", e.kind()))?;
        }
        obs.eval(
            hash_case(&t, f),
            evs.iter().any(|e| matches!(e, Ev::Draw { .. })),
        );
    }
    Ok(())
}

fn p04_fixed() -> Vec<(String, Value)> {
    let mut v = vec![];
    let fr = [0.0, 10.0, 20.0, 5.0, -5.0, 99.0, 1e6, -1e6];
    let h = json!({"x":[0],"y":[0]});
    let h1 = json!({"x":[1],"y":[1]});
    for (name, ks) in [
        ("one", json!([{"t":10,"s":[5,5]}])),
        (
            "two equal times",
            json!([{"t":10,"s":[5,5]},{"t":10,"s":[6,6]}]),
        ),
        (
            "three, two equal",
            json!([{"t":0,"s":[5,5]},{"t":10,"s":[6,6]},{"t":10,"s":[7,7]}]),
        ),
        (
            "descending",
            json!([{"t":20,"s":[5,5]},{"t":10,"s":[6,6]},{"t":0,"s":[7,7]}]),
        ),
        (
            "degenerate handles",
            json!([{"t":0,"s":[5,5],"o":h1,"i":h},{"t":10,"s":[6,6],"o":h,"i":h},{"t":20,"s":[7,7]}]),
        ),
        (
            "all at once",
            json!([{"t":10,"s":[5,5],"o":h,"i":h1},{"t":10,"s":[5,5],"o":h,"i":h1},{"t":10,"s":[5,5]}]),
        ),
        (
            "far apart",
            json!([{"t":-1e6,"s":[1e6,-1e6]},{"t":1e6,"s":[-1e6,1e6]}]),
        ),
        ("no values", json!([{"t":0,"s":[]},{"t":10,"s":[]}])),
    ] {
        for k in ["p", "a", "s", "r", "o", "sk", "sa"] {
            let mut d = doc1(json!([rect(0.0, 0.0, 9.0, 9.0), fill(1.0, 0.0, 0.0)]));
            d["layers"][0]["ks"][k] = kf(ks.clone());
            v.push(tcase(&format!("{name} in {k}"), d, &fr));
        }
        for k in ["s", "p", "r"] {
            let mut s = rect(0.0, 0.0, 9.0, 9.0);
            s[k] = kf(ks.clone());
            v.push(tcase(
                &format!("{name} in rect {k}"),
                doc1(json!([s, fill(1.0, 0.0, 0.0)])),
                &fr,
            ));
        }
        for k in ["p", "or", "os", "r", "pt", "ir", "is"] {
            let mut s = crate::p_load::star(5.0);
            s[k] = kf(ks.clone());
            v.push(tcase(
                &format!("{name} in star {k}"),
                doc1(json!([s, fill(1.0, 0.0, 0.0)])),
                &fr,
            ));
        }
        for k in ["s", "e", "o"] {
            let mut s = json!({"ty":"tm","s":fx(json!(10)),"e":fx(json!(60)),"o":fx(json!(0))});
            s[k] = kf(ks.clone());
            v.push(tcase(
                &format!("{name} in trim {k}"),
                doc1(json!([rect(0.0, 0.0, 9.0, 9.0), s, fill(1.0, 0.0, 0.0)])),
                &fr,
            ));
        }
        // a trim that starts or ends at a repeated vertex
        if name == "one" {
            let twice = json!([
                [0, 0],
                [100, 0],
                [100, 0],
                [100, 100],
                [0, 100],
                [0, 100],
                [0, 0]
            ]);
            for closed in [true, false] {
                for i in 0..32 {
                    let (a, b) = (25.0 * (i % 4) as f64, 12.5 * (i / 4) as f64);
                    let t = json!({"ty":"tm","s":fx(json!(b)),"e":fx(json!(a)),"o":fx(json!(0))});
                    v.push(tcase(
                        &format!("trim {b} to {a} of repeated vertices, {closed}"),
                        doc1(json!([sh(twice.clone(), closed), t, fill(1.0, 0.0, 0.0)])),
                        &[0.0],
                    ));
                }
            }
        }
        for k in ["s", "e", "g", "o"] {
            for ty in [1, 2] {
                let mut g = json!({"ty":"gs","w":fx(json!(2)),"o":fx(json!(100)),"s":fx(json!([0,0])),"e":fx(json!([0,0])),"t":ty,
                    "g":{"p":2,"k":fx(json!([0,1,0,0,1,0,1,0,0,1,1,0]))}});
                if k == "g" {
                    let mut ks = ks.clone();
                    for (i, x) in ks.as_array_mut().unwrap().iter_mut().enumerate() {
                        if name != "no values" {
                            x["s"] = if i % 2 == 0 {
                                json!([0, 1, 0, 0, 1, 0, 1, 0, 0, 1, 1, 0])
                            } else {
                                json!([0.5, 0, 0, 0, 0.5, 0, 0, 0, 0, 0, 0, 0])
                            };
                        }
                    }
                    g["g"]["k"] = kf(ks);
                } else {
                    g[k] = kf(ks.clone());
                }
                v.push(tcase(
                    &format!("{name} in gradient {ty} {k}"),
                    doc1(json!([rect(0.0, 0.0, 9.0, 9.0), g])),
                    &fr,
                ));
            }
        }
        let mut f = fill(1.0, 0.0, 0.0);
        f["c"] = kf(ks.clone());
        v.push(tcase(
            &format!("{name} in colour"),
            doc1(json!([rect(0.0, 0.0, 9.0, 9.0), f])),
            &fr,
        ));
        let mut ps = ks.clone();
        for (i, x) in ps.as_array_mut().unwrap().iter_mut().enumerate() {
            x["s"] = json!([bez(json!([[0, i], [9, 0], [9, 9]]), true)]);
        }
        let s = json!({"ty":"sh","ks":kf(ps)});
        v.push(tcase(
            &format!("{name} in path"),
            doc1(json!([s, fill(1.0, 0.0, 0.0)])),
            &fr,
        ));
    }
    for n in [0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 5.0, -4.0, 1e6] {
        for (or, ir, os, is) in [
            (0.0, 0.0, 100.0, 100.0),
            (50.0, 20.0, 100.0, 100.0),
            (-50.0, 0.0, -100.0, 1e6),
            (1e6, 1e6, 1e6, 1e6),
        ] {
            for sy in [1, 2] {
                let mut s = crate::p_load::star(n);
                s["or"] = fx(json!(or));
                s["ir"] = fx(json!(ir));
                s["os"] = fx(json!(os));
                s["is"] = fx(json!(is));
                s["sy"] = json!(sy);
                let t = json!({"ty":"tm","s":fx(json!(10)),"e":fx(json!(60)),"o":fx(json!(0))});
                if n < 100.0 {
                    v.push(tcase(
                        &format!("star {n} {or} {os} {sy}"),
                        doc1(json!([s, fill(1.0, 0.0, 0.0), t])),
                        &[0.0],
                    ));
                } else if or == 0.0 {
                    v.push(tcase(
                        &format!("star {n} {or} {os} {sy}"),
                        doc1(json!([s, fill(1.0, 0.0, 0.0)])),
                        &[0.0],
                    ));
                }
            }
        }
    }
    // trims of outlines of no length, scales of zero, stretch of zero
    for g in [
        rect(3.0, 3.0, 0.0, 0.0),
        rect(3.0, 3.0, 5.0, 0.0),
        rect(3.0, 3.0, -5.0, 7.0),
        sh(json!([]), true),
        sh(json!([[1, 1]]), true),
        sh(json!([[1, 1], [1, 1]]), true),
        sh(json!([[1, 1], [1, 1], [5, 5]]), false),
        json!({"ty":"el","p":fx(json!([0,0])),"s":fx(json!([0,0]))}),
        json!({"ty":"el","p":fx(json!([0,0])),"s":fx(json!([0,9]))}),
        json!({"ty":"el","p":fx(json!([0,0])),"s":fx(json!([-3,9]))}),
    ] {
        for (s, e, o) in [
            (0, 0, 0),
            (0, 100, 0),
            (20, 70, 0),
            (0, 50, 270),
            (70, 20, -30),
            (0, 100, 90),
            (-50, 150, 1000),
        ] {
            let t = json!({"ty":"tm","s":fx(json!(s)),"e":fx(json!(e)),"o":fx(json!(o))});
            let d = doc1(json!([g.clone(), t, fill(1.0, 0.0, 0.0)]));
            v.push(tcase(
                &format!("trim {s} {e} {o} of {}", hash_str(&g.to_string()) % 1000),
                d,
                &[0.0],
            ));
        }
        let mut r = g.clone();
        if r["ty"] == "rc" {
            r["r"] = fx(json!(1e6));
            v.push(tcase(
                &format!("round {}", hash_str(&g.to_string()) % 1000),
                doc1(json!([r, fill(1.0, 0.0, 0.0)])),
                &[0.0],
            ));
        }
    }
    for (k, x) in [
        ("s", json!([0, 0])),
        ("s", json!([0, 100])),
        ("sk", json!(90)),
        ("sk", json!(-90)),
        ("sk", json!(1e6)),
        ("r", json!(1e6)),
        ("o", json!(0)),
        ("o", json!(-1e6)),
    ] {
        let mut d = doc1(json!([rect(0.0, 0.0, 9.0, 9.0), fill(1.0, 0.0, 0.0)]));
        d["layers"][0]["ks"][k] = fx(x.clone());
        v.push(tcase(&format!("{k} {x}"), d, &[0.0]));
    }
    for sr in [json!(0), json!(1e-6), json!(-1), json!(1e6), Value::Null] {
        let mut p = precomp(1, "a");
        p["sr"] = sr.clone();
        p["st"] = json!(0);
        let mut l = colored(1);
        l["ks"]["p"] = kf(json!([{"t":0,"s":[0,0]},{"t":10,"s":[9,9]}]));
        l["ip"] = json!(-1e6);
        l["op"] = json!(1e6);
        let mut d = docl(json!([p]));
        d["assets"] = json!([{"id":"a","layers":[l]}]);
        v.push(tcase(&format!("stretch {sr}"), d, &fr));
    }
    v
}

// ------------------------------------------------------------------ P12 ----

/// Property sites of a document by kind, constant ones only.
fn const_sites(doc: &Value) -> Vec<schema::Site> {
    schema::sites(doc)
        .into_iter()
        .filter(|s| {
            matches!(
                s.kind,
                K::Scalar | K::Vector | K::Color | K::Position | K::Path
            )
        })
        .filter(|s| {
            let k = &doc.pointer(&s.ptr).unwrap()["k"];
            !k.as_array()
                .is_some_and(|a| a.iter().any(|x| x.is_object()))
        })
        .collect()
}

fn keyed(r: &mut Rng, v: &Value) -> Value {
    let s = match v {
        Value::Number(_) => json!([v]),
        Value::Object(_) => json!([v]),
        _ => v.clone(),
    };
    let n = r.int(1, 4);
    let mut t = r.int(-20, 60) as f64;
    let path = v.is_object();
    let ks: Vec<Value> = (0..n)
        .map(|i| {
            let mut k = json!({"t": t, "s": s});
            t += r.int(1, 30) as f64 * 0.5;
            if i < n - 1 {
                match r.below(3) {
                    0 => k["h"] = json!(1),
                    1 => {
                        k["o"] = json!({"x":[r.nice(0.0, 1.0)],"y":[r.nice(-1.0, 2.0)]});
                        k["i"] = json!({"x":[r.nice(0.0, 1.0)],"y":[r.nice(-1.0, 2.0)]});
                    }
                    _ => {}
                }
                if path && r.chance(0.4) {
                    k["e"] = s.clone();
                }
            }
            k
        })
        .collect();
    json!({"a":1,"k":ks})
}

/// The same position given as separate x and y.
fn split(p: &Value) -> Option<Value> {
    let part = |i: usize| -> Option<Value> {
        match p["k"].as_array()? {
            a if a.iter().all(|x| x.is_number()) && a.len() >= 2 => Some(json!({"a":0,"k":a[i]})),
            a => {
                let ks: Option<Vec<Value>> = a
                    .iter()
                    .map(|k| {
                        let mut k = k.clone();
                        let s = k["s"].as_array()?.get(i)?.clone();
                        k["s"] = json!([s]);
                        if let Some(e) = k.get("e").cloned() {
                            k["e"] = json!([e.as_array()?.get(i)?]);
                        }
                        let o = k.as_object_mut()?;
                        o.remove("ti");
                        o.remove("to");
                        for h in ["i", "o"] {
                            // separate handles per component mean something else
                            if let Some(x) = o.get(h) {
                                for c in ["x", "y"] {
                                    if x[c].as_array().is_some_and(|a| {
                                        a.len() > 1 && a.iter().any(|y| y != &a[0])
                                    }) {
                                        return None;
                                    }
                                }
                            }
                        }
                        Some(k)
                    })
                    .collect();
                Some(json!({"a":1,"k":ks?}))
            }
        }
    };
    Some(json!({"s":true,"x":part(0)?,"y":part(1)?}))
}

fn p12_make(r: &mut Rng) -> Value {
    let mut p = Profile::full();
    p.anim = *r.pick(&[0.0, 0.2, 0.5]);
    p.layers = (1, 4);
    let d = docgen::doc(r, &p);
    let mut e = d.clone();
    let kind = r.below(3);
    let mut shift = 0.0;
    match kind {
        0 => {
            let q = *r.pick(&[0.1, 0.4, 1.0]);
            for s in const_sites(&d) {
                if r.chance(q) {
                    let k = d.pointer(&s.ptr).unwrap();
                    let n = keyed(r, &k["k"]);
                    let x = e.pointer_mut(&s.ptr).unwrap();
                    x["a"] = n["a"].clone();
                    x["k"] = n["k"].clone();
                }
            }
        }
        1 => {
            for s in schema::sites(&d) {
                if s.kind == K::Position && s.ptr.ends_with("/p") && r.chance(0.7) {
                    let owner = &s.ptr[..s.ptr.len() - 2];
                    let o = d.pointer(owner).unwrap();
                    let is_tr = owner.ends_with("/ks") || o["ty"] == "tr";
                    if is_tr && let Some(x) = split(&o["p"]) {
                        e.pointer_mut(owner).unwrap()["p"] = x;
                    }
                }
            }
        }
        _ => {
            shift = *r.pick(&[-64.0, -1.0, 0.5, 1.0, 7.0, 16.0, 100.0, 1000.0, -0.25]);
            docgen::shift_doc(&mut e, shift);
        }
    }
    let mut c = case_for(r, d, 4);
    c["other"] = e;
    c["shift"] = json!(shift);
    c["kind"] = json!(["constant and keyframed", "joined and split", "shifted"][kind]);
    // quarter frames: sums are exact
    for f in c["frames"].as_array_mut().unwrap() {
        *f = json!((num(f) * 4.0).round() * 0.25);
    }
    c
}

fn p12_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let (a, b) = (&c["doc"], &c["other"]);
    let (x, y) = (load(a)?, load(b)?);
    let (tf, alpha) = (tf_of(c), alpha_of(c));
    let shift = num(&c["shift"]);
    let kind = c["kind"].as_str().unwrap();
    let changed = a != b;
    let h = hash_str(&text::plain(b));
    for f in frames_of(c) {
        if shift != 0.0 {
            let w = refm::render(a, f, tf, alpha);
            if w.ambiguous || refm::render(b, f + shift, tf, alpha).ambiguous {
                obs.count("frames on a discontinuity up to rounding (no verdict)", 1);
                continue;
            }
        }
        let e = render(&x, f, tf, alpha)?;
        let g = render(&y, f + shift, tf, alpha)?;
        // sub-pixel differences of keyframe weights move the ends of trims
        let loose = if a.to_string().contains("\"tm\"") {
            Cut::Curved
        } else {
            Cut::No
        };
        let loose = vec![loose; e.len()];
        cmp::compare(&g, &e, &loose, &ALL)
            .map_err(|m| format!("frame {f} ({kind}, shift {shift}): {m}"))?;
        obs.events(&e);
        obs.count(&format!("pairs: {kind}"), 1);
        obs.eval(
            crate::obs::mix(h, f.to_bits()),
            changed && e.iter().any(|e| matches!(e, Ev::Draw { .. })),
        );
    }
    Ok(())
}

// ------------------------------------------------------------------ P20 ----

fn p20_make(r: &mut Rng) -> Value {
    let mut p = Profile::full();
    p.matte = 0.3;
    p.mask = 0.3;
    let d = if r.chance(0.15) {
        let mut d = docgen::doc(r, &repeater_profile());
        fill_groups(&mut d);
        d
    } else {
        docgen::doc(r, &p)
    };
    let mut c = case_for(r, d, 4);
    c["tf"] = loop {
        let t = random_tf(r);
        if t != refm::ID {
            break json!(t);
        }
    };
    c["alpha"] = json!(*r.pick(&[1.0, 0.5, 0.25, 0.999, 0.01, 0.7, 0.0, 1.5, 4.0]));
    c
}

fn p20_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let doc = &c["doc"];
    let t = text::plain(doc);
    let comp = if t.contains("__repeater") {
        match load_with_repeaters(doc, obs)? {
            Some(c) => c,
            None => return Ok(()),
        }
    } else {
        load_text(&t)?
    };
    let (tf, alpha) = (tf_of(c), alpha_of(c));
    for f in frames_of(c) {
        let base = render(&comp, f, refm::ID, 1.0)?;
        for (t2, a2) in [(tf, 1.0), (refm::ID, alpha), (tf, alpha)] {
            let got = render(&comp, f, t2, a2)?;
            let want: Vec<Ev> = base.iter().map(|e| moved(e, &t2, a2)).collect();
            let mask = Mask { ..ALL };
            cmp::compare(&got, &want, &[], &mask)
                .map_err(|m| format!("frame {f}, transform {t2:?}, alpha {a2}: {m}"))?;
            obs.count("calls compared", got.len() as u64);
        }
        obs.events(&base);
        obs.eval(
            hash_case(&t, f),
            base.iter().any(|e| matches!(e, Ev::Draw { .. })),
        );
    }
    Ok(())
}

fn moved(e: &Ev, t: &Tf, a: f64) -> Ev {
    let mut e = e.clone();
    match &mut e {
        Ev::PushLayer { tf, .. } | Ev::PushClip { tf, .. } => *tf = refm::mul(t, tf),
        Ev::Draw { tf, brush, .. } => {
            *tf = refm::mul(t, tf);
            let s = |x: &mut f32| *x = (*x as f64 * a) as f32;
            match brush {
                BrushRec::Solid(c) => s(&mut c[3]),
                BrushRec::Linear { stops, .. } | BrushRec::Radial { stops, .. } => {
                    stops.iter_mut().for_each(|x| s(&mut x.1[3]));
                }
                BrushRec::Other(_) => {}
            }
        }
        _ => {}
    }
    e
}

// ------------------------------------------------------------------ P28 ----

fn history_doc(r: &mut Rng) -> Value {
    match r.below(6) {
        0 => {
            let mut d = docgen::doc(r, &few_refs());
            mutate::tangle(&mut d, r);
            d
        }
        1 => {
            let p = Profile {
                trim: 0.4,
                anim: 0.4,
                ..repeater_profile()
            };
            let mut d = docgen::doc(r, &p);
            fill_groups(&mut d);
            d
        }
        2 => {
            let mut p = Profile::full();
            p.trim = 0.6;
            p.anim = 0.6;
            p.layers = (1, 4);
            docgen::doc(r, &p)
        }
        3 => {
            let mut d = hostile_doc(r);
            let n = r.int(1, 6) as usize;
            mutate::soft(&mut d, r, n, 1e6);
            d
        }
        _ => {
            let mut p = Profile::full();
            p.mask = 0.4;
            docgen::doc(r, &p)
        }
    }
}

/// The same document with other numbers in some of its values.
fn sibling(d: &Value, r: &mut Rng) -> Value {
    fn numbers(v: &mut Value, r: &mut Rng) {
        match v {
            Value::Number(n) if r.chance(0.5) => {
                if let Some(x) = n.as_f64() {
                    *v = json!((x + r.int(1, 9) as f64 * x.abs().max(1.0) / 16.0).min(1e6));
                }
            }
            Value::Array(a) => a.iter_mut().for_each(|x| numbers(x, r)),
            _ => {}
        }
    }
    fn walk(v: &mut Value, r: &mut Rng, q: f64) {
        match v {
            Value::Object(o) => {
                for (k, x) in o.iter_mut() {
                    let keyframes = x
                        .as_array()
                        .is_some_and(|a| a.iter().any(|e| e.is_object()));
                    if (k == "k" && !x.is_object() && !keyframes) || k == "s" && x.is_array() {
                        if r.chance(q) {
                            numbers(x, r);
                        }
                    } else if k != "assets" || r.chance(0.5) {
                        walk(x, r, q);
                    }
                }
            }
            Value::Array(a) => a.iter_mut().for_each(|x| walk(x, r, q)),
            _ => {}
        }
    }
    let mut d = d.clone();
    let q = *r.pick(&[0.1, 0.5, 1.0]);
    walk(&mut d, r, q);
    d
}

/// Renders of documents that differ in values only, at few frames: what a renderer remembers
/// of one must not show in another.
fn p28_siblings(r: &mut Rng) -> Value {
    let mut p = Profile::full();
    p.layers = (1, 3);
    p.shapes = (1, 2);
    p.parent = 0.6;
    p.mask = 0.4;
    p.deco = 0.3;
    p.trim = 0.4;
    p.short = if r.chance(0.5) { 0.0 } else { 0.4 };
    let first = docgen::doc(r, &p);
    let mut docs = vec![first];
    for _ in 0..r.int(1, 3) {
        let d = sibling(&docs[0], r);
        docs.push(d);
    }
    let frames = docgen::frames(&docs[0], r, 2);
    let (tf, alpha) = (random_tf(r), random_alpha(r));
    let steps: Vec<Value> = (0..r.int(3, 10))
        .map(|_| json!({"doc": r.below(docs.len()), "frame": enc(*r.pick(&frames)), "tf": tf, "alpha": alpha}))
        .collect();
    let mut steps = steps;
    if r.chance(0.3) {
        cut_short(&mut steps, r);
    }
    json!({"docs": docs, "steps": steps, "drop": r.chance(0.5)})
}

fn p28_make(r: &mut Rng) -> Value {
    if r.chance(0.5) {
        return p28_siblings(r);
    }
    let docs: Vec<Value> = (0..r.int(1, 3)).map(|_| history_doc(r)).collect();
    let mut pool = vec![];
    for (i, d) in docs.iter().enumerate() {
        for f in docgen::frames(d, r, 4) {
            let tf = random_tf(r);
            pool.push(json!({"doc":i,"frame":enc(f),"tf":tf,"alpha":random_alpha(r)}));
        }
        if r.chance(0.3) {
            let f = odd_f64(r);
            pool.push(json!({"doc":i,"frame":enc(f)}));
        }
    }
    let mut steps: Vec<Value> = (0..r.int(3, 14)).map(|_| r.pick(&pool).clone()).collect();
    if r.chance(0.3) {
        cut_short(&mut steps, r);
    }
    json!({"docs":docs,"steps":steps,"drop":r.chance(0.2)})
}

/// Some renders end early, by a panic in the sink.
fn cut_short(steps: &mut [Value], r: &mut Rng) {
    for s in steps {
        if r.chance(0.4) {
            s["cut"] = json!(r.int(1, 1000));
        }
    }
}

fn p28_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let docs = c["docs"].as_array().unwrap();
    let mut comps = vec![];
    for d in docs {
        let comp = if d.to_string().contains("__repeater") {
            match load_with_repeaters(d, obs)? {
                Some(c) => c,
                None => return Ok(()),
            }
        } else {
            match try_load(d, obs) {
                Some((_, c)) => c,
                None => return Ok(()),
            }
        };
        let clone = comp.clone();
        let before = dump(&comp);
        if dump(&clone) != before {
            return Err("a clone differs from its original".into());
        }
        comps.push((comp, clone, before));
    }
    let mut one = Renderer::new();
    let mut on_clones = Renderer::default();
    for (n, s) in c["steps"].as_array().unwrap().iter().enumerate() {
        let i = s["doc"].as_u64().unwrap() as usize;
        let (f, tf, alpha) = (num(&s["frame"]), tf_of(s), alpha_of(s));
        let (comp, clone, _) = &comps[i];
        let Ok(want) = render(comp, f, tf, alpha) else {
            obs.count("histories with a render that panics (no verdict)", 1);
            return Ok(());
        };
        if let Some(k) = s["cut"].as_u64() {
            let k = k as usize % want.len();
            for (r, c) in [(&mut one, comp), (&mut on_clones, clone)] {
                match render_with(r, c, f, tf, alpha, k) {
                    Err(e) if e.contains("drawing calls") => {}
                    Err(e) => return Err(format!("step {n}: {e}")),
                    Ok(_) => {
                        return Err(format!(
                            "step {n} (frame {f}): fewer calls than from a fresh renderer"
                        ));
                    }
                }
            }
            obs.count("renders cut short by a panic in the sink", 1);
            continue;
        }
        let got = render_with(&mut one, comp, f, tf, alpha, BUDGET)?;
        same_events(&got, &want).map_err(|m| {
            format!("step {n} (frame {f}): a used renderer against a fresh one: {m}")
        })?;
        let got = if c["drop"] == json!(true) {
            // a clone that lives for one render: its memory is used again by the next
            let brief = Box::new(clone.clone());
            render_with(&mut on_clones, &brief, f, tf, alpha, BUDGET)?
        } else {
            render_with(&mut on_clones, clone, f, tf, alpha, BUDGET)?
        };
        same_events(&got, &want)
            .map_err(|m| format!("step {n} (frame {f}): a clone against its original: {m}"))?;
        obs.events(&want);
        let h = crate::obs::mix(
            hash_str(&docs[i].to_string()),
            crate::obs::mix(f.to_bits(), n as u64),
        );
        obs.eval(h, n > 0 && want.len() > 2);
    }
    for (comp, clone, before) in &comps {
        if dump(comp) != *before || dump(clone) != *before {
            return Err("rendering changed the animation".into());
        }
    }
    obs.count("histories", 1);
    Ok(())
}

// ------------------------------------------------------------------ P30 ----

/// One or two long outlines, moving and painted: stars and polygons of many points, paths of many
/// vertices, gradients of many stops.
fn crowded(r: &mut Rng) -> Value {
    let mut shapes = vec![];
    for _ in 0..r.int(1, 2) {
        let n = r.int(150, 2500);
        let s = match r.below(3) {
            0 | 1 => {
                let mut s = crate::p_load::star(5.0);
                s["sy"] = json!(r.int(1, 2));
                s["pt"] = kf(json!([{"t": 0, "s": [n]}, {"t": 40, "s": [n + r.int(0, 500)]}]));
                s
            }
            _ => {
                let v: Vec<Value> = (0..n).map(|i| json!([i % 97, (i * 31) % 101])).collect();
                let a = bez(json!(v), true);
                let b = bez(json!(v.into_iter().rev().collect::<Vec<_>>()), true);
                json!({"ty":"sh","ks":kf(json!([{"t":0,"s":[a]},{"t":30,"s":[b]}]))})
            }
        };
        shapes.push(s);
    }
    if r.chance(0.3) {
        shapes.push(
            json!({"ty":"tm","s":kf(json!([{"t":0,"s":[0]},{"t":30,"s":[20]}])),"e":fx(json!(90)),
            "o":fx(json!(r.int(-90, 90))),"m":r.int(1, 2)}),
        );
    }
    if r.chance(0.5) {
        let n = r.int(2, 300);
        let k: Vec<f64> = (0..n)
            .flat_map(|i| [i as f64 / n as f64, 0.5, (i % 7) as f64 / 7.0, 1.0])
            .collect();
        shapes.push(json!({"ty":"gf","o":fx(json!(100)),"s":fx(json!([0,0])),"e":fx(json!([90,9])),"t":r.int(1, 2),
            "g":{"p":n,"k":kf(json!([{"t":0,"s":k},{"t":20,"s":k}]))}}));
    } else {
        shapes.push(fill(0.2, 0.4, 0.6));
    }
    doc1(Value::Array(shapes))
}

fn p30_make(r: &mut Rng) -> Value {
    let mut d = history_doc(r);
    mutate::cap_points(&mut d);
    if r.chance(0.03) {
        d = crowded(r);
    }
    let n = r.int(1, 6) as usize;
    let f: Vec<Value> = docgen::frames(&d, r, n).into_iter().map(enc).collect();
    json!({"doc":d,"frames":f,"rounds":r.int(3, 9),"many":r.chance(0.15)})
}

fn p30_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let doc = &c["doc"];
    let t = text::plain(doc);
    let rep = t.contains("__repeater");
    let frames = frames_of(c);
    let mut rounds = c["rounds"].as_u64().unwrap();
    let load = || -> Option<Composition> {
        if rep {
            load_with_repeaters(doc, &mut Obs::default()).ok()?
        } else {
            guard(|| Composition::from_slice(t.as_bytes())).ok()?.ok()
        }
    };
    // once before measuring: whatever is initialised on first use
    let Some(warm) = load() else {
        return Ok(());
    };
    let mut drawn = vec![];
    for f in &frames {
        match render(&warm, *f, refm::ID, 1.0) {
            Ok(e) => drawn.push(e),
            Err(_) => return Ok(()),
        }
    }
    let size: usize = dump(&warm).len();
    drop(warm);
    let work = |e: &[Ev]| -> i64 {
        e.iter()
            .map(|e| match e {
                Ev::Draw { path, .. } | Ev::PushClip { path, .. } | Ev::PushLayer { path, .. } => {
                    path.len() as i64 + 4
                }
                _ => 1,
            })
            .sum()
    };
    let works: Vec<i64> = drawn.iter().map(|e| work(e)).collect();
    // large drawings are not repeated as often
    let total: i64 = works.iter().sum();
    let heavy = total > 60_000;
    if heavy {
        rounds = rounds.min(3);
    }
    let nontrivial = drawn.iter().any(|e| e.len() > 2);
    drop(drawn);
    let mut many: Vec<f64> = vec![];
    if c["many"] == true {
        for k in 0..if heavy { 4 } else { 40 } {
            many.extend(frames.iter().map(|f| f + k as f64 * 1e-5));
        }
    }
    let mut order = frames.clone();
    // nothing of the monitor's own is allocated between here and the last measurement
    let start = heap::live();
    let comp = load().unwrap();
    let loaded = heap::live() - start;
    let pass = |r: &mut Renderer, frames: &[f64]| -> i64 {
        for f in frames {
            let mut rec = crate::ev::Recorder::new(BUDGET);
            rec.keep = false;
            r.append(&comp, *f, kurbo::Affine::IDENTITY, 1.0, &mut rec);
        }
        heap::live()
    };
    let single = |f: f64| -> i64 {
        let mut fresh = Renderer::new();
        heap::reset_peak();
        let before = heap::live();
        pass(&mut fresh, &[f]);
        heap::peak() - before
    };
    let mut largest = 0;
    for (f, w) in frames.iter().zip(&works) {
        let used = single(*f);
        largest = largest.max(used);
        let bound = 40_000 + 1500 * w + 100 * size as i64;
        if used > bound {
            return Err(format!(
                "frame {f}: a render whose calls carry {w} outline elements, of an animation whose description has {size} \
characters, used {used} bytes (bound {bound})"
            ));
        }
    }
    let mut r = Renderer::new();
    let bare = heap::live();
    // the buffers exchange roles, so each order is drawn twice before they have settled
    let first = pass(&mut r, &frames);
    pass(&mut r, &frames);
    order.reverse();
    pass(&mut r, &order);
    let settled = pass(&mut r, &order);
    let bound = 4 * largest + 4096;
    if settled - bare > bound {
        return Err(format!(
            "after a few rounds the renderer holds {} bytes, although the largest single render takes {largest}",
            settled - bare
        ));
    }
    let mut last = settled;
    for k in 0..rounds {
        let now = pass(&mut r, if k % 3 == 1 { &order } else { &frames });
        if now > last {
            return Err(format!(
                "drawing the same {} frames again, round {}, retained {} more bytes (after the first round {}, settled {})",
                frames.len(),
                k + 5,
                now - last,
                first - bare,
                settled - bare
            ));
        }
        last = now;
    }
    if !many.is_empty() {
        for f in &many[many.len() - frames.len()..] {
            largest = largest.max(single(*f));
        }
        let held = pass(&mut r, &many) - bare;
        if held > 4 * largest + 4096 {
            return Err(format!(
                "after {} different frames the renderer holds {held} bytes, although the largest single render takes {largest}",
                many.len()
            ));
        }
    }
    drop(r);
    drop(comp);
    let end = heap::live();
    if end != start {
        return Err(format!(
            "{} bytes are still held after dropping renderer and animation",
            end - start
        ));
    }
    obs.count(
        "renders measured",
        frames.len() as u64 * (rounds + 5) + many.len() as u64,
    );
    if settled > first {
        obs.count(
            "cases whose buffers still grew in the rounds before they settled",
            1,
        );
    }
    obs.max("bytes held by a loaded animation", loaded as u64);
    obs.max("bytes used by one render", largest as u64);
    obs.eval(hash_str(&c.to_string()), nontrivial);
    Ok(())
}

fn p30_fixed() -> Vec<(String, Value)> {
    let mut out = vec![];
    for f in [
        "/repo/examples/assets/google_fonts/Tiger.json",
        "/repo/examples/assets/PolyStarTest.json",
    ] {
        if let Ok(t) = std::fs::read_to_string(f)
            && let Ok(d) = serde_json::from_str::<Value>(&t)
        {
            out.push((
                f.rsplit('/').next().unwrap().to_string(),
                json!({"doc":d,"frames":[0,10,20.5,60],"rounds":10,"many":true}),
            ));
        }
    }
    out
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P02",
            fixed: p02_fixed,
            make: p02_make,
            check: p02_check,
            quick: 10000,
            thorough: 700_000,
            rule: "documents with tangled, cyclic and dangling parents, mattes and precompositions, with values of odd \
size, damaged or unsupported parts, at ordinary, boundary, huge, infinite and not-a-number frames, with odd caller \
transforms and alphas, in a process that is watched for panics, aborts, stack overflows, memory exhaustion, hangs, and \
more than 3,000,000 drawing calls. Distinct: by document and frame. Non-trivial: at least one layer was entered.",
            assumptions: &[
                "stack of 8 MiB",
                "the build under test has overflow checks and debug assertions on",
            ],
            hang: 30,
        },
        Prop {
            id: "P03",
            fixed: p02_fixed,
            make: p03_make,
            check: p03_check,
            quick: 12000,
            thorough: 700_000,
            rule: "the call log of every render is run through a stack automaton of the bracket protocol; documents \
dense in masks, mattes and precompositions, tangled and damaged ones, odd frames, transforms and alphas. Distinct: by \
document and frame. Non-trivial: more than the outermost clip and one layer group.",
            assumptions: &[],
            hang: 30,
        },
        Prop {
            id: "P04",
            fixed: p04_fixed,
            make: p04_make,
            check: p04_check,
            quick: 10000,
            thorough: 500_000,
            rule: "every number of every call tested for finiteness; documents with degenerate shapes, zero scales, \
odd values up to 1e6, equal and descending key times, rendered at frames that coincide with key times. Distinct: by \
document and frame. Non-trivial: something is drawn.",
            assumptions: &["easing handles up to 10 in magnitude"],
            hang: 30,
        },
        Prop {
            id: "P12",
            fixed: none,
            make: p12_make,
            check: p12_check,
            quick: 8000,
            thorough: 250_000,
            rule: "pairs of documents that differ only in constant against keyframed values, joined against split \
positions, or a shift of the top-level timeline; the two call logs are compared with each other, no reference involved. \
Distinct: by changed document and frame. Non-trivial: the documents differ and something is drawn.",
            assumptions: &["numbers compared with relative tolerance 2e-5"],
            hang: 30,
        },
        Prop {
            id: "P20",
            fixed: none,
            make: p20_make,
            check: p20_check,
            quick: 12000,
            thorough: 250_000,
            rule: "each frame rendered with the identity and alpha 1, with a transform, with an alpha, and with both; the \
logs are compared call by call after applying the transform and alpha to the first one. Distinct: by document and frame. \
Non-trivial: something is drawn.",
            assumptions: &["numbers compared with relative tolerance 2e-5"],
            hang: 30,
        },
        Prop {
            id: "P28",
            fixed: none,
            make: p28_make,
            check: p28_check,
            quick: 6000,
            thorough: 300_000,
            rule: "random histories of up to 14 renders of up to three animations with one renderer; every log compared \
exactly with a fresh renderer's, and with the log of a clone rendered by another long-lived renderer; the animations' \
complete Debug text compared before and after. Distinct: by document, frame and step. Non-trivial: not the first step \
and a layer was entered.",
            assumptions: &["a Debug text shows every field of the animation"],
            hang: 30,
        },
        Prop {
            id: "P30",
            fixed: p30_fixed,
            make: p30_make,
            check: p30_check,
            quick: 6000,
            thorough: 300_000,
            rule: "live and peak heap bytes of the thread, counted by the global allocator: per render, after each round \
of the same frames, after many different frames, and after dropping everything. Distinct: by case. Non-trivial: a layer \
was entered.",
            assumptions: &[
                "the code under test allocates through the global allocator and on the calling thread",
            ],
            hang: 30,
        },
    ]
}
