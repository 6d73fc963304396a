//! Properties decided by comparison with the reference interpreter.

use crate::base::*;
use crate::cmp::{self, ALL, Mask, NONE};
use crate::docgen::{self, Profile};
use crate::ev::{Ev, brush_rec};
use crate::obs::Obs;
use crate::refm::{self, Cut, When};
use crate::rng::Rng;
use crate::run::Prop;
use crate::text;
use kurbo::{PathEl, Point};
use serde_json::{Value, json};
use velato::Renderer;
#[cfg(feature = "model")]
use velato::model::{self, Content, Shape};

const GEN: &str = "documents drawn by the grammar-based generator (profile of this property), rendered at frames \
drawn from key times, in/out points, their neighbourhoods and the whole timeline, each compared call by call with \
the independent reference interpreter; non-trivial: ";

// ------------------------------------------------------------------ P10 ----

fn p10_profile() -> Profile {
    Profile {
        anim: 0.8,
        hold: 0.2,
        ease: 0.7,
        overshoot: 0.3,
        layers: (1, 2),
        shapes: (1, 3),
        rect: 1.0,
        ellipse: 1.0,
        star: 0.7,
        path: 0.1,
        fill: 1.0,
        stroke: 1.0,
        ltf: 0.6,
        gtf: 0.6,
        split: 0.2,
        group: 0.3,
        opacity: 0.6,
        color_anim: true,
        unique_colors: false,
        rounded_rect: 0.6,
        ..Profile::default()
    }
}

fn has_keyframes(doc: &Value) -> bool {
    match doc {
        Value::Object(o) => {
            (o.contains_key("t") && o.contains_key("s") && o["t"].is_number())
                || o.values().any(has_keyframes)
        }
        Value::Array(a) => a.iter().any(has_keyframes),
        _ => false,
    }
}

fn p10_make(r: &mut Rng) -> Value {
    mk(r, &p10_profile(), 6)
}

fn p10_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mask = Mask {
        tf: true,
        path: true,
        color: true,
        alpha: true,
        stroke: true,
        ..NONE
    };
    let k = has_keyframes(&c["doc"]);
    spec(c, obs, &mask, |o| k && some_draw(o))
}

fn moving(ks: Value) -> Value {
    let mut l = shape_layer(1, json!([rect(0.0, 0.0, 10.0, 10.0), fill(1.0, 0.0, 0.0)]));
    l["ks"]["p"] = kf(ks);
    docl(json!([l]))
}

fn p10_fixed() -> Vec<(String, Value)> {
    let fr = [
        -5.0, 0.0, 1e-9, 3.0, 5.0, 9.999, 10.0, 10.001, 15.0, 20.0, 20.5, 99.0,
    ];
    let mut v = vec![
        tcase(
            "linear",
            moving(json!([{"t":0,"s":[0,0]},{"t":10,"s":[100,50]},{"t":20,"s":[0,80]}])),
            &fr,
        ),
        tcase("single", moving(json!([{"t":10,"s":[7,8]}])), &fr),
        tcase(
            "hold",
            moving(
                json!([{"t":0,"s":[0,0],"h":1},{"t":10,"s":[100,50]},{"t":20,"s":[0,80],"h":1}]),
            ),
            &fr,
        ),
        tcase(
            "ease",
            moving(
                json!([{"t":0,"s":[0,0],"o":{"x":[0.9],"y":[0.1]},"i":{"x":[0.1],"y":[0.9]}},
                {"t":10,"s":[100,50],"o":{"x":0.3,"y":1.4},"i":{"x":0.6,"y":-0.4}},{"t":20,"s":[0,80]}]),
            ),
            &fr,
        ),
        tcase(
            "one-sided-hold-with-handles",
            moving(
                json!([{"t":0,"s":[0,0],"h":1,"o":{"x":[0.9],"y":[0.1]},"i":{"x":[0.1],"y":[0.9]}},{"t":10,"s":[100,50]}]),
            ),
            &fr,
        ),
        tcase(
            "handles-per-component-equal",
            moving(
                json!([{"t":0,"s":[0,0],"o":{"x":[0.9,0.9],"y":[0.1,0.1]},"i":{"x":[0.1,0.1],"y":[0.9,0.9]}},
                {"t":10,"s":[100,50],"o":{"x":[0.2,0.2],"y":[0.1,0.1]},"i":{"x":[0.3,0.3],"y":[0.9,0.9]}},{"t":20,"s":[0,80]}]),
            ),
            &fr,
        ),
    ];
    for (name, prop) in [("opacity", "o"), ("rotation", "r")] {
        let mut l = shape_layer(1, json!([rect(0.0, 0.0, 10.0, 10.0), fill(1.0, 0.0, 0.0)]));
        l["ks"][prop] = kf(json!([{"t":0,"s":[10]},{"t":10,"s":[90],"h":1},{"t":20,"s":[50]}]));
        v.push(tcase(&format!("scalar-{name}"), docl(json!([l])), &fr));
    }
    // handles that differ between components
    v.push((
        "handles-per-component-different".into(),
        json!({"per_component": true, "frames": [2.5, 5.0, 7.5],
          "doc": moving(json!([{"t":0,"s":[0,0],"o":{"x":[0.9,0.1],"y":[0.1,0.9]},"i":{"x":[0.9,0.1],"y":[0.1,0.9]}},
            {"t":10,"s":[100,100]}]))}),
    ));
    v
}

fn p10_check_all(c: &Value, obs: &mut Obs) -> Result<(), String> {
    if c["per_component"] == true {
        let comp = load(&c["doc"])?;
        let k = &c["doc"]["layers"][0]["ks"]["p"]["k"][0];
        for f in frames_of(c) {
            let got = render(&comp, f, refm::ID, 1.0)?;
            obs.events(&got);
            let want: Vec<f64> = (0..2)
                .map(|d| {
                    let h = |n: &str| (num(&k[n]["x"][d]), num(&k[n]["y"][d]));
                    100.0 * refm::ease(f / 10.0, h("o"), h("i"))
                })
                .collect();
            for e in &got {
                if let Ev::Draw { tf, .. } = e
                    && !(cmp::near(tf[4], want[0]) && cmp::near(tf[5], want[1]))
                {
                    return Err(format!(
                        "frame {f}: position ({}, {}) but each component's own easing curve gives ({}, {})",
                        tf[4], tf[5], want[0], want[1]
                    ));
                }
            }
        }
        return Ok(());
    }
    p10_check(c, obs)
}

// ------------------------------------------------------------------ P11 ----

fn p11_make(r: &mut Rng) -> Value {
    let p = Profile {
        path_anim: 0.85,
        hold: 0.25,
        ease: 0.5,
        missing: 0.2,
        overshoot: 0.2,
        layers: (1, 3),
        shapes: (1, 3),
        rect: 0.0,
        path: 1.0,
        mask: 0.4,
        ltf: 0.2,
        big: 0.04,
        ..Profile::default()
    };
    mk(r, &p, 6)
}

fn p11_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mask = Mask {
        layers: true,
        path: true,
        clip_path: true,
        ..NONE
    };
    let k = has_keyframes(&c["doc"]);
    spec(c, obs, &mask, |o| k && some_draw(o))
}

fn morph(ks: Value) -> Value {
    doc1(json!([{"ty":"sh","ks":kf(ks)}, fill(0.0, 1.0, 0.0)]))
}

fn p11_fixed() -> Vec<(String, Value)> {
    let a = bez(json!([[0, 0], [10, 0], [10, 10]]), true);
    let b = bez(json!([[5, 5], [30, 0], [10, 40]]), true);
    let c = bez(json!([[50, 5], [3, 9], [1, 4]]), true);
    let open = bez(json!([[5, 5], [30, 0], [10, 40]]), false);
    let fr = [
        -1.0, 0.0, 2.5, 5.0, 9.0, 10.0, 12.0, 15.0, 20.0, 20.25, 50.0,
    ];
    vec![
        tcase("two", morph(json!([{"t":0,"s":[a]},{"t":10,"s":[b]}])), &fr),
        tcase("single", morph(json!([{"t":10,"s":[a]}])), &fr),
        tcase(
            "end",
            morph(json!([{"t":0,"s":[a],"e":[c]},{"t":10,"s":[b],"e":[a]},{"t":20,"s":[c]}])),
            &fr,
        ),
        tcase(
            "last-time-only-end",
            morph(json!([{"t":0,"s":[a],"e":[c]},{"t":10}])),
            &fr,
        ),
        tcase(
            "last-time-only-start",
            morph(json!([{"t":0,"s":[a]},{"t":10,"s":[b]},{"t":20}])),
            &fr,
        ),
        tcase(
            "hold",
            morph(json!([{"t":0,"s":[a],"h":1},{"t":10,"s":[b],"e":[c],"h":1},{"t":20}])),
            &fr,
        ),
        tcase(
            "open",
            morph(json!([{"t":0,"s":[open]},{"t":10,"s":[open],"e":[open]},{"t":20}])),
            &fr,
        ),
        tcase(
            "ease",
            morph(
                json!([{"t":0,"s":[a],"e":[b],"o":{"x":0.8,"y":0.0},"i":{"x":0.9,"y":0.3}},
                {"t":10,"s":[b],"o":{"x":[0.1],"y":[0.7]},"i":{"x":[0.2],"y":[1.0]}},{"t":20,"s":[c]}]),
            ),
            &fr,
        ),
        {
            let mut l = shape_layer(1, json!([rect(0.0, 0.0, 50.0, 50.0), fill(1.0, 0.0, 0.0)]));
            l["masksProperties"] = json!([{"mode":"a","pt":kf(json!([{"t":0,"s":[a],"e":[b],"o":{"x":0.8,"y":0.0},"i":{"x":0.9,"y":0.3}},{"t":10}]))}]);
            tcase("mask", docl(json!([l])), &fr)
        },
    ]
}

// ------------------------------------------------------------------ P13 ----

fn p13_make(r: &mut Rng) -> Value {
    let p = Profile {
        layers: (1, 8),
        assets: (0, 2),
        asset_layers: (1, 4),
        shapes: (1, 2),
        precomp: 0.3,
        matte: 0.15,
        tp: 0.4,
        hidden: 0.15,
        deco: 0.3,
        short: 0.75,
        parent: 0.1,
        start: 0.3,
        stretch: 0.2,
        no_ind: 0.1,
        blend: 0.1,
        mask: 0.1,
        ..Profile::default()
    };
    mk(r, &p, 8)
}

fn p13_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mask = Mask {
        groups: true,
        index: true,
        color: true,
        ..NONE
    };
    spec(c, obs, &mask, |o| {
        o.evs
            .iter()
            .filter(|e| matches!(e, Ev::Begin { .. }))
            .count()
            >= 1
    })
}

fn colored(ind: i64, k: f64) -> Value {
    shape_layer(
        ind,
        json!([rect(0.0, 0.0, 10.0 + k, 10.0), fill(k / 10.0, 0.5, 0.0)]),
    )
}

fn p13_fixed() -> Vec<(String, Value)> {
    let mut a = colored(1, 1.0);
    a["ip"] = json!(10);
    a["op"] = json!(20);
    let mut b = colored(2, 2.0);
    b["ip"] = json!(0);
    b["op"] = json!(10);
    let mut h = colored(3, 3.0);
    h["hd"] = json!(true);
    let mut td = colored(4, 4.0);
    td["td"] = json!(1);
    let mut tdh = colored(5, 5.0);
    tdh["td"] = json!(1);
    tdh["hd"] = json!(true);
    let mut nul_l = layer(3, 6);
    nul_l["nm"] = json!("null");
    let mut solid = layer(1, 7);
    solid["sw"] = json!(10);
    solid["sh"] = json!(10);
    solid["sc"] = json!("#ff0000");
    let mut image = layer(2, 8);
    image["refId"] = json!("img");
    let mut pre = layer(0, 9);
    pre["refId"] = json!("c");
    pre["w"] = json!(10);
    pre["h"] = json!(10);
    let mut m = colored(10, 6.0);
    m["tt"] = json!(1);
    let mut d = docl(json!([
        a,
        b,
        h,
        td,
        m,
        tdh,
        nul_l,
        solid,
        image,
        pre,
        colored(11, 9.0)
    ]));
    d["assets"] = json!([{"id":"img","w":1,"h":1,"u":"","p":"x.png"},
        {"id":"c","layers":[colored(1, 7.0), colored(2, 8.0)]}]);
    // More layers than fit any small counter, at the top and inside a precomposition.
    let many = |from: i64| -> Vec<Value> {
        (0..300)
            .map(|i| {
                let mut l = colored(from + i, i as f64 / 32.0);
                l["ip"] = json!(i % 7);
                l["op"] = json!(10 + i % 11);
                if i % 41 == 40 {
                    l["hd"] = json!(true);
                }
                l
            })
            .collect()
    };
    let mut pre = layer(0, 9000);
    pre["refId"] = json!("c");
    pre["w"] = json!(10);
    pre["h"] = json!(10);
    let mut nest = docl(json!([colored(1, 3.0), pre]));
    nest["assets"] = json!([{"id":"c","layers":many(1)}]);
    vec![
        tcase(
            "mixed",
            d,
            &[-1.0, 0.0, 5.0, 9.999, 10.0, 15.0, 20.0, 99.0, 100.0],
        ),
        tcase("many", docl(many(1).into()), &[0.0, 5.0, 12.5]),
        tcase("many nested", nest, &[0.0, 5.0, 12.5]),
    ]
}

// ------------------------------------------------------------------ P14 ----

fn p14_make(r: &mut Rng) -> Value {
    let p = Profile {
        layers: (1, 2),
        shapes: (1, 2),
        depth: 2,
        group: 0.8,
        ltf: 0.7,
        gtf: 0.7,
        skew: 0.5,
        split: 0.3,
        missing: 0.35,
        anim: 0.3,
        zero_scale: 0.03,
        ..Profile::default()
    };
    mk(r, &p, 4)
}

fn p14_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mask = Mask { tf: true, ..NONE };
    spec(c, obs, &mask, some_draw)
}

fn p14_fixed() -> Vec<(String, Value)> {
    let mut out = vec![];
    let content = json!([rect(1.0, 2.0, 10.0, 20.0), fill(1.0, 0.0, 0.0)]);
    let parts = [
        ("p", json!([30, -7])),
        ("a", json!([11, 5])),
        ("s", json!([150, 40])),
        ("r", json!(33)),
        ("sk", json!(20)),
        ("sa", json!(35)),
    ];
    for mask in 0..64 {
        let mut ks = json!({"p": fx(json!([0,0]))});
        for (i, (k, v)) in parts.iter().enumerate() {
            if mask >> i & 1 == 1 {
                ks[*k] = fx(v.clone());
            }
        }
        let mut l = shape_layer(1, content.clone());
        l["ks"] = ks.clone();
        out.push(tcase(
            &format!("layer-parts-{mask}"),
            docl(json!([l])),
            &[0.0],
        ));
        let mut t = ks;
        t["ty"] = json!("tr");
        let mut it = content.as_array().unwrap().clone();
        it.push(t);
        out.push(tcase(
            &format!("group-parts-{mask}"),
            doc1(json!([group(json!(it))])),
            &[0.0],
        ));
    }
    let split =
        json!({"s":true,"x":fx(json!(12)),"y":kf(json!([{"t":0,"s":[0]},{"t":10,"s":[50]}]))});
    let mut l = shape_layer(1, content.clone());
    l["ks"]["p"] = split.clone();
    out.push(tcase(
        "layer-split-position",
        docl(json!([l])),
        &[0.0, 4.0, 10.0],
    ));
    let mut t = tr();
    t["p"] = split;
    let mut it = content.as_array().unwrap().clone();
    it.push(t);
    out.push(tcase(
        "group-split-position",
        doc1(json!([group(json!(it))])),
        &[0.0, 4.0, 10.0],
    ));
    out
}

// ------------------------------------------------------------------ P15 ----

fn p15_make(r: &mut Rng) -> Value {
    let p = Profile {
        layers: (2, 8),
        assets: (0, 2),
        asset_layers: (2, 4),
        shapes: (1, 1),
        parent: 0.85,
        dangling: 0.08,
        hidden: 0.12,
        deco: 0.3,
        short: 0.25,
        no_ind: 0.12,
        precomp: 0.25,
        opacity: 0.5,
        mask: 0.2,
        ltf: 0.6,
        anim: 0.2,
        ..Profile::default()
    };
    mk(r, &p, 4)
}

fn p15_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mask = Mask {
        layers: true,
        tf: true,
        layer_tf: true,
        clip_path: true,
        alpha: true,
        ..NONE
    };
    spec(c, obs, &mask, some_draw)
}

fn moved(mut l: Value, x: f64, y: f64, rot: f64) -> Value {
    l["ks"]["p"] = fx(json!([x, y]));
    l["ks"]["r"] = fx(json!(rot));
    l
}

fn p15_fixed() -> Vec<(String, Value)> {
    let mut out = vec![];
    let child = |ind: i64, parent: i64| {
        let mut l = moved(colored(ind, 1.0), 3.0, 4.0, 10.0);
        l["parent"] = json!(parent);
        l
    };
    let nul_l = |ind: i64| moved(layer(3, ind), 20.0, 5.0, 30.0);
    out.push(tcase("after", docl(json!([child(1, 2), nul_l(2)])), &[0.0]));
    out.push(tcase(
        "before",
        docl(json!([nul_l(2), child(1, 2)])),
        &[0.0],
    ));
    let mut hid = nul_l(2);
    hid["hd"] = json!(true);
    hid["ip"] = json!(50);
    hid["ks"]["o"] = fx(json!(10));
    hid["masksProperties"] = json!([{"mode":"a","pt":fx(bez(json!([[0,0],[1,0],[1,1]]), true))}]);
    out.push(tcase(
        "hidden-inactive",
        docl(json!([child(1, 2), hid])),
        &[0.0],
    ));
    let mut mid = nul_l(2);
    mid["parent"] = json!(3);
    out.push(tcase(
        "grand",
        docl(json!([
            child(1, 2),
            mid.clone(),
            moved(colored(3, 2.0), 1.0, 9.0, 45.0)
        ])),
        &[0.0],
    ));
    out.push(tcase("dangling", docl(json!([child(1, 77)])), &[0.0]));
    out.push(tcase(
        "index-zero",
        docl(json!([child(1, 0), nul_l(0)])),
        &[0.0],
    ));
    let mut unindexed = nul_l(5);
    unindexed.as_object_mut().unwrap().remove("ind");
    out.push(tcase(
        "no-index-is-not-zero",
        docl(json!([child(1, 0), unindexed])),
        &[0.0],
    ));
    // long chain
    let mut ls = vec![colored(1, 1.0)];
    ls[0]["parent"] = json!(2);
    for i in 2..40 {
        let mut n = moved(layer(3, i), 1.0, 2.0, 3.0);
        if i < 39 {
            n["parent"] = json!(i + 1);
        }
        ls.push(n);
    }
    out.push(tcase("chain-40", docl(json!(ls)), &[0.0]));
    // an asset has its own index space
    let mut pre = moved(layer(0, 2), 7.0, 7.0, 0.0);
    pre["refId"] = json!("a");
    pre["w"] = json!(1);
    pre["h"] = json!(1);
    let mut d = docl(json!([pre, nul_l(1)]));
    d["assets"] =
        json!([{"id":"a","layers":[child(5, 1)]},{"id":"b","layers":[child(3, 5), nul_l(1)]}]);
    out.push(tcase("index-scope", d, &[0.0]));
    out
}

// ------------------------------------------------------------------ P16 ----

fn p16_make(r: &mut Rng) -> Value {
    let p = Profile {
        layers: (1, 4),
        assets: (0, 2),
        shapes: (1, 4),
        depth: 3,
        group: 0.7,
        precomp: 0.3,
        parent: 0.4,
        deco: 0.2,
        opacity: 0.8,
        anim: 0.3,
        missing: 0.2,
        matte: 0.1,
        fill: 1.0,
        stroke: 0.7,
        gfill: 0.6,
        gstroke: 0.6,
        stretch: 0.3,
        start: 0.3,
        ..Profile::default()
    };
    mk(r, &p, 5)
}

fn p16_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mask = Mask {
        alpha: true,
        ..NONE
    };
    let t = text::plain(&c["doc"]);
    let comp = load_text(&t)?;
    spec_loaded(c, &c["doc"], &t, &comp, obs, &mask, some_draw)?;
    #[cfg(feature = "model")]
    brushes_fade(c, &comp, obs)?;
    Ok(())
}

#[cfg(feature = "model")]
fn brushes_fade(c: &Value, comp: &velato::Composition, obs: &mut Obs) -> Result<(), String> {
    // the same at the level of the public model: a brush evaluated with an alpha
    let mut brushes = vec![];
    for l in comp.layers.iter().chain(comp.assets.values().flatten()) {
        if let Content::Shape(s) = &l.content {
            brushes_of(s, &mut brushes);
        }
    }
    for f in frames_of(c) {
        for b in &brushes {
            let plain = brush_rec(b.evaluate(1.0, f).as_ref());
            for alpha in [0.0, 0.25, 0.75] {
                let got = brush_rec(b.evaluate(alpha, f).as_ref());
                cmp::faded(&plain, &got, alpha).map_err(|e| {
                    format!("frame {f}: model brush evaluated with alpha {alpha}: {e}")
                })?;
                obs.count("model brushes evaluated with an alpha", 1);
            }
        }
    }
    Ok(())
}

#[cfg(feature = "model")]
fn brushes_of<'a>(shapes: &'a [Shape], out: &mut Vec<&'a model::Brush>) {
    for s in shapes {
        match s {
            Shape::Group(s, _) => brushes_of(s, out),
            Shape::Draw(d) => out.push(&d.brush),
            _ => {}
        }
    }
}

fn gradient(ty: &str, stops: Value, n: i64) -> Value {
    let mut g = json!({"ty":ty,"o":fx(json!(100)),"s":fx(json!([0,0])),"e":fx(json!([30,40])),"t":1,
        "g":{"p":n,"k":{"a":0,"k":stops}}});
    if ty == "gs" {
        g["w"] = fx(json!(3));
        g["lc"] = json!(1);
        g["lj"] = json!(3);
    }
    g
}

fn p16_fixed() -> Vec<(String, Value)> {
    let mut out = vec![];
    for (n, ty) in [
        ("fill", "fl"),
        ("stroke", "st"),
        ("gradient-fill", "gf"),
        ("gradient-stroke", "gs"),
    ] {
        for anim in [false, true] {
            let o = if anim {
                kf(json!([{"t":0,"s":[20]},{"t":10,"s":[60]}]))
            } else {
                fx(json!(40))
            };
            let mut p = match ty {
                "fl" => fill(0.5, 0.5, 0.5),
                "st" => {
                    json!({"ty":"st","c":fx(json!([0.2,0.2,0.2,1])),"w":fx(json!(2)),"lc":1,"lj":1})
                }
                t => gradient(t, json!([0, 1, 0, 0, 1, 0, 0, 1, 0, 0.5, 1, 1]), 2),
            };
            p["o"] = o.clone();
            let mut t = tr();
            t["o"] = fx(json!(50));
            let mut l = shape_layer(
                1,
                json!([
                    group(json!([rect(0.0, 0.0, 9.0, 9.0), p, t])),
                    fill(0.1, 0.1, 0.1)
                ]),
            );
            l["ks"]["o"] = fx(json!(80));
            let mut d = docl(json!([l]));
            d["assets"] = json!([]);
            out.push((
                format!("{n}-{}", if anim { "keyframed" } else { "static" }),
                json!({"doc": d, "frames": [0, 5, 10], "alpha": 0.7}),
            ));
        }
    }
    out
}

// ------------------------------------------------------------------ P17 ----

fn p17_make(r: &mut Rng) -> Value {
    let p = Profile {
        layers: (1, 4),
        assets: (0, 2),
        shapes: (1, 2),
        mask: 0.7,
        path_anim: 0.4,
        precomp: 0.35,
        parent: 0.3,
        matte: 0.15,
        hidden: 0.08,
        deco: 0.15,
        ltf: 0.5,
        short: 0.2,
        missing: 0.2,
        big: 0.04,
        ..Profile::default()
    };
    mk(r, &p, 4)
}

fn p17_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mask = Mask {
        groups: true,
        layers: true,
        layer_tf: true,
        clip_path: true,
        color: true,
        ..NONE
    };
    spec(c, obs, &mask, |o| {
        o.evs
            .iter()
            .filter(|e| matches!(e, Ev::PushClip { .. }))
            .count()
            > 1
    })
}

// ------------------------------------------------------------------ P18 ----

fn p18_make(r: &mut Rng) -> Value {
    let p = Profile {
        layers: (2, 7),
        assets: (0, 2),
        asset_layers: (2, 4),
        shapes: (1, 2),
        matte: 0.5,
        tp: 0.4,
        dangling: 0.1,
        precomp: 0.2,
        parent: 0.3,
        hidden: 0.1,
        deco: 0.1,
        short: 0.3,
        ltf: 0.4,
        opacity: 0.2,
        mask: 0.15,
        no_ind: 0.15,
        ..Profile::default()
    };
    mk(r, &p, 5)
}

fn p18_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mask = Mask {
        groups: true,
        layers: true,
        layer_tf: true,
        clip_path: true,
        tf: true,
        color: true,
        ..NONE
    };
    spec(c, obs, &mask, |o| {
        o.evs.iter().any(|e| matches!(e, Ev::PushLayer { .. }))
    })
}

fn p18_fixed() -> Vec<(String, Value)> {
    let mut out = vec![];
    let src = |ind: i64| {
        let mut l = moved(colored(ind, ind as f64), ind as f64, 2.0, 15.0);
        l["td"] = json!(1);
        l
    };
    let mat = |ind: i64, mode: i64| {
        let mut l = moved(colored(ind, ind as f64), 30.0, ind as f64, -15.0);
        l["tt"] = json!(mode);
        l
    };
    for m in 1..=4 {
        out.push(tcase(
            &format!("mode-{m}"),
            docl(json!([src(1), mat(2, m), colored(3, 3.0)])),
            &[0.0],
        ));
    }
    // one source is claimed once
    out.push(tcase(
        "claimed",
        docl(json!([src(1), mat(2, 1), mat(3, 1), src(4), mat(5, 2)])),
        &[0.0],
    ));
    out.push(tcase(
        "nearest",
        docl(json!([src(1), src(2), colored(4, 4.0), mat(3, 1)])),
        &[0.0],
    ));
    out.push(tcase("none", docl(json!([mat(2, 1), src(3)])), &[0.0]));
    let mut named = mat(2, 2);
    named["tp"] = json!(7);
    out.push(tcase(
        "named-after",
        docl(json!([src(1), named.clone(), colored(3, 3.0), src(7)])),
        &[0.0],
    ));
    let mut second = mat(3, 1);
    second["tp"] = json!(7);
    out.push(tcase(
        "named-shared",
        docl(json!([src(7), named, second])),
        &[0.0],
    ));
    let mut dangling = mat(2, 1);
    dangling["tp"] = json!(70);
    out.push(tcase(
        "named-missing",
        docl(json!([src(1), dangling])),
        &[0.0],
    ));
    let mut zero = mat(2, 1);
    zero["tp"] = json!(0);
    out.push(tcase(
        "named-zero",
        docl(json!([src(0), src(4), zero.clone()])),
        &[0.0],
    ));
    let mut noind = src(1);
    noind.as_object_mut().unwrap().remove("ind");
    out.push(tcase(
        "named-zero-absent",
        docl(json!([noind, zero])),
        &[0.0],
    ));
    let mut short = src(1);
    short["ip"] = json!(10);
    short["op"] = json!(20);
    out.push(tcase(
        "source-inactive",
        docl(json!([short, mat(2, 1)])),
        &[5.0, 10.0, 20.0],
    ));
    // mattes of mattes
    let mut both = mat(2, 1);
    both["td"] = json!(1);
    out.push(tcase(
        "chain",
        docl(json!([src(1), both, mat(3, 2)])),
        &[0.0],
    ));
    out
}

// ------------------------------------------------------------------ P19 ----

fn p19_make(r: &mut Rng) -> Value {
    let p = Profile {
        layers: (1, 3),
        assets: (1, 3),
        asset_layers: (1, 3),
        shapes: (1, 2),
        precomp: 0.75,
        dangling: 0.08,
        anim: 0.5,
        ltf: 0.4,
        opacity: 0.4,
        short: 0.4,
        start: 0.7,
        stretch: 0.7,
        parent: 0.2,
        hidden: 0.05,
        ..Profile::default()
    };
    mk(r, &p, 6)
}

fn p19_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    spec(c, obs, &ALL, |o| {
        let mut depth = 0;
        let mut nested = false;
        for e in &o.evs {
            match e {
                Ev::Begin { .. } => depth += 1,
                Ev::End => depth -= 1,
                Ev::Draw { .. } => nested |= depth > 1,
                _ => {}
            }
        }
        nested
    })
}

fn p19_fixed() -> Vec<(String, Value)> {
    let mut out = vec![];
    let pre = |ind: i64, id: &str, st: f64, sr: f64| {
        let mut l = moved(layer(0, ind), 5.0 * ind as f64, 1.0, 20.0);
        l["refId"] = json!(id);
        l["w"] = json!(100);
        l["h"] = json!(50);
        l["st"] = json!(st);
        l["sr"] = json!(sr);
        l["ip"] = json!(-1000);
        l["op"] = json!(1000);
        l["ks"]["o"] = fx(json!(50));
        l
    };
    let mut inner = colored(1, 1.0);
    inner["ip"] = json!(0);
    inner["op"] = json!(20);
    inner["ks"]["p"] = kf(json!([{"t":0,"s":[0,0]},{"t":20,"s":[100,200]}]));
    let fr = [
        -10.0, -4.0, 0.0, 3.0, 4.0, 10.0, 16.0, 20.0, 24.0, 36.0, 44.0, 60.0,
    ];
    for (st, sr) in [
        (0.0, 1.0),
        (4.0, 1.0),
        (4.0, 2.0),
        (-4.0, 0.5),
        (0.0, 2.0),
        (10.0, -1.0),
    ] {
        let mut d = docl(json!([
            pre(1, "a", st, sr),
            pre(2, "a", 0.0, 1.0),
            pre(3, "none", 0.0, 1.0)
        ]));
        d["assets"] = json!([{"id":"a","layers":[inner]}]);
        out.push(tcase(&format!("st{st}-sr{sr}"), d, &fr));
    }
    let mut d = docl(json!([pre(1, "a", 4.0, 2.0)]));
    d["assets"] = json!([{"id":"a","layers":[pre(1, "b", 2.0, 2.0), pre(2, "b", -2.0, 0.5)]},{"id":"b","layers":[inner]}]);
    out.push(tcase("nested", d, &fr));
    out
}

// ------------------------------------------------------------------ P21 ----

fn p21_make(r: &mut Rng) -> Value {
    if r.chance(0.4) {
        let p = Profile {
            layers: (1, 1),
            shapes: (1, 1),
            anim: 0.4,
            ellipse: 1.0,
            path: 0.0,
            rounded_rect: 0.8,
            degenerate: 0.02,
            paint_last: 1.0,
            big: 0.0,
            ..Profile::default()
        };
        let mut c = mk(r, &p, 4);
        // exactly one outline, one paint
        let shapes = c["doc"]["layers"][0]["shapes"].as_array_mut().unwrap();
        if shapes.len() == 2 {
            c["analytic"] = json!(true);
        }
        return c;
    }
    let p = Profile {
        layers: (1, 2),
        shapes: (1, 4),
        anim: 0.3,
        ellipse: 1.0,
        path: 2.0,
        path_anim: 0.1,
        rounded_rect: 0.5,
        missing: 0.3,
        degenerate: 0.05,
        ..Profile::default()
    };
    let mut c = mk(r, &p, 4);
    if r.chance(0.15) {
        negative_sizes(&mut c["doc"], r);
    }
    c
}

/// A rectangle of a negative size is that of the positive size.
fn negative_sizes(v: &mut Value, r: &mut Rng) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| negative_sizes(x, r)),
        Value::Object(o) => {
            if o.get("ty") == Some(&json!("rc"))
                && let Some(a) = o.get_mut("s").and_then(|s| s["k"].as_array_mut())
            {
                for x in a {
                    if let Some(n) = x.as_f64()
                        && r.chance(0.5)
                    {
                        *x = json!(-n);
                    }
                }
            }
            o.values_mut().for_each(|x| negative_sizes(x, r));
        }
        _ => {}
    }
}

/// Distance of a point to the outline of a rounded rectangle.
fn rr_dist(p: Point, c: (f64, f64), s: (f64, f64), r: f64) -> f64 {
    let qx = (p.x - c.0).abs() - (s.0 / 2.0 - r);
    let qy = (p.y - c.1).abs() - (s.1 / 2.0 - r);
    (qx.max(0.0).hypot(qy.max(0.0)) + qx.max(qy).min(0.0) - r).abs()
}

fn ell_dist(p: Point, c: (f64, f64), s: (f64, f64)) -> f64 {
    let (a, b) = (s.0 / 2.0, s.1 / 2.0);
    let mut best = f64::MAX;
    for i in 0..2000 {
        let (sn, cs) = (i as f64 * std::f64::consts::TAU / 2000.0).sin_cos();
        best = best.min((c.0 + a * cs - p.x).hypot(c.1 + b * sn - p.y));
    }
    best
}

fn analytic(doc: &Value, f: f64, got: &[Ev]) -> Result<bool, String> {
    let s = &doc["layers"][0]["shapes"][0];
    let ctx = refm::ctx(doc);
    let w = When { f, exact: true };
    let Some(path) = got.iter().find_map(|e| match e {
        Ev::Draw { path, .. } => Some(path),
        _ => None,
    }) else {
        return Ok(false);
    };
    if s["ty"] != "rc" && s["ty"] != "el" {
        return Ok(false);
    }
    let c = ctx.pair(&s["p"], w);
    let sz = ctx.pair(&s["s"], w);
    if sz.0 < 1.0 || sz.1 < 1.0 {
        return Ok(false);
    }
    let pcs = cmp::pieces(path);
    // kurbo leaves an ellipse's last arc without an explicit close
    let shut = pcs.len() == 1
        && (pcs[0].pts[0] - *pcs[0].pts.last().unwrap()).hypot() < 1e-6
        && (s["ty"] == "el" || path.last() == Some(&PathEl::ClosePath));
    if !shut {
        return Err(format!(
            "outline of a {} is not one closed piece: {path:?}",
            s["ty"]
        ));
    }
    let (want_len, tol) = if s["ty"] == "rc" {
        let r = ctx.scalar(&s["r"], w).min(sz.0 / 2.0).min(sz.1 / 2.0);
        for p in &pcs[0].pts {
            let d = rr_dist(*p, c, sz, r);
            if d > 0.12 {
                return Err(format!(
                    "point {p:?} is {d} away from the rectangle centred {c:?} size {sz:?} radius {r}"
                ));
            }
        }
        (
            2.0 * (sz.0 + sz.1) - 8.0 * r + std::f64::consts::TAU * r,
            1.0,
        )
    } else {
        for p in &pcs[0].pts {
            let d = ell_dist(*p, c, sz);
            let slack = 0.12 + (sz.0 + sz.1) * 0.001;
            if d > slack {
                return Err(format!(
                    "point {p:?} is {d} away from the ellipse centred {c:?} size {sz:?}"
                ));
            }
        }
        // Ramanujan
        let (a, b) = (sz.0 / 2.0, sz.1 / 2.0);
        let h = ((a - b) / (a + b)).powi(2);
        (
            std::f64::consts::PI * (a + b) * (1.0 + 3.0 * h / (10.0 + (4.0 - 3.0 * h).sqrt())),
            1.0,
        )
    };
    if (pcs[0].len - want_len).abs() > tol {
        return Err(format!("outline length {} expected {want_len}", pcs[0].len));
    }
    Ok(true)
}

fn p21_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mask = Mask { path: true, ..NONE };
    spec(c, obs, &mask, some_draw)?;
    if c["analytic"] == true {
        let comp = load(&c["doc"])?;
        for f in frames_of(c) {
            let got = render(&comp, f, tf_of(c), 1.0)?;
            if analytic(&c["doc"], f, &got).map_err(|e| format!("frame {f}: {e}"))? {
                obs.count("outlines checked against their equation", 1);
            }
        }
    }
    Ok(())
}

fn p21_fixed() -> Vec<(String, Value)> {
    let mut out = vec![];
    for (i, (w, h, r)) in [
        (40.0, 20.0, 0.0),
        (40.0, 20.0, 5.0),
        (40.0, 20.0, 10.0),
        (40.0, 20.0, 30.0),
        (20.0, 40.0, 15.0),
        (10.0, 10.0, 1000.0),
    ]
    .iter()
    .enumerate()
    {
        let mut s = rect(7.0, -3.0, *w, *h);
        s["r"] = fx(json!(r));
        let (l, mut c) = tcase(
            &format!("rect-{i}"),
            doc1(json!([s, fill(1.0, 0.0, 0.0)])),
            &[0.0],
        );
        c["analytic"] = json!(true);
        out.push((l, c));
        let s = json!({"ty":"el","p":fx(json!([3, 4])),"s":fx(json!([w, h]))});
        let (l, mut c) = tcase(
            &format!("ellipse-{i}"),
            doc1(json!([s, fill(1.0, 0.0, 0.0)])),
            &[0.0],
        );
        c["analytic"] = json!(true);
        out.push((l, c));
    }
    for n in 0..5 {
        for closed in [false, true] {
            let v: Vec<Value> = (0..n).map(|i| json!([i * 10, (i * i) % 7])).collect();
            let mut s = json!({"v": v, "i": [], "o": [], "c": closed});
            out.push(tcase(
                &format!("path-{n}-{closed}"),
                doc1(json!([{"ty":"sh","ks":fx(s.clone())}, fill(1.0, 0.0, 0.0)])),
                &[0.0],
            ));
            s["i"] = json!((0..n).map(|i| json!([i - 2, 3])).collect::<Vec<_>>());
            s["o"] = json!((0..n).map(|i| json!([4, i + 1])).collect::<Vec<_>>());
            out.push(tcase(
                &format!("curve-{n}-{closed}"),
                doc1(json!([{"ty":"sh","ks":fx(s)}, fill(1.0, 0.0, 0.0)])),
                &[0.0],
            ));
        }
    }
    out
}

// ------------------------------------------------------------------ P22 ----

fn p22_make(r: &mut Rng) -> Value {
    let p = Profile {
        layers: (1, 1),
        shapes: (1, 1),
        anim: 0.35,
        rect: 0.0,
        path: 0.0,
        star: 1.0,
        rounded_star: 0.5,
        paint_last: 1.0,
        big: 0.0,
        ..Profile::default()
    };
    let mut c = mk(r, &p, 4);
    if r.chance(0.25) {
        for s in c["doc"]["layers"][0]["shapes"].as_array_mut().unwrap() {
            if s["ty"] == "sr" {
                s["pt"] = fx(json!(r.int(1, 200)));
                if s["os"]["k"] != 0 {
                    s["pt"] = fx(json!(r.int(3, 200)));
                }
            }
        }
    }
    c
}

/// The outline judged from its definition: vertices, then handles.
fn star_check(s: &Value, ctx: &refm::Ctx, w: When, path: &[PathEl]) -> Result<bool, String> {
    let polygon = s["sy"] == 2;
    let n = ctx.scalar(&s["pt"], w).round().max(0.0) as usize;
    if n == 0 {
        return if cmp::draws_nothing(path) {
            Ok(true)
        } else {
            Err("zero points draw something".into())
        };
    }
    let total = if polygon { n } else { 2 * n };
    let (cx, cy) = ctx.pair(&s["p"], w);
    let rot = ctx.scalar(&s["r"], w);
    let mut vertices: Vec<Point> = vec![];
    // vertex: in handle, out handle
    let mut hin: Vec<Point> = vec![];
    let mut hout: Vec<Point> = vec![];
    let mut closed = false;
    let mut cur = Point::ZERO;
    for e in path {
        match *e {
            PathEl::MoveTo(p) => {
                if !vertices.is_empty() {
                    return Err("a star has more than one piece".into());
                }
                vertices.push(p);
                hin.push(p);
                cur = p;
            }
            PathEl::LineTo(p) => {
                hout.push(cur);
                vertices.push(p);
                hin.push(p);
                cur = p;
            }
            PathEl::CurveTo(a, b, p) => {
                hout.push(a);
                vertices.push(p);
                hin.push(b);
                cur = p;
            }
            PathEl::QuadTo(..) => return Err("quadratic segment in a star".into()),
            PathEl::ClosePath => closed = true,
        }
    }
    if !closed {
        return Err("a star's outline is not closed".into());
    }
    if vertices.len() == total + 1 {
        let last = vertices.pop().unwrap();
        let h = hin.pop().unwrap();
        if (last - vertices[0]).hypot() > 1e-4 {
            return Err("the outline does not return to its first vertex".into());
        }
        hin[0] = h;
    } else {
        hout.push(*vertices.last().unwrap());
    }
    if vertices.len() != total {
        return Err(format!("{} vertices expected {total}", vertices.len()));
    }
    let mut ratio: Option<f64> = None;
    for k in 0..total {
        let outer = polygon || k % 2 == 0;
        let (r, q) = if outer {
            (ctx.scalar(&s["or"], w), ctx.scalar(&s["os"], w))
        } else {
            let z = |x: &Value| if x.is_null() { 0.0 } else { ctx.scalar(x, w) };
            (z(&s["ir"]), z(&s["is"]))
        };
        let a = (rot - 90.0 + 360.0 * k as f64 / total as f64).to_radians();
        let (sn, cs) = a.sin_cos();
        let want = Point::new(cx + r * cs, cy + r * sn);
        if (vertices[k] - want).hypot() > 1e-3 + 1e-5 * r.abs() {
            return Err(format!(
                "vertex {k}/{total} at {:?} expected {want:?}",
                vertices[k]
            ));
        }
        // handles along the tangent, opposite, equal
        let (o, i) = (hout[k] - vertices[k], hin[k] - vertices[k]);
        if q == 0.0 && (o.hypot() > 1e-4 || i.hypot() > 1e-4) {
            return Err(format!("vertex {k} has handles without roundness"));
        }
        if total >= 4 && q != 0.0 {
            let t = kurbo::Vec2::new(-sn, cs);
            let (lo, li) = (o.dot(t), -i.dot(t));
            let m = 1e-3 + 1e-5 * (o.hypot() + r.abs());
            if (o - t * lo).hypot() > m || (i + t * li).hypot() > m {
                return Err(format!("handles of vertex {k} are not tangential"));
            }
            if (lo - li).abs() > m {
                return Err(format!("handles of vertex {k} are not opposite and equal"));
            }
            let want = r * q / 100.0;
            if want.abs() > 0.5 {
                let x = lo / want;
                if x <= 0.0 {
                    return Err(format!("handles of vertex {k} point the wrong way"));
                }
                if let Some(y) = ratio
                    && (x - y).abs() > 2e-3 * y.abs() + 2e-3 / want.abs()
                {
                    return Err(format!(
                        "handle length of vertex {k} is not proportional to roundness and radius ({x} vs {y})"
                    ));
                }
                ratio.get_or_insert(x);
            }
        }
    }
    Ok(true)
}

fn p22_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let comp = load(&c["doc"])?;
    let t = text::plain(&c["doc"]);
    let tf = tf_of(c);
    let ctx = refm::ctx(&c["doc"]);
    for f in frames_of(c) {
        let want = refm::render(&c["doc"], f, tf, 1.0);
        if want.ambiguous {
            obs.count("frames on a discontinuity up to rounding (no verdict)", 1);
            continue;
        }
        let got = render(&comp, f, tf, 1.0)?;
        obs.events(&got);
        let shapes = c["doc"]["layers"][0]["shapes"].as_array().unwrap();
        let active = want.evs.iter().any(|e| matches!(e, Ev::Begin { .. }));
        if active && shapes.len() == 2 && shapes[0]["ty"] == "sr" {
            let w = When { f, exact: true };
            let path = got
                .iter()
                .find_map(|e| match e {
                    Ev::Draw { path, .. } => Some(&path[..]),
                    _ => None,
                })
                .unwrap_or(&[]);
            star_check(&shapes[0], &ctx, w, path).map_err(|e| format!("frame {f}: {e}"))?;
            obs.count("stars judged", 1);
            obs.eval(hash_case(&t, f), true);
        }
        cmp::compare(&got, &want.evs, &want.loose, &Mask { path: true, ..NONE })
            .map_err(|e| format!("frame {f}: {e}"))?;
    }
    Ok(())
}

fn p22_fixed() -> Vec<(String, Value)> {
    let mut out = vec![];
    for polygon in [false, true] {
        for pt in [0.0, 0.4, 0.6, 1.0, 2.0, 2.4, 3.0, 4.6, 5.0, 7.0, 100.0] {
            for q in [0.0, 50.0] {
                if q > 0.0 && pt < 2.5 {
                    continue;
                }
                let mut s = json!({"ty":"sr","sy": if polygon {2} else {1},"p":fx(json!([10,20])),"r":fx(json!(25)),
                    "or":fx(json!(50)),"os":fx(json!(q)),"pt":fx(json!(pt))});
                if !polygon {
                    s["ir"] = fx(json!(20));
                    s["is"] = fx(json!(q * 0.6));
                }
                out.push(tcase(
                    &format!("star-{polygon}-{pt}-{q}"),
                    doc1(json!([s, fill(1.0, 0.0, 0.0)])),
                    &[0.0],
                ));
            }
        }
    }
    out
}

// ------------------------------------------------------------------ P23 ----

fn p23_make(r: &mut Rng) -> Value {
    let p = Profile {
        layers: (1, 2),
        shapes: (1, 6),
        depth: 3,
        group: 0.9,
        stroke: 0.5,
        hidden_shape: 0.08,
        gtf: 0.5,
        missing: 0.15,
        modifier: 0.1,
        ellipse: 0.5,
        degenerate: 0.08,
        path: 1.5,
        paint_last: 0.7,
        big: 0.04,
        ..Profile::default()
    };
    mk(r, &p, 2)
}

fn p23_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mask = Mask {
        tf: true,
        path: true,
        color: true,
        ..NONE
    };
    spec(c, obs, &mask, |o| draws(o) > 1)
}

fn p23_fixed() -> Vec<(String, Value)> {
    let r = |i: i64| rect(i as f64 * 10.0, 1.0, 8.0, 8.0);
    let f = |i: i64| fill(i as f64 / 10.0, 0.2, 0.3);
    let mut t = tr();
    t["p"] = fx(json!([100, 50]));
    let mut hr = r(5);
    hr["hd"] = json!(true);
    let mut hf = f(5);
    hf["hd"] = json!(true);
    let mut hg = group(json!([r(6), f(6), t]));
    hg["hd"] = json!(true);
    let mut ht = json!({"ty":"tm","s":fx(json!(0)),"e":fx(json!(50)),"o":fx(json!(0))});
    ht["hd"] = json!(true);
    let list = vec![
        ("two-fills", json!([r(1), f(1), r(2), f(2)])),
        ("after-paint", json!([r(1), f(1), r(2)])),
        ("paint-first", json!([f(1), r(1)])),
        (
            "group-then-fill",
            json!([group(json!([r(1), r(2), t])), r(3), f(1)]),
        ),
        (
            "group-own-fill",
            json!([r(1), group(json!([r(2), f(2), t])), f(1)]),
        ),
        (
            "group-no-outside",
            json!([r(1), group(json!([f(2), r(2), f(3), tr()])), f(1)]),
        ),
        (
            "group-starts-with-shape",
            json!([r(1), group(json!([r(2), f(2), tr()])), f(1)]),
        ),
        (
            "group-same-place",
            json!([r(1), group(json!([r(2), f(2)])), r(3), f(1)]),
        ),
        (
            "nested",
            json!([
                group(json!([group(json!([r(1), f(1), t])), r(2), f(2), t])),
                f(3)
            ]),
        ),
        ("hidden-shape", json!([r(1), hr, f(1)])),
        ("hidden-fill", json!([r(1), hf, f(1)])),
        ("hidden-group", json!([r(1), hg, f(1)])),
        ("hidden-trim", json!([r(1), ht, f(1)])),
        ("empty-group", json!([r(1), group(json!([tr()])), f(1)])),
        ("fill-twice", json!([r(1), f(1), f(2)])),
        (
            "siblings",
            json!([
                group(json!([r(1), tr()])),
                group(json!([r(2), f(2), tr()])),
                f(1)
            ]),
        ),
    ];
    list.into_iter()
        .map(|(n, s)| tcase(n, doc1(s), &[0.0]))
        .collect()
}

// ------------------------------------------------------------------ P24 ----

fn p24_make(r: &mut Rng) -> Value {
    let p = Profile {
        layers: (1, 2),
        shapes: (1, 3),
        stroke: 2.0,
        anim: 0.4,
        color_anim: true,
        unique_colors: false,
        opacity: 0.2,
        ..Profile::default()
    };
    mk(r, &p, 4)
}

fn p24_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mask = Mask {
        color: true,
        stroke: true,
        ..NONE
    };
    spec(c, obs, &mask, some_draw)
}

fn p24_fixed() -> Vec<(String, Value)> {
    let mut out = vec![];
    for lc in 1..=3 {
        for lj in 1..=3 {
            for ml in [None, Some(2.5)] {
                for anim in [false, true] {
                    let mut s = json!({"ty":"st","c":fx(json!([0.25,0.5,0.75,1])),"o":fx(json!(100)),"w":fx(json!(3)),"lc":lc,"lj":lj});
                    if let Some(m) = ml {
                        s["ml"] = json!(m);
                    }
                    if anim {
                        s["w"] = kf(json!([{"t":0,"s":[1]},{"t":10,"s":[5]}]));
                        s["c"] = kf(json!([{"t":0,"s":[0,0,0,1]},{"t":10,"s":[1,0.5,0.25,1]}]));
                    }
                    out.push(tcase(
                        &format!("stroke-{lc}-{lj}-{}-{anim}", ml.is_some()),
                        doc1(json!([rect(0.0, 0.0, 9.0, 9.0), s])),
                        &[0.0, 5.0, 10.0],
                    ));
                }
            }
        }
    }
    out
}

// ------------------------------------------------------------------ P25 ----

fn p25_make(r: &mut Rng) -> Value {
    let p = Profile {
        layers: (1, 2),
        shapes: (1, 3),
        fill: 0.0,
        gfill: 1.0,
        gstroke: 1.0,
        anim: 0.5,
        hold: 0.2,
        opacity: 0.3,
        big: 0.04,
        ..Profile::default()
    };
    mk(r, &p, 5)
}

fn p25_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mask = Mask {
        gradient: true,
        color: true,
        alpha: true,
        stroke: true,
        ..NONE
    };
    spec(c, obs, &mask, some_draw)
}

fn p25_fixed() -> Vec<(String, Value)> {
    let mut out = vec![];
    let two = json!([0, 1, 0, 0, 1, 0, 0, 1]);
    let alpha = json!([0, 1, 0, 0, 0.4, 0.5, 0.5, 0.5, 1, 0, 0, 1, 0, 0.2, 1, 0.8]);
    for ty in ["gf", "gs"] {
        for t in [1, 2] {
            for o in [100, 30] {
                let mut g = gradient(ty, two.clone(), 2);
                g["t"] = json!(t);
                g["o"] = fx(json!(o));
                out.push(tcase(
                    &format!("{ty}-{t}-{o}"),
                    doc1(json!([rect(0.0, 0.0, 9.0, 9.0), g])),
                    &[0.0],
                ));
                let mut g = gradient(ty, alpha.clone(), 3);
                g["t"] = json!(t);
                g["o"] = fx(json!(o));
                out.push(tcase(
                    &format!("{ty}-{t}-{o}-alpha"),
                    doc1(json!([rect(0.0, 0.0, 9.0, 9.0), g])),
                    &[0.0],
                ));
            }
        }
        for hold in [0, 1] {
            let mut g = gradient(ty, two.clone(), 2);
            g["g"]["k"] = kf(
                json!([{"t":0,"s":[0, 1, 0, 0, 1, 0, 0, 1],"h":hold},{"t":10,"s":[0.2, 0, 1, 0, 0.8, 1, 0, 0]},{"t":20,"s":[0,0,0,0,0.5,0,0,0]}]),
            );
            g["o"] = kf(json!([{"t":0,"s":[50]},{"t":10,"s":[100]}]));
            out.push(tcase(
                &format!("{ty}-keyframed-hold{hold}"),
                doc1(json!([rect(0.0, 0.0, 9.0, 9.0), g])),
                &[-1.0, 0.0, 5.0, 10.0, 15.0, 20.0, 30.0],
            ));
            let mut g = gradient(ty, two.clone(), 2);
            g["s"] = kf(json!([{"t":0,"s":[0, 0],"h":hold},{"t":10,"s":[10, 20]}]));
            g["e"] = kf(json!([{"t":0,"s":[30, 0]},{"t":10,"s":[10, 80]}]));
            g["t"] = json!(2);
            out.push(tcase(
                &format!("{ty}-moving-hold{hold}"),
                doc1(json!([rect(0.0, 0.0, 9.0, 9.0), g])),
                &[-1.0, 0.0, 5.0, 10.0],
            ));
        }
    }
    out
}

// ------------------------------------------------------------------ P26 ----

/// Small nested lists of outlines, trims, paints and groups.
fn p26_program(r: &mut Rng, depth: usize, n: &mut usize) -> Vec<Value> {
    let mut v = vec![];
    for _ in 0..r.int(1, 5) {
        *n += 1;
        let k = *n as f64;
        v.push(match r.below(if depth == 0 { 6 } else { 9 }) {
            0 => rect(k * 7.0, 3.0, 20.0, 10.0 + k),
            1 => json!({"ty":"el","p":fx(json!([k * 5.0, 9.0])),"s":fx(json!([12.0 + k, 20]))}),
            2 => sh(
                json!([[0, 0], [10.0 + k, 0], [10, 10.0 + k]]),
                r.chance(0.5),
            ),
            3 | 4 => {
                let a = *r.pick(&[0.0, 0.0, 20.0, 30.0, 55.0, 100.0]);
                let b = *r.pick(&[0.0, 30.0, 80.0, 100.0, 100.0]);
                trim(a, b, *r.pick(&[0.0, 0.0, 90.0, -200.0, 400.0]))
            }
            5 => fill(k / 40.0, 0.25, 0.5),
            _ => {
                let mut t = tr();
                if r.chance(0.4) {
                    t["p"] = fx(json!([k, -k]));
                }
                let mut items = p26_program(r, depth - 1, n);
                if r.chance(0.8) {
                    items.push(t);
                }
                group(json!(items))
            }
        });
    }
    v
}

fn p26_make(r: &mut Rng) -> Value {
    if r.chance(0.5) {
        let mut n = 0;
        let mut items = p26_program(r, 2, &mut n);
        items.push(fill(0.9, 0.1, 0.1));
        let d = doc1(json!(items));
        return case_for(r, d, 1);
    }
    let p = Profile {
        layers: (1, 1),
        shapes: (1, 5),
        depth: 2,
        group: 0.5,
        trim: 0.8,
        ellipse: 0.8,
        star: 0.5,
        path: 2.0,
        rounded_star: 0.0,
        stroke: 0.5,
        anim: 0.15,
        gtf: 0.4,
        missing: 0.1,
        hidden_shape: 0.03,
        paint_last: 0.95,
        big: 0.04,
        ..Profile::default()
    };
    mk(r, &p, 3)
}

fn p26_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mask = Mask {
        tf: true,
        path: true,
        color: true,
        ..NONE
    };
    spec(c, obs, &mask, |o| o.loose.iter().any(|l| *l != Cut::No))
}

fn trim(s: f64, e: f64, o: f64) -> Value {
    json!({"ty":"tm","s":fx(json!(s)),"e":fx(json!(e)),"o":fx(json!(o))})
}

fn p26_fixed() -> Vec<(String, Value)> {
    let mut out = vec![];
    let square = sh(json!([[0, 0], [100, 0], [100, 100], [0, 100]]), true);
    let open = sh(json!([[0, 0], [100, 0], [100, 100]]), false);
    let f = || fill(0.3, 0.2, 0.1);
    for (i, (s, e, o)) in [
        (0.0, 25.0, 0.0),
        (25.0, 75.0, 0.0),
        (75.0, 25.0, 0.0),
        (0.0, 50.0, 90.0),
        (0.0, 50.0, 270.0),
        (0.0, 50.0, -90.0),
        (0.0, 50.0, 720.0 + 45.0),
        (0.0, 100.0, 45.0),
        (10.0, 10.0, 0.0),
        (90.0, 100.0, 36.0),
        (0.0, 99.0, 180.0),
        (0.0, 0.0, 0.0),
        (100.0, 0.0, 0.0),
    ]
    .into_iter()
    .enumerate()
    {
        out.push(tcase(
            &format!("square-{i}"),
            doc1(json!([square, trim(s, e, o), f()])),
            &[0.0],
        ));
        out.push(tcase(
            &format!("open-{i}"),
            doc1(json!([open, trim(s, e, o), f()])),
            &[0.0],
        ));
        out.push(tcase(
            &format!("pieces-{i}"),
            doc1(json!([
                square,
                sh(json!([[200, 0], [260, 0]]), false),
                open,
                trim(s, e, o),
                f()
            ])),
            &[0.0],
        ));
        let mut t = tr();
        t["p"] = fx(json!([500, 0]));
        out.push(tcase(
            &format!("scopes-{i}"),
            doc1(json!([
                open,
                group(json!([
                    square,
                    group(json!([open, t])),
                    trim(s, e, o),
                    f(),
                    tr()
                ])),
                square,
                f()
            ])),
            &[0.0],
        ));
        out.push(tcase(
            &format!("after-{i}"),
            doc1(json!([square, trim(s, e, o), open, f()])),
            &[0.0],
        ));
        out.push(tcase(
            &format!("outer-{i}"),
            doc1(json!([
                square,
                f(),
                group(json!([open, trim(s, e, o), f(), t])),
                open,
                trim(10.0, 60.0, 0.0),
                f()
            ])),
            &[0.0],
        ));
        out.push(tcase(
            &format!("twice-{i}"),
            doc1(json!([square, trim(s, e, o), trim(0.0, 50.0, 0.0), f()])),
            &[0.0],
        ));
    }
    let mut t = trim(0.0, 50.0, 0.0);
    t["e"] = kf(json!([{"t":0,"s":[0]},{"t":10,"s":[100]}]));
    out.push(tcase(
        "keyframed",
        doc1(json!([square, t, f()])),
        &[0.0, 1.0, 5.0, 9.5, 10.0],
    ));
    out
}

// ------------------------------------------------------------------ P27 ----

#[cfg(feature = "model")]
fn convertible(s: &Value) -> bool {
    if s["hd"] == true {
        return false;
    }
    match s["ty"].as_str().unwrap_or("") {
        "rc" | "el" | "sr" | "sh" | "fl" | "st" | "gf" | "gs" | "tm" => true,
        "gr" => s["it"]
            .as_array()
            .is_some_and(|a| a.iter().any(|x| x["ty"] == "__repeater" || convertible(x))),
        _ => false,
    }
}

#[cfg(feature = "model")]
fn strip(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(
            a.iter()
                .filter(|x| x["ty"] != "__repeater")
                .map(strip)
                .collect(),
        ),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), strip(x))).collect()),
        x => x.clone(),
    }
}

#[cfg(feature = "model")]
fn value<T: model::Tween>(p: &Value, f: impl Fn(&[f64]) -> T) -> model::Value<T> {
    let nums = |v: &Value| -> Vec<f64> {
        v.as_array()
            .map(|a| a.iter().map(num).collect())
            .unwrap_or_else(|| vec![num(v)])
    };
    let handle = |v: &Value| -> Option<model::EasingHandle> {
        if v.is_null() {
            return None;
        }
        let g = |x: &Value| if x.is_array() { num(&x[0]) } else { num(x) };
        Some(model::EasingHandle {
            x: g(&v["x"]),
            y: g(&v["y"]),
        })
    };
    match &p["k"] {
        Value::Array(a) if a.first().is_some_and(|x| x.is_object()) => {
            model::Value::Animated(model::Animated {
                times: a
                    .iter()
                    .map(|k| model::Time {
                        frame: num(&k["t"]),
                        in_tangent: handle(&k["i"]),
                        out_tangent: handle(&k["o"]),
                        hold: k["h"] == 1,
                    })
                    .collect(),
                values: a.iter().map(|k| f(&nums(&k["s"]))).collect(),
            })
        }
        k => model::Value::Fixed(f(&nums(k))),
    }
}

#[cfg(feature = "model")]
fn repeater(s: &Value) -> Shape {
    let sc = |k: &str| value(&s[k], |v| v[0]);
    let r = model::animated::Repeater {
        copies: sc("c"),
        offset: sc("o"),
        anchor_point: value(&s["a"], |v| Point::new(v[0], v[1])),
        position: value(&s["p"], |v| Point::new(v[0], v[1])),
        rotation: sc("r"),
        scale: value(&s["s"], |v| kurbo::Vec2::new(v[0], v[1])),
        start_opacity: sc("so"),
        end_opacity: sc("eo"),
    };
    Shape::Repeater(r.into_model())
}

#[cfg(feature = "model")]
fn inject(json: &Value, shapes: &mut Vec<Shape>) -> Option<()> {
    let mut old = std::mem::take(shapes).into_iter();
    for s in json.as_array().into_iter().flatten() {
        if s["ty"] == "__repeater" {
            shapes.push(repeater(s));
        } else if convertible(s) {
            let mut x = old.next()?;
            if let Shape::Group(list, _) = &mut x {
                inject(&s["it"], list)?;
            }
            shapes.push(x);
        }
    }
    old.next().is_none().then_some(())
}

/// No transformed groups at the repeater's own level (their relative order is unclaimed).
pub fn repeater_profile() -> Profile {
    Profile {
        layers: (1, 2),
        shapes: (1, 5),
        depth: 2,
        group: 0.5,
        stroke: 0.5,
        repeater: 0.4,
        anim: 0.2,
        ellipse: 0.3,
        opacity: 0.3,
        gtf: 0.0,
        ltf: 0.4,
        trim: 0.05,
        ..Profile::default()
    }
}

/// Groups are never empty.
pub fn fill_groups(d: &mut Value) {
    fn fix(v: &mut Value) {
        match v {
            Value::Array(a) => a.iter_mut().for_each(fix),
            Value::Object(o) => {
                if let Some(it) = o.get_mut("it").and_then(|x| x.as_array_mut()) {
                    // groups are never empty
                    if !it
                        .iter()
                        .any(|x| !["tr", "__repeater"].contains(&x["ty"].as_str().unwrap()))
                    {
                        it.insert(0, rect(3.0, 3.0, 6.0, 6.0));
                    }
                }
                o.values_mut().for_each(fix);
            }
            _ => {}
        }
    }
    fix(d);
}

fn p27_make(r: &mut Rng) -> Value {
    let mut c = mk(r, &repeater_profile(), 3);
    fill_groups(&mut c["doc"]);
    c
}

/// Loads a document and puts its `__repeater` shapes into the model.
/// None if the loaded shapes are not laid out like the document's.
#[cfg(feature = "model")]
pub fn load_with_repeaters(
    doc: &Value,
    obs: &mut Obs,
) -> Result<Option<velato::Composition>, String> {
    let mut comp = load(&strip(doc))?;
    for (i, l) in comp.layers.iter_mut().enumerate() {
        if let Content::Shape(s) = &mut l.content
            && inject(&doc["layers"][i]["shapes"], s).is_none()
        {
            obs.count("no place for the repeaters in the model", 1);
            return Ok(None);
        }
    }
    Ok(Some(comp))
}

#[cfg(not(feature = "model"))]
pub fn load_with_repeaters(_: &Value, _: &mut Obs) -> Result<Option<velato::Composition>, String> {
    Ok(None)
}

fn p27_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let doc = &c["doc"];
    let t = text::plain(doc);
    let Some(comp) = load_with_repeaters(doc, obs)? else {
        return Ok(());
    };
    let rep = t.contains("__repeater");
    let mask = Mask {
        tf: true,
        path: true,
        color: true,
        alpha: true,
        stroke: true,
        drop_transparent: true,
        ..NONE
    };
    spec_loaded(c, doc, &t, &comp, obs, &mask, |o| rep && some_draw(o))
}

fn p27_fixed() -> Vec<(String, Value)> {
    let rep = |c: f64, off: f64| {
        json!({"ty":"__repeater","c":fx(json!(c)),"o":fx(json!(off)),"a":fx(json!([5,6])),"p":fx(json!([20,10])),
            "r":fx(json!(30)),"s":fx(json!([90,80])),"so":fx(json!(100)),"eo":fx(json!(20))})
    };
    let r = |i: i64| rect(i as f64 * 10.0, 1.0, 8.0, 8.0);
    let f = |i: i64| fill(i as f64 / 10.0, 0.2, 0.3);
    let mut out = vec![];
    for c in [0.0, 1.0, 2.0, 3.0, 5.0] {
        for off in [0.0, 1.0, -1.0, 0.5] {
            let shapes = [
                json!([r(1), f(1), rep(c, off)]),
                json!([r(1), f(1), rep(c, off), r(2), f(2)]),
                json!([r(0), group(json!([r(1), f(1), rep(c, off), tr()])), f(2)]),
                json!([r(1), f(1), r(2), f(2), rep(c, off)]),
                json!([r(1), rep(c, off), f(1)]),
                json!([r(1), f(1), rep(c, off), rep(2.0, 0.0)]),
                json!([group(json!([r(1), f(1)])), f(3), rep(c, off)]),
            ];
            for (i, s) in shapes.into_iter().enumerate() {
                out.push(tcase(&format!("rep-{c}-{off}-{i}"), doc1(s), &[0.0]));
            }
        }
    }
    out
}

// ------------------------------------------------------------------ P32 ----

fn p32_make(r: &mut Rng) -> Value {
    mk(r, &Profile::full(), 4)
}

fn p32_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    if let Some(f) = c["file"].as_str() {
        let Ok(text) = std::fs::read_to_string(f) else {
            return Ok(());
        };
        let doc: Value = serde_json::from_str(&text).map_err(|e| e.to_string())?;
        let comp = load_text(&text)?;
        return spec_loaded(c, &doc, &text, &comp, obs, &ALL, some_draw);
    }
    spec(c, obs, &ALL, some_draw)
}

fn p32_fixed() -> Vec<(String, Value)> {
    let fr: Vec<Value> = (-2..=140).map(|i| json!(i as f64 * 0.75)).collect();
    vec![
        (
            "tiger".into(),
            json!({"file": "/repo/examples/assets/google_fonts/Tiger.json", "frames": fr}),
        ),
        (
            "polystar".into(),
            json!({"file": "/repo/examples/assets/PolyStarTest.json", "frames": fr}),
        ),
    ]
}

fn none() -> Vec<(String, Value)> {
    vec![]
}

fn fixed17() -> Vec<(String, Value)> {
    let m = |x: f64| json!({"mode":"a","inv":false,"pt":fx(bez(json!([[x,0],[x + 10.0,0],[x,10]]), true)),"o":fx(json!(100))});
    let mut a = moved(colored(1, 1.0), 9.0, 9.0, 45.0);
    a["masksProperties"] = json!([m(1.0), m(2.0), {"mode":"n"}, m(3.0)]);
    let mut pre = moved(layer(0, 3), 2.0, 3.0, 10.0);
    pre["refId"] = json!("c");
    pre["w"] = json!(10);
    pre["h"] = json!(10);
    pre["masksProperties"] = json!([m(5.0)]);
    let mut nul_l = layer(3, 5);
    nul_l["masksProperties"] = json!([m(6.0)]);
    let mut child = colored(6, 6.0);
    child["parent"] = json!(1);
    let mut td = colored(7, 7.0);
    td["td"] = json!(1);
    td["masksProperties"] = json!([m(7.0)]);
    let mut tt = colored(8, 8.0);
    tt["tt"] = json!(1);
    tt["masksProperties"] = json!([m(8.0), m(9.0)]);
    let mut d = docl(json!([a, colored(2, 2.0), pre, nul_l, child, td, tt]));
    d["assets"] = json!([{"id":"c","layers":[colored(1, 3.0), colored(2, 4.0)]}]);
    vec![tcase("masks", d, &[0.0])]
}

const A: &[&str] = &[
    "the reference interpreter (harness/src/refm.rs) states the property correctly",
    "kurbo's outline of circular arcs is accurate to 0.1 units (checked separately for rectangles and ellipses)",
    "numbers compared with relative tolerance 2e-5 (colours 6e-5)",
];

macro_rules! rule {
    ($s:literal) => {
        concat!(
            "documents drawn by the grammar-based generator with this property's profile plus hand-made documents, \
rendered at frames drawn from key times, in/out points, their neighbourhoods and the whole timeline; each render's \
call log compared with the independent reference interpreter. Distinct: by document and frame. Non-trivial: ",
            $s
        )
    };
}

pub fn props() -> Vec<Prop> {
    let _ = GEN;
    let _ = docgen::doc;
    let _ = Renderer::new;
    let d = |id, fixed, make, check, quick: usize, rule| Prop {
        id,
        fixed,
        make,
        check,
        quick,
        thorough: quick * 25,
        rule,
        assumptions: A,
        hang: 30,
    };
    vec![
        d(
            "P10",
            p10_fixed,
            p10_make,
            p10_check_all,
            40000,
            rule!("the document has keyframes and something is drawn."),
        ),
        d(
            "P11",
            p11_fixed,
            p11_make,
            p11_check,
            60000,
            rule!("the document has keyframed paths and something is drawn."),
        ),
        d(
            "P13",
            p13_fixed,
            p13_make,
            p13_check,
            60000,
            rule!("at least one layer is active."),
        ),
        d(
            "P14",
            p14_fixed,
            p14_make,
            p14_check,
            60000,
            rule!("something is drawn."),
        ),
        d(
            "P15",
            p15_fixed,
            p15_make,
            p15_check,
            40000,
            rule!("something is drawn."),
        ),
        d(
            "P16",
            p16_fixed,
            p16_make,
            p16_check,
            24000,
            rule!("something is drawn."),
        ),
        d(
            "P17",
            fixed17,
            p17_make,
            p17_check,
            48000,
            rule!("at least one mask clip is active."),
        ),
        d(
            "P18",
            p18_fixed,
            p18_make,
            p18_check,
            48000,
            rule!("at least one matte is composited."),
        ),
        d(
            "P19",
            p19_fixed,
            p19_make,
            p19_check,
            48000,
            rule!("a layer inside a precomposition draws."),
        ),
        d(
            "P21",
            p21_fixed,
            p21_make,
            p21_check,
            24000,
            rule!("something is drawn."),
        ),
        d(
            "P22",
            p22_fixed,
            p22_make,
            p22_check,
            60000,
            rule!("a star or polygon was judged from its definition."),
        ),
        d(
            "P23",
            p23_fixed,
            p23_make,
            p23_check,
            40000,
            rule!("at least two drawing calls."),
        ),
        d(
            "P24",
            p24_fixed,
            p24_make,
            p24_check,
            80000,
            rule!("something is drawn."),
        ),
        d(
            "P25",
            p25_fixed,
            p25_make,
            p25_check,
            80000,
            rule!("something is drawn."),
        ),
        d(
            "P26",
            p26_fixed,
            p26_make,
            p26_check,
            80000,
            rule!("at least one outline was cut."),
        ),
        d(
            "P27",
            p27_fixed,
            p27_make,
            p27_check,
            40000,
            rule!("a repeater was in the model and something is drawn."),
        ),
        d(
            "P32",
            p32_fixed,
            p32_make,
            p32_check,
            20000,
            rule!("something is drawn."),
        ),
    ]
    .into_iter()
    .inspect(|_| {
        let _ = none;
    })
    .collect()
}
