//! Models put together by hand from the public types: P35.

use crate::base::*;
use crate::cmp;
use crate::docgen::{self, Profile};
use crate::ev::Ev;
use crate::obs::Obs;
use crate::p_run::protocol;
use crate::p_spec::{fill_groups, load_with_repeaters, repeater_profile};
use crate::rng::Rng;
use crate::run::Prop;
use crate::text;
use kurbo::PathEl;
use serde_json::{Value as Json, json};
use velato::Composition;
use velato::model::{
    Animated, Brush, ColorStops, Content, Easing, EasingHandle, Geometry, Layer, Repeater, Shape,
    Stroke, Time, Transform, Trim, Tween, Value, animated,
};

fn some_times(r: &mut Rng, n: usize) -> Vec<Time> {
    let mut at = r.range(-10.0, 20.0).round();
    (0..n)
        .map(|_| {
            at += r.int(1, 12) as f64;
            let handle = r.chance(0.4).then(|| EasingHandle {
                x: r.range(0.0, 1.0),
                y: r.range(0.0, 1.0),
            });
            Time {
                frame: at,
                in_tangent: handle,
                out_tangent: handle,
                hold: r.chance(0.3),
            }
        })
        .collect()
}

/// Damages parts of one model and leaves them out of its twin.
struct Breaker {
    r: Rng,
    q: f64,
    /// damage for which the twin has no equivalent: the twin is not to be compared
    wild: bool,
    done: usize,
}

impl Breaker {
    fn go(&mut self) -> bool {
        let b = self.r.chance(self.q);
        self.done += b as usize;
        b
    }

    fn value_or<T: Tween>(&mut self, a: &mut Value<T>, b: &mut Value<T>, default: T) {
        if !self.go() {
            return;
        }
        let values = match a {
            Value::Fixed(x) => vec![x.clone()],
            Value::Animated(x) => x.values.clone(),
        };
        let some = self.r.int(1, 4) as usize;
        let times = some_times(&mut self.r, some);
        match self.r.below(if self.wild { 6 } else { 4 }) {
            // no keyframes, with or without values
            0 => {
                let values = if self.r.chance(0.5) { values } else { vec![] };
                *a = Value::Animated(Animated {
                    times: vec![],
                    values,
                });
                *b = Value::Fixed(default);
            }
            // no values
            1 => {
                *a = Value::Animated(Animated {
                    times,
                    values: vec![],
                });
                *b = Value::Fixed(default);
            }
            // values for no keyframe
            2 => {
                if let Value::Animated(x) = a {
                    x.values.truncate(x.times.len());
                    if x.values.len() == x.times.len() {
                        let more: Vec<T> = x.values.iter().take(some).cloned().collect();
                        x.values.extend(more);
                        x.values.push(default);
                    }
                }
            }
            // a single keyframe
            3 => {
                let v = values.first().cloned().unwrap_or(default);
                let times = times[..1].to_vec();
                *a = Value::Animated(Animated {
                    times,
                    values: vec![v.clone()],
                });
                *b = Value::Fixed(v);
            }
            4 => {
                *a = Value::Animated(Animated { times, values });
            }
            _ => {
                if let Value::Animated(x) = a {
                    let n = self.r.below(x.values.len() + 1);
                    x.values.truncate(n);
                    if self.r.chance(0.4) {
                        self.r.shuffle(&mut x.times);
                    }
                    if self.r.chance(0.2)
                        && let Some(t) = x.times.first_mut()
                    {
                        t.frame = *self.r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]);
                    }
                }
            }
        }
    }

    fn value<T: Tween + Default>(&mut self, a: &mut Value<T>, b: &mut Value<T>) {
        self.value_or(a, b, T::default());
    }

    fn transform(&mut self, a: &mut Transform, b: &mut Transform) {
        let (Transform::Animated(a), Transform::Animated(b)) = (a, b) else {
            return;
        };
        self.value(&mut a.anchor, &mut b.anchor);
        match (&mut a.position, &mut b.position) {
            (animated::Position::Value(a), animated::Position::Value(b)) => self.value(a, b),
            (
                animated::Position::SplitValues((ax, ay)),
                animated::Position::SplitValues((bx, by)),
            ) => {
                self.value(ax, bx);
                self.value(ay, by);
            }
            _ => {}
        }
        self.value(&mut a.rotation, &mut b.rotation);
        self.value(&mut a.scale, &mut b.scale);
        self.value(&mut a.skew, &mut b.skew);
        self.value(&mut a.skew_angle, &mut b.skew_angle);
    }

    fn stops(&mut self, a: &mut ColorStops, b: &mut ColorStops) {
        if !self.go() {
            return;
        }
        if let ColorStops::Animated(x) = a {
            let none = ColorStops::Fixed(Default::default());
            match self.r.below(5) {
                0 => {
                    x.frames.clear();
                    *b = none;
                }
                1 => {
                    x.values.clear();
                    *b = none;
                }
                2 => {
                    // every keyframe lacks the last number
                    let n = self.r.below(5 * x.count.max(1));
                    x.values.iter_mut().for_each(|v| v.truncate(n));
                    *b = none;
                }
                3 => {
                    // numbers of no stop
                    let full = x.values.iter().all(|v| v.len() >= 5 * x.count);
                    if full {
                        for v in &mut x.values {
                            v.truncate(5 * x.count);
                            v.extend([0.25, 0.5, 0.75, 1.0, 0.5, 0.1]);
                        }
                    }
                }
                _ => {
                    x.count = 0;
                    *b = none;
                }
            }
        }
    }

    fn brush(&mut self, a: &mut Brush, b: &mut Brush) {
        let (Brush::Animated(a), Brush::Animated(b)) = (a, b) else {
            return;
        };
        match (a, b) {
            (animated::Brush::Solid(a), animated::Brush::Solid(b)) => {
                self.value_or(a, b, peniko::Color::TRANSPARENT);
            }
            (animated::Brush::Gradient(a), animated::Brush::Gradient(b)) => {
                self.value(&mut a.start_point, &mut b.start_point);
                self.value(&mut a.end_point, &mut b.end_point);
                self.stops(&mut a.stops, &mut b.stops);
            }
            _ => {}
        }
    }

    fn geometry(&mut self, a: &mut Geometry, b: &mut Geometry) {
        match (&mut *a, &mut *b) {
            (Geometry::Rect(x), Geometry::Rect(y)) => {
                self.value(&mut x.position, &mut y.position);
                self.value(&mut x.size, &mut y.size);
                self.value(&mut x.corner_radius, &mut y.corner_radius);
            }
            (Geometry::Ellipse(x), Geometry::Ellipse(y)) => {
                self.value(&mut x.position, &mut y.position);
                self.value(&mut x.size, &mut y.size);
            }
            (Geometry::Star(x), Geometry::Star(y)) => {
                self.value(&mut x.position, &mut y.position);
                self.value(&mut x.inner_radius, &mut y.inner_radius);
                self.value(&mut x.inner_roundness, &mut y.inner_roundness);
                self.value(&mut x.outer_radius, &mut y.outer_radius);
                self.value(&mut x.outer_roundness, &mut y.outer_roundness);
                self.value(&mut x.rotation, &mut y.rotation);
                self.value(&mut x.points, &mut y.points);
            }
            (Geometry::Spline(x), _) if self.go() => {
                let some = self.r.int(1, 4) as usize;
                match self.r.below(if self.wild { 6 } else { 4 }) {
                    0 => x.times.clear(),
                    1 => x.values.clear(),
                    2 => x.values.iter_mut().for_each(|v| {
                        v.start.clear();
                        if let Some(e) = &mut v.end {
                            e.clear();
                        }
                    }),
                    3 => {
                        // shapes for no keyframe
                        x.values.truncate(x.times.len());
                        if x.values.len() == x.times.len() {
                            let more: Vec<_> = x.values.iter().take(some).cloned().collect();
                            x.values.extend(more);
                        }
                        return;
                    }
                    4 => {
                        let n = self.r.below(x.values.len() + 1);
                        x.values.truncate(n);
                    }
                    _ => {
                        for v in &mut x.values {
                            let n = self.r.below(v.start.len() + 1);
                            v.start.truncate(n);
                            if self.r.chance(0.3) {
                                v.end = Some(v.start.iter().rev().cloned().collect());
                            }
                        }
                    }
                }
                *b = Geometry::Fixed(vec![]);
            }
            (Geometry::Fixed(_), _) if self.go() => {
                // an animated outline that never has one
                let none = animated::Spline {
                    is_closed: self.r.chance(0.5),
                    times: some_times(&mut self.r, 2),
                    values: vec![],
                };
                *a = Geometry::Spline(none);
                *b = Geometry::Fixed(vec![]);
            }
            _ => {}
        }
    }

    fn shapes(&mut self, a: &mut Vec<Shape>, b: &mut [Shape]) {
        for (x, y) in a.iter_mut().zip(b) {
            match (x, y) {
                (Shape::Group(x, s), Shape::Group(y, t)) => {
                    self.shapes(x, y);
                    if let (Some(s), Some(t)) = (s, t) {
                        self.transform(&mut s.transform, &mut t.transform);
                        self.value(&mut s.opacity, &mut t.opacity);
                    }
                }
                (Shape::Geometry(x), Shape::Geometry(y)) => self.geometry(x, y),
                (Shape::Draw(x), Shape::Draw(y)) => {
                    if let (Some(Stroke::Animated(s)), Some(Stroke::Animated(t))) =
                        (&mut x.stroke, &mut y.stroke)
                    {
                        self.value(&mut s.width, &mut t.width);
                    }
                    self.brush(&mut x.brush, &mut y.brush);
                    self.value(&mut x.opacity, &mut y.opacity);
                }
                (
                    Shape::Repeater(Repeater::Animated(s)),
                    Shape::Repeater(Repeater::Animated(t)),
                ) => {
                    self.value(&mut s.copies, &mut t.copies);
                    self.value(&mut s.offset, &mut t.offset);
                    self.value(&mut s.anchor_point, &mut t.anchor_point);
                    self.value(&mut s.position, &mut t.position);
                    self.value(&mut s.rotation, &mut t.rotation);
                    self.value(&mut s.scale, &mut t.scale);
                    self.value(&mut s.start_opacity, &mut t.start_opacity);
                    self.value(&mut s.end_opacity, &mut t.end_opacity);
                }
                (Shape::Trim(Trim::Animated(s)), Shape::Trim(Trim::Animated(t))) => {
                    self.value(&mut s.start, &mut t.start);
                    self.value(&mut s.end, &mut t.end);
                    self.value(&mut s.offset, &mut t.offset);
                }
                _ => {}
            }
        }
        // groups in which there is nothing
        if self.r.chance(self.q * 0.3) {
            self.done += 1;
            let at = self.r.below(a.len() + 1);
            let inner = if self.r.chance(0.5) {
                vec![]
            } else {
                vec![Shape::Group(vec![], None)]
            };
            a.insert(at, Shape::Group(inner, None));
        }
    }

    fn layers(&mut self, a: &mut Vec<Layer>, b: &mut Vec<Layer>, names: &[String]) {
        let n = a.len();
        for (x, y) in a.iter_mut().zip(b.iter_mut()) {
            self.transform(&mut x.transform, &mut y.transform);
            self.value(&mut x.opacity, &mut y.opacity);
            for (s, t) in x.masks.iter_mut().zip(&mut y.masks) {
                self.geometry(&mut s.geometry, &mut t.geometry);
                self.value(&mut s.opacity, &mut t.opacity);
            }
            if let (Content::Shape(s), Content::Shape(t)) = (&mut x.content, &mut y.content) {
                self.shapes(s, t);
                if self.r.chance(self.q * 0.1) {
                    self.done += 1;
                    s.clear();
                    y.content = Content::None;
                }
            }
        }
        let beyond = [n + 1, n + 7, usize::MAX, usize::MAX - 1, 1 << 40];
        let mut empty = None;
        for i in 0..n {
            if a[i].parent.is_none() && self.r.chance(self.q * 0.5) {
                self.done += 1;
                a[i].parent = Some(*self.r.pick(&beyond));
            }
            if self.r.chance(self.q * 0.3) {
                let mode = a[i]
                    .mask_layer
                    .map_or(peniko::Compose::SrcIn.into(), |m| m.0);
                if self.r.chance(0.5) || a[i].mask_layer.is_some() {
                    self.done += 1;
                    a[i].mask_layer = Some((mode, *self.r.pick(&beyond)));
                    // in the twin: a matte that never shows
                    let at = *empty.get_or_insert_with(|| {
                        b.push(Layer {
                            frames: 1.0..1.0,
                            is_mask: true,
                            ..Layer::default()
                        });
                        b.len() - 1
                    });
                    b[i].mask_layer = Some((mode, at));
                }
            }
            if matches!(a[i].content, Content::Instance { .. } | Content::None)
                && self.r.chance(self.q * 0.5)
            {
                self.done += 1;
                a[i].content = Content::Instance {
                    name: (*self.r.pick(&["", "nowhere", "\u{0}", "layer"])).into(),
                    time_remap: self.r.chance(0.3).then(|| {
                        Value::Animated(Animated {
                            times: vec![],
                            values: vec![],
                        })
                    }),
                };
                b[i].content = Content::None;
            }
            if self.r.chance(self.q * 0.15) {
                self.done += 1;
                let f = a[i].frames.clone();
                a[i].frames = match self.r.below(2) {
                    // the range may have been reversed to begin with
                    0 => f.end.max(f.start)..f.start.min(f.end),
                    _ => f.start..f.start,
                };
                b[i].frames = 1.0..1.0;
            }
        }
        if self.wild {
            for x in a.iter_mut() {
                let any = |r: &mut Rng| r.below(n + 2);
                if self.r.chance(self.q) {
                    x.parent = Some(any(&mut self.r));
                }
                if self.r.chance(self.q * 0.5) {
                    x.mask_layer = Some((peniko::Compose::SrcOut.into(), any(&mut self.r)));
                }
                if self.r.chance(self.q * 0.5) {
                    x.is_mask = !x.is_mask;
                }
                if self.r.chance(self.q * 0.3) && !names.is_empty() {
                    x.content = Content::Instance {
                        name: self.r.pick(names).clone(),
                        time_remap: None,
                    };
                }
                if self.r.chance(self.q * 0.3) {
                    x.stretch = *self.r.pick(&[0.0, -1.0, f64::NAN, f64::INFINITY, 1e-300]);
                }
                if self.r.chance(self.q * 0.3) {
                    x.start_frame = *self.r.pick(&[f64::NAN, f64::NEG_INFINITY, 1e300]);
                }
                self.done += 1;
            }
        }
    }
}

fn p35_make(r: &mut Rng) -> Json {
    let d = if r.chance(0.25) {
        let p = Profile {
            trim: 0.3,
            anim: 0.5,
            star: 0.5,
            gfill: 0.4,
            stroke: 0.5,
            mask: 0.2,
            path_anim: 0.4,
            ..repeater_profile()
        };
        let mut d = docgen::doc(r, &p);
        fill_groups(&mut d);
        d
    } else {
        let mut p = Profile::full();
        p.anim = *r.pick(&[0.3, 0.6, 0.9]);
        p.path_anim = 0.5;
        p.layers = (1, 4);
        p.shapes = (1, 4);
        p.assets = (0, 2);
        p.asset_layers = (1, 3);
        p.big = 0.0;
        docgen::doc(r, &p)
    };
    let mut c = case_for(r, d, 4);
    c["parts"] = json!(r.int(0, 1 << 40));
    c["share"] = json!(*r.pick(&[0.5, 0.2, 0.1, 0.03]));
    c["wild"] = json!(r.chance(0.25));
    c
}

/// Values asked for directly, with a default of the caller's.
fn direct(r: &mut Rng, frames: &[f64], obs: &mut Obs) -> Result<(), String> {
    for f in frames {
        let d = r.range(-50.0, 50.0);
        let n = r.int(1, 3) as usize;
        let times = some_times(r, n);
        let none: Animated<f64> = Animated {
            times: vec![],
            values: vec![1.0, 2.0],
        };
        let bare: Animated<f64> = Animated {
            times: times.clone(),
            values: vec![],
        };
        for a in [none, bare] {
            let got = [
                a.evaluate_or(*f, d),
                Value::Animated(a.clone()).evaluate_or(*f, d),
                Value::Animated(a).evaluate(*f) + d,
            ];
            if got
                .iter()
                .any(|x| x.to_bits() != (d + 0.0).to_bits() && *x != d)
            {
                return Err(format!(
                    "frame {f}: a value without keyframes or without values is {got:?}, its default {d}"
                ));
            }
        }
        let mut path = vec![PathEl::ClosePath; 2];
        let drawn = animated::Spline {
            is_closed: true,
            times,
            values: vec![],
        }
        .evaluate(*f, &mut path);
        if drawn || path.len() != 2 {
            return Err(format!(
                "frame {f}: an outline without shapes says {drawn} and gives {path:?}"
            ));
        }
        let (a, b) = (r.range(-9.0, 9.0), r.range(-9.0, 9.0));
        if a.tween(&b, 0.0, &Easing::LERP) != a || a.tween(&b, 1.0, &Easing::LERP) != b {
            return Err("the ends of an interpolation are not its values".into());
        }
        obs.count("values asked for directly", 7);
    }
    Ok(())
}

fn p35_check(c: &Json, obs: &mut Obs) -> Result<(), String> {
    let t = text::plain(&c["doc"]);
    let comp = if t.contains("__repeater") {
        match load_with_repeaters(&c["doc"], obs)? {
            Some(c) => c,
            None => return Ok(()),
        }
    } else {
        load(&c["doc"])?
    };
    let wild = c["wild"] == json!(true);
    let mut z = Breaker {
        r: Rng::new(c["parts"].as_u64().unwrap()),
        q: c["share"].as_f64().unwrap(),
        wild,
        done: 0,
    };
    let (tf, alpha) = (tf_of(c), alpha_of(c));
    let frames = frames_of(c);
    crate::run::guard(|| direct(&mut z.r, &frames, obs))??;
    let (mut broken, mut sound): (Composition, Composition) = (comp.clone(), comp);
    let mut names: Vec<String> = broken.assets.keys().cloned().collect();
    names.sort();
    z.layers(&mut broken.layers, &mut sound.layers, &names);
    for n in &names {
        let (a, b) = (
            broken.assets.get_mut(n).unwrap(),
            sound.assets.get_mut(n).unwrap(),
        );
        z.layers(a, b, &names);
    }
    let size = (broken.width as f64, broken.height as f64);
    for f in frames {
        let got = if wild {
            // cycles may draw without end in sight: no verdict
            match render_with(&mut velato::Renderer::new(), &broken, f, tf, alpha, 100_000) {
                Err(m) if m.contains("drawing calls") => {
                    obs.count("renders that are too long (no verdict)", 1);
                    continue;
                }
                x => x?,
            }
        } else {
            render(&broken, f, tf, alpha)?
        };
        protocol(&got, size, &tf, obs).map_err(|m| format!("frame {f}: {m}"))?;
        if !wild {
            let want = render(&sound, f, tf, alpha)?;
            // the same text: also the same if there are numbers that are not equal to themselves
            if format!("{got:?}") != format!("{want:?}") {
                cmp::compare(&got, &want, &[], &cmp::ALL).map_err(|m| {
                    format!(
                        "frame {f}: {} damaged parts are not as if absent: {m}",
                        z.done
                    )
                })?;
            }
            obs.count("renders compared with the twin's", 1);
        }
        obs.events(&got);
        obs.count("damaged parts", z.done as u64);
        obs.eval(
            hash_case(&t, f),
            z.done > 0 && got.iter().any(|e| matches!(e, Ev::Draw { .. })),
        );
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P35",
        fixed: Vec::new,
        make: p35_make,
        check: p35_check,
        quick: 24_000,
        thorough: 600_000,
        rule: "loaded models in which half to a few percent of the parts are damaged through the public types: keyframed values without keyframes or \
without values, values and shapes for no keyframe, outlines without points, colour stops without enough numbers, parents, mattes and assets that are not \
there, empty and reversed frame ranges, groups and layers without content; drawn next to a twin in which the same parts are absent or have their default, \
calls compared exactly. A quarter of the cases have any damage at all (cycles, missing single values, shuffled and NaN key times, odd stretches): \
they must render without panic, with brackets balanced. Distinct: by document and frame. Non-trivial: a part was damaged and something is drawn.",
        assumptions: &[
            "keyframe lists that lack only some of their values are judged for panics and brackets alone",
        ],
        hang: 30,
    }]
}
