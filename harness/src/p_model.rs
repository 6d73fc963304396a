//! The public animation model: P33 and P34.

use crate::base::*;
use crate::cmp;
use crate::docgen::{self, Profile};
use crate::ev::{self, Ev};
use crate::obs::Obs;
use crate::p_spec::{fill_groups, load_with_repeaters, repeater_profile};
use crate::refm::{Ctx, When};
use crate::rng::Rng;
use crate::run::{Prop, guard};
use crate::text;
use kurbo::PathEl;
use serde_json::{Value as Json, json};
use std::collections::HashMap;
use std::fmt::Debug;
use velato::Composition;
use velato::model::{
    Brush, ColorStops, Content, Geometry, Layer, Repeater, Shape, Stroke, Transform, Trim, Tween,
    Value, animated,
};

/// Replaces parts of a model by what they evaluate to at a frame.
struct Freezer {
    r: Rng,
    /// probability that a part is replaced
    q: f64,
    frame: f64,
    replaced: usize,
}

impl Freezer {
    fn go(&mut self) -> bool {
        let b = self.r.chance(self.q);
        self.replaced += b as usize;
        b
    }

    fn value<T: Tween + Default>(&mut self, v: &mut Value<T>) {
        if !v.is_fixed() && self.go() {
            *v = Value::Fixed(v.evaluate(self.frame));
        }
    }

    fn colour(&mut self, v: &mut Value<peniko::Color>) {
        if !v.is_fixed() && self.go() {
            *v = Value::Fixed(v.evaluate_or(self.frame, peniko::Color::TRANSPARENT));
        }
    }

    fn position(&mut self, p: &mut animated::Position) {
        match p {
            animated::Position::Value(v) => self.value(v),
            animated::Position::SplitValues((x, y)) => {
                self.value(x);
                self.value(y);
            }
        }
    }

    fn atransform(&mut self, a: &mut animated::Transform) {
        self.value(&mut a.anchor);
        self.position(&mut a.position);
        self.value(&mut a.rotation);
        self.value(&mut a.scale);
        self.value(&mut a.skew);
        self.value(&mut a.skew_angle);
    }

    fn transform(&mut self, t: &mut Transform) {
        if let Transform::Animated(a) = t {
            if self.go() {
                *t = Transform::Fixed(t.evaluate(self.frame).into_owned());
            } else {
                self.atransform(a);
                if self.r.chance(0.5) {
                    *t = a.clone().into_model();
                }
            }
        }
    }

    fn astroke(&mut self, a: &mut animated::Stroke) {
        self.value(&mut a.width);
    }

    fn stroke(&mut self, t: &mut Stroke) {
        if let Stroke::Animated(a) = t {
            if self.go() {
                *t = Stroke::Fixed(t.evaluate(self.frame).into_owned());
            } else {
                self.astroke(a);
                if self.r.chance(0.5) {
                    *t = a.clone().into_model();
                }
            }
        }
    }

    fn stops(&mut self, s: &mut ColorStops) {
        if !s.is_fixed() && self.go() {
            *s = ColorStops::Fixed(s.evaluate(self.frame).into_owned());
        }
    }

    fn abrush(&mut self, a: &mut animated::Brush) {
        match a {
            animated::Brush::Solid(v) => self.colour(v),
            animated::Brush::Gradient(g) => {
                self.value(&mut g.start_point);
                self.value(&mut g.end_point);
                self.stops(&mut g.stops);
            }
        }
    }

    fn brush(&mut self, t: &mut Brush) {
        if let Brush::Animated(a) = t {
            if self.go() {
                *t = Brush::Fixed(t.evaluate(1.0, self.frame).into_owned());
            } else {
                self.abrush(a);
                if self.r.chance(0.5) {
                    *t = a.clone().into_model();
                }
            }
        }
    }

    fn atrim(&mut self, a: &mut animated::Trim) {
        self.value(&mut a.start);
        self.value(&mut a.end);
        self.value(&mut a.offset);
    }

    fn trim(&mut self, t: &mut Trim) {
        if let Trim::Animated(a) = t {
            if self.go() {
                *t = Trim::Fixed(t.evaluate(self.frame).into_owned());
            } else {
                self.atrim(a);
                if self.r.chance(0.5) {
                    *t = a.clone().into_model();
                }
            }
        }
    }

    fn arepeater(&mut self, a: &mut animated::Repeater) {
        self.value(&mut a.copies);
        self.value(&mut a.offset);
        self.value(&mut a.anchor_point);
        self.value(&mut a.position);
        self.value(&mut a.rotation);
        self.value(&mut a.scale);
        self.value(&mut a.start_opacity);
        self.value(&mut a.end_opacity);
    }

    fn repeater(&mut self, t: &mut Repeater) {
        if let Repeater::Animated(a) = t {
            if self.go() {
                *t = Repeater::Fixed(t.evaluate(self.frame).into_owned());
            } else {
                self.arepeater(a);
                if self.r.chance(0.5) {
                    *t = a.clone().into_model();
                }
            }
        }
    }

    fn astar(&mut self, s: &mut animated::Star) {
        self.value(&mut s.position);
        self.value(&mut s.inner_radius);
        self.value(&mut s.inner_roundness);
        self.value(&mut s.outer_radius);
        self.value(&mut s.outer_roundness);
        self.value(&mut s.rotation);
        self.value(&mut s.points);
    }

    fn geometry(&mut self, g: &mut Geometry) {
        if !matches!(g, Geometry::Fixed(_)) && self.go() {
            let mut p = vec![];
            g.evaluate(self.frame, &mut p);
            *g = Geometry::Fixed(p);
        }
        match g {
            Geometry::Fixed(_) => {}
            Geometry::Rect(x) => {
                self.value(&mut x.position);
                self.value(&mut x.size);
                self.value(&mut x.corner_radius);
            }
            Geometry::Ellipse(x) => {
                self.value(&mut x.position);
                self.value(&mut x.size);
            }
            Geometry::Spline(_) => {}
            Geometry::Star(s) => {
                self.astar(s);
                if self.r.chance(0.5) {
                    *g = s.clone().into_model();
                }
            }
        }
    }

    fn shapes(&mut self, s: &mut [Shape]) {
        for x in s {
            match x {
                Shape::Group(s, t) => {
                    self.shapes(s);
                    if let Some(t) = t {
                        self.transform(&mut t.transform);
                        self.value(&mut t.opacity);
                    }
                }
                Shape::Geometry(g) => self.geometry(g),
                Shape::Draw(d) => {
                    if let Some(s) = &mut d.stroke {
                        self.stroke(s);
                    }
                    self.brush(&mut d.brush);
                    self.value(&mut d.opacity);
                }
                Shape::Repeater(t) => self.repeater(t),
                Shape::Trim(t) => self.trim(t),
            }
        }
    }

    fn layers(&mut self, l: &mut [Layer]) {
        for l in l {
            self.transform(&mut l.transform);
            self.value(&mut l.opacity);
            for m in &mut l.masks {
                self.geometry(&mut m.geometry);
                self.value(&mut m.opacity);
            }
            if let Content::Shape(s) = &mut l.content {
                self.shapes(s);
            }
        }
    }
}

/// Bends the pieces of fixed outlines, given as quadratic curves or as the same curves of degree three.
fn bend(layers: &mut [Layer], r: &mut Rng, quads: bool) -> bool {
    fn path(p: &mut [PathEl], r: &mut Rng, quads: bool) -> bool {
        let mut at = kurbo::Point::ZERO;
        let mut any = false;
        for e in p {
            let end = match e {
                PathEl::MoveTo(q)
                | PathEl::LineTo(q)
                | PathEl::QuadTo(_, q)
                | PathEl::CurveTo(_, _, q) => *q,
                PathEl::ClosePath => continue,
            };
            if !matches!(e, PathEl::MoveTo(_)) && at != end && r.chance(0.7) {
                let d = (end - at).hypot();
                let c =
                    at.midpoint(end) + kurbo::Vec2::new(r.range(-1.0, 1.0), r.range(-1.0, 1.0)) * d;
                *e = if quads {
                    PathEl::QuadTo(c, end)
                } else {
                    PathEl::CurveTo(at.lerp(c, 2.0 / 3.0), end.lerp(c, 2.0 / 3.0), end)
                };
                any = true;
            }
            at = end;
        }
        any
    }
    fn shapes(s: &mut [Shape], r: &mut Rng, quads: bool) -> bool {
        let mut any = false;
        for x in s {
            any |= match x {
                Shape::Group(s, _) => shapes(s, r, quads),
                Shape::Geometry(Geometry::Fixed(p)) => path(p, r, quads),
                _ => false,
            };
        }
        any
    }
    let mut any = false;
    for l in layers {
        for m in &mut l.masks {
            if let Geometry::Fixed(p) = &mut m.geometry {
                any |= path(p, r, quads);
            }
        }
        if let Content::Shape(s) = &mut l.content {
            any |= shapes(s, r, quads);
        }
    }
    any
}

fn bend_all(c: &Composition, seed: u64, quads: bool) -> (Composition, bool) {
    let mut c = c.clone();
    let mut any = bend(&mut c.layers, &mut Rng::new(seed), quads);
    let mut names: Vec<String> = c.assets.keys().cloned().collect();
    names.sort();
    for (i, n) in names.iter().enumerate() {
        let mut r = Rng::new(seed + 1 + i as u64);
        any |= bend(c.assets.get_mut(n).unwrap(), &mut r, quads);
    }
    (c, any)
}

/// The frames at which an asset is drawn; None if it cannot be told exactly.
fn local_frames(c: &Composition, frame: f64) -> Option<HashMap<String, Vec<f64>>> {
    fn walk(
        c: &Composition,
        layers: &[Layer],
        frame: f64,
        depth: usize,
        budget: &mut usize,
        out: &mut HashMap<String, Vec<f64>>,
    ) -> Option<()> {
        for l in layers {
            *budget = budget.checked_sub(1)?;
            if let Content::Instance { name, .. } = &l.content
                && let Some(a) = c.assets.get(name)
            {
                if depth == 0 {
                    return None;
                }
                let (x, y) = (
                    (frame - l.start_frame) / l.stretch,
                    frame / l.stretch - l.start_frame / l.stretch,
                );
                if x.to_bits() != y.to_bits() {
                    return None;
                }
                let v = out.entry(name.clone()).or_default();
                if !v.contains(&x) {
                    v.push(x);
                }
                walk(c, a, x, depth - 1, budget, out)?;
            }
        }
        Some(())
    }
    let mut out = HashMap::new();
    walk(c, &c.layers, frame, 12, &mut 5000, &mut out)?;
    Some(out)
}

/// The same text, but for rounding of the numbers in it.
fn alike(a: &str, b: &str) -> bool {
    fn cut(s: &str) -> (&str, &str, &str) {
        let number = |c: char| c.is_ascii_digit() || c == '-';
        let i = s.find(number).unwrap_or(s.len());
        let (word, s) = s.split_at(i);
        let more = |c: char| !(c.is_ascii_digit() || matches!(c, '-' | '.' | 'e'));
        let (n, rest) = s.split_at(s.find(more).unwrap_or(s.len()));
        (word, n, rest)
    }
    if a == b {
        return true;
    }
    let (mut a, mut b) = (a, b);
    while !a.is_empty() || !b.is_empty() {
        let ((w, x, s), (v, y, t)) = (cut(a), cut(b));
        let near = match (x.parse::<f64>(), y.parse::<f64>()) {
            (Ok(x), Ok(y)) => cmp::near(x, y),
            _ => x == y,
        };
        if w != v || !near {
            return false;
        }
        (a, b) = (s, t);
    }
    true
}

/// A part that calls itself fixed must not change, and its model form must evaluate to the same.
struct Truth<'a> {
    frames: &'a [f64],
    r: &'a mut Rng,
    parts: u64,
    fixed: u64,
}

impl Truth<'_> {
    fn same<A: Debug>(
        &mut self,
        what: &str,
        fixed: bool,
        at: impl Fn(f64) -> A,
    ) -> Result<(), String> {
        self.parts += 1;
        if !fixed {
            return Ok(());
        }
        self.fixed += 1;
        let first = format!("{:?}", at(self.frames[0]));
        for f in self.frames {
            let v = format!("{:?}", at(*f));
            if !alike(&v, &first) {
                return Err(format!(
                    "{what} calls itself fixed but is {first} at frame {} and {v} at {f}",
                    self.frames[0]
                ));
            }
        }
        Ok(())
    }

    fn model<A: Debug, B: Debug>(
        &mut self,
        what: &str,
        a: impl Fn(f64) -> A,
        b: impl Fn(f64) -> B,
    ) -> Result<(), String> {
        for f in self.frames {
            let (x, y) = (format!("{:?}", a(*f)), format!("{:?}", b(*f)));
            if !alike(&x, &y) {
                return Err(format!(
                    "{what} is {x} at frame {f}, but its model form {y}"
                ));
            }
        }
        Ok(())
    }

    /// Some of the part's values fixed, by a freezer.
    fn partly<T: Clone>(&mut self, a: &T, f: fn(&mut Freezer, &mut T)) -> T {
        let mut a = a.clone();
        let q = *self.r.pick(&[0.5, 0.8, 1.0]);
        let frame = *self.r.pick(self.frames);
        let mut z = Freezer {
            r: Rng::new(self.r.u64()),
            q,
            frame,
            replaced: 0,
        };
        f(&mut z, &mut a);
        a
    }

    fn transform(&mut self, t: &Transform) -> Result<(), String> {
        self.same("a transform", t.is_fixed(), |f| t.evaluate(f).into_owned())?;
        if let Transform::Animated(a) = t {
            let p = self.partly(a, Freezer::atransform);
            for a in [a, &p] {
                self.same("an animated transform", a.is_fixed(), |f| a.evaluate(f))?;
                let m = a.clone().into_model();
                self.same("a converted transform", m.is_fixed(), |f| {
                    m.evaluate(f).into_owned()
                })?;
                self.model(
                    "a transform",
                    |f| a.evaluate(f),
                    |f| m.evaluate(f).into_owned(),
                )?;
            }
        }
        Ok(())
    }

    fn stroke(&mut self, t: &Stroke) -> Result<(), String> {
        self.same("a stroke", t.is_fixed(), |f| t.evaluate(f).into_owned())?;
        if let Stroke::Animated(a) = t {
            let p = self.partly(a, Freezer::astroke);
            for a in [a, &p] {
                self.same("an animated stroke", a.is_fixed(), |f| a.evaluate(f))?;
                let m = a.clone().into_model();
                self.same("a converted stroke", m.is_fixed(), |f| {
                    m.evaluate(f).into_owned()
                })?;
                self.model(
                    "a stroke",
                    |f| a.evaluate(f),
                    |f| m.evaluate(f).into_owned(),
                )?;
            }
        }
        Ok(())
    }

    fn brush(&mut self, t: &Brush) -> Result<(), String> {
        self.same("a brush", t.is_fixed(), |f| t.evaluate(0.5, f).into_owned())?;
        if let Brush::Animated(a) = t {
            let p = self.partly(a, Freezer::abrush);
            for a in [a, &p] {
                self.same("an animated brush", a.is_fixed(), |f| a.evaluate(1.0, f))?;
                if let animated::Brush::Gradient(g) = a {
                    self.same("a gradient", g.is_fixed(), |f| g.evaluate(f))?;
                    self.same("a list of colour stops", g.stops.is_fixed(), |f| {
                        g.stops.evaluate(f).into_owned()
                    })?;
                }
                let m = a.clone().into_model();
                self.same("a converted brush", m.is_fixed(), |f| {
                    m.evaluate(1.0, f).into_owned()
                })?;
                for alpha in [1.0, 0.0, 0.4, 1.5, 3.0] {
                    self.model(
                        &format!("a brush with alpha {alpha}"),
                        |f| a.evaluate(alpha, f),
                        |f| m.evaluate(alpha, f).into_owned(),
                    )?;
                }
            }
        }
        Ok(())
    }

    fn trim(&mut self, t: &Trim) -> Result<(), String> {
        self.same("a trim", t.is_fixed(), |f| t.evaluate(f).into_owned())?;
        if let Trim::Animated(a) = t {
            let p = self.partly(a, Freezer::atrim);
            for a in [a, &p] {
                self.same("an animated trim", a.is_fixed(), |f| a.evaluate(f))?;
                let m = a.clone().into_model();
                self.same("a converted trim", m.is_fixed(), |f| {
                    m.evaluate(f).into_owned()
                })?;
                self.model("a trim", |f| a.evaluate(f), |f| m.evaluate(f).into_owned())?;
            }
        }
        Ok(())
    }

    fn repeater(&mut self, t: &Repeater) -> Result<(), String> {
        self.same("a repeater", t.is_fixed(), |f| t.evaluate(f).into_owned())?;
        if let Repeater::Animated(a) = t {
            let p = self.partly(a, Freezer::arepeater);
            for a in [a, &p] {
                self.same("an animated repeater", a.is_fixed(), |f| a.evaluate(f))?;
                let m = a.clone().into_model();
                self.same("a converted repeater", m.is_fixed(), |f| {
                    m.evaluate(f).into_owned()
                })?;
                self.model(
                    "a repeater",
                    |f| a.evaluate(f),
                    |f| m.evaluate(f).into_owned(),
                )?;
            }
        }
        Ok(())
    }

    fn geometry(&mut self, g: &Geometry) -> Result<(), String> {
        let at = |g: &Geometry, f: f64| {
            let mut p = vec![];
            g.evaluate(f, &mut p);
            p
        };
        self.same("an outline", matches!(g, Geometry::Fixed(_)), |f| at(g, f))?;
        match g {
            Geometry::Rect(x) => self.same("a rectangle", x.is_fixed(), |f| x.evaluate(f)),
            Geometry::Ellipse(x) => self.same("an ellipse", x.is_fixed(), |f| x.evaluate(f)),
            Geometry::Star(a) => {
                let p = self.partly(a, Freezer::astar);
                for a in [a, &p] {
                    let of = |f| at(&Geometry::Star(a.clone()), f);
                    self.same("a star", a.is_fixed(), of)?;
                    let m = a.clone().into_model();
                    self.same("a converted star", matches!(m, Geometry::Fixed(_)), |f| {
                        at(&m, f)
                    })?;
                    self.model("a star", of, |f| at(&m, f))?;
                }
                Ok(())
            }
            _ => Ok(()),
        }
    }

    fn shapes(&mut self, s: &[Shape]) -> Result<(), String> {
        for x in s {
            match x {
                Shape::Group(s, t) => {
                    self.shapes(s)?;
                    if let Some(t) = t {
                        self.transform(&t.transform)?;
                    }
                }
                Shape::Geometry(g) => self.geometry(g)?,
                Shape::Draw(d) => {
                    if let Some(s) = &d.stroke {
                        self.stroke(s)?;
                    }
                    self.brush(&d.brush)?;
                    self.same("an opacity", d.opacity.is_fixed(), |f| {
                        d.opacity.evaluate(f)
                    })?;
                }
                Shape::Repeater(t) => self.repeater(t)?,
                Shape::Trim(t) => self.trim(t)?,
            }
        }
        Ok(())
    }

    fn layers(&mut self, l: &[Layer]) -> Result<(), String> {
        for l in l {
            self.transform(&l.transform)?;
            self.same("an opacity", l.opacity.is_fixed(), |f| {
                l.opacity.evaluate(f)
            })?;
            for m in &l.masks {
                self.geometry(&m.geometry)?;
            }
            if let Content::Shape(s) = &l.content {
                self.shapes(s)?;
            }
        }
        Ok(())
    }
}

fn p33_make(r: &mut Rng) -> Json {
    let d = if r.chance(0.3) {
        let p = Profile {
            trim: 0.4,
            anim: 0.5,
            star: 0.5,
            gfill: 0.4,
            stroke: 0.5,
            ..repeater_profile()
        };
        let mut d = docgen::doc(r, &p);
        fill_groups(&mut d);
        d
    } else {
        let mut p = Profile::full();
        p.anim = *r.pick(&[0.15, 0.5, 0.8]);
        p.layers = (1, 3);
        p.shapes = (1, 4);
        p.trim = 0.4;
        if r.chance(0.5) {
            p.stretch = 0.0;
            p.start = 0.0;
        }
        docgen::doc(r, &p)
    };
    let mut c = case_for(r, d, 4);
    c["parts"] = json!(r.int(0, 1 << 40));
    c["share"] = json!(*r.pick(&[1.0, 0.5, 0.1]));
    c["bend"] = json!(r.chance(0.3));
    c
}

fn p33_check(c: &Json, obs: &mut Obs) -> Result<(), String> {
    let t = text::plain(&c["doc"]);
    let comp = if t.contains("__repeater") {
        match load_with_repeaters(&c["doc"], obs)? {
            Some(c) => c,
            None => return Ok(()),
        }
    } else {
        load(&c["doc"])?
    };
    let mut r = Rng::new(c["parts"].as_u64().unwrap());
    let (tf, alpha) = (tf_of(c), alpha_of(c));
    let frames = frames_of(c);
    let mut truth = Truth {
        frames: &frames,
        r: &mut r,
        parts: 0,
        fixed: 0,
    };
    guard(|| {
        truth.layers(&comp.layers)?;
        comp.assets.values().try_for_each(|l| truth.layers(l))
    })??;
    obs.count("parts examined", truth.parts);
    obs.count("fixed parts examined", truth.fixed);
    // fixed outlines as quadratic curves, against the same curves of degree three
    let (bent, comp, quads) = if c["bend"] == json!(true) {
        let seed = r.u64() >> 1;
        let (cubic, any) = bend_all(&comp, seed, false);
        (any, cubic, bend_all(&comp, seed, true).0)
    } else {
        (false, comp.clone(), comp)
    };
    for f in &frames {
        let f = *f;
        let mut frozen = quads.clone();
        let mut z = Freezer {
            r: Rng::new(r.u64()),
            q: c["share"].as_f64().unwrap(),
            frame: f,
            replaced: 0,
        };
        guard(|| {
            z.layers(&mut frozen.layers);
            if let Some(at) = local_frames(&comp, f) {
                let mut names: Vec<&String> = at.keys().collect();
                names.sort();
                for n in names {
                    if let [g] = at[n][..] {
                        z.frame = g;
                        z.layers(frozen.assets.get_mut(n).unwrap());
                    }
                }
            }
        })?;
        let n = z.replaced;
        let want = render(&comp, f, tf, alpha)?;
        let got = render(&frozen, f, tf, alpha)?;
        if bent {
            let loose = vec![crate::refm::Cut::Curved; want.len()];
            cmp::compare(&got, &want, &loose, &cmp::ALL)
        } else {
            cmp::compare(&got, &want, &[], &cmp::ALL)
        }
        .map_err(|m| format!("frame {f}: with {n} parts replaced by their values: {m}"))?;
        obs.events(&got);
        obs.count("parts replaced", n as u64);
        obs.count("calls compared", got.len() as u64);
        obs.count("renders with quadratic curves", bent as u64);
        obs.eval(
            hash_case(&t, f),
            n > 0 && got.iter().any(|e| matches!(e, Ev::Draw { .. })),
        );
    }
    Ok(())
}

// ------------------------------------------------ P34: model against document ----

/// Compares the parts of a loaded model with the document, at some frames.
struct Parts<'a> {
    cx: Ctx<'a>,
    frames: &'a [f64],
    at: Vec<String>,
    parts: u64,
    values: u64,
    undrawn: u64,
    animated: u64,
}

fn empty_group(s: &Shape) -> bool {
    matches!(s, Shape::Group(s, _) if s.iter().all(empty_group))
}

fn modelled(s: &Json) -> bool {
    let ty = s["ty"].as_str().unwrap_or("");
    s["hd"] != true
        && match ty {
            "gr" => s["it"].as_array().into_iter().flatten().any(modelled),
            _ => matches!(
                ty,
                "rc" | "el" | "sr" | "sh" | "fl" | "st" | "gf" | "gs" | "tm"
            ),
        }
}

type Check = Result<(), String>;

impl Parts<'_> {
    fn each(&mut self, what: &str, moving: bool, mut f: impl FnMut(&Ctx, When) -> Check) -> Check {
        self.parts += 1;
        self.animated += moving as u64;
        for f_ in self.frames {
            self.values += 1;
            self.cx.take_ambiguous();
            let w = When {
                f: *f_,
                exact: true,
            };
            f(&self.cx, w)
                .map_err(|e| format!("{}: {what} at frame {f_}: {e}", self.at.join(" / ")))?;
        }
        Ok(())
    }

    fn scalar(&mut self, what: &str, v: &Value<f64>, p: &Json, or: f64) -> Check {
        self.each(what, !v.is_fixed(), |cx, w| {
            let want = if p.is_null() { or } else { cx.scalar(p, w) };
            let got = v.evaluate(w.f);
            if cmp::near(got, want) {
                Ok(())
            } else {
                Err(format!("is {got}, the document says {want}"))
            }
        })
    }

    fn transform(&mut self, what: &str, t: &Transform, ks: &Json) -> Check {
        self.each(what, !t.is_fixed(), |cx, w| {
            let want = cx.transform(ks, w);
            let got = t.evaluate(w.f).into_owned().as_coeffs();
            if cmp::tf_near(&got, &want) {
                Ok(())
            } else {
                Err(format!("is {got:?}, the document says {want:?}"))
            }
        })
    }

    fn outline(
        &mut self,
        what: &str,
        g: &Geometry,
        want: impl Fn(&Ctx, When) -> Vec<PathEl>,
    ) -> Check {
        self.each(what, !matches!(g, Geometry::Fixed(_)), |cx, w| {
            let want = want(cx, w);
            if cx.take_ambiguous() {
                return Ok(());
            }
            let mut got = vec![];
            g.evaluate(w.f, &mut got);
            cmp::path_cmp(&got, &want, crate::refm::Cut::No)
        })
    }

    fn shapes(&mut self, list: &[Shape], items: &Json) -> Check {
        let got: Vec<&Shape> = list.iter().filter(|s| !empty_group(s)).collect();
        let want: Vec<&Json> = items
            .as_array()
            .into_iter()
            .flatten()
            .filter(|s| modelled(s))
            .collect();
        if got.len() != want.len() {
            return Err(format!(
                "{}: {} shapes, the document has {}",
                self.at.join(" / "),
                got.len(),
                want.len()
            ));
        }
        for (i, (g, d)) in got.iter().zip(&want).enumerate() {
            self.at
                .push(format!("item {i} ({})", d["ty"].as_str().unwrap_or("")));
            self.shape(g, d)?;
            self.at.pop();
        }
        Ok(())
    }

    fn shape(&mut self, g: &Shape, d: &Json) -> Check {
        match (g, d["ty"].as_str().unwrap_or("")) {
            (Shape::Group(list, t), "gr") => {
                let tr = d["it"]
                    .as_array()
                    .and_then(|a| a.iter().rev().find(|x| x["ty"] == "tr"));
                let none = json!({"p":{"a":0,"k":[0,0]}});
                let tr = tr.unwrap_or(&none);
                match t {
                    Some(t) => {
                        self.transform("group transform", &t.transform, tr)?;
                        self.scalar("group opacity", &t.opacity, &tr["o"], 100.0)?;
                    }
                    None => {
                        self.transform("group transform", &Transform::default(), tr)?;
                        self.scalar("group opacity", &Value::Fixed(100.0), &tr["o"], 100.0)?;
                    }
                }
                self.shapes(list, &d["it"])
            }
            (Shape::Geometry(g), "rc" | "el" | "sr" | "sh") => {
                self.outline("outline", g, |cx, w| cx.outline(d, w).unwrap())
            }
            (Shape::Draw(p), "fl" | "st" | "gf" | "gs") => {
                self.scalar("paint opacity", &p.opacity, &d["o"], 100.0)?;
                let moving =
                    !p.brush.is_fixed() || p.stroke.as_ref().is_some_and(|s| !s.is_fixed());
                self.each("paint", moving, |cx, w| {
                    let (stroke, brush, _) = cx.paint_parts(d, w).unwrap();
                    let of = |stroke, brush| Ev::Draw {
                        stroke,
                        tf: crate::refm::ID,
                        brush,
                        path: vec![],
                    };
                    let got = of(
                        p.stroke
                            .as_ref()
                            .map(|s| ev::stroke_rec(&s.evaluate(w.f).into_owned())),
                        ev::brush_rec(&p.brush.evaluate(1.0, w.f).into_owned()),
                    );
                    cmp::ev_cmp(&got, &of(stroke, brush), &cmp::ALL, crate::refm::Cut::No)
                })
            }
            (Shape::Trim(t), "tm") => self.each("trim", !t.is_fixed(), |cx, w| {
                let t = t.evaluate(w.f).into_owned();
                for (k, got) in [("s", t.start), ("e", t.end), ("o", t.offset)] {
                    let want = cx.scalar(&d[k], w);
                    if !cmp::near(got, want) {
                        return Err(format!("{k} is {got}, the document says {want}"));
                    }
                }
                Ok(())
            }),
            (g, ty) => Err(format!(
                "{}: {} where the document has {ty:?}",
                self.at.join(" / "),
                match g {
                    Shape::Group(..) => "a group",
                    Shape::Geometry(_) => "an outline",
                    Shape::Draw(_) => "a paint",
                    Shape::Trim(_) => "a trim",
                    Shape::Repeater(_) => "a repeater",
                }
            )),
        }
    }

    fn layers(&mut self, list: &[Layer], docs: &Json) -> Check {
        let docs: Vec<&Json> = docs.as_array().into_iter().flatten().collect();
        if docs.len() != list.len() {
            return Err(format!(
                "{}: {} layers, the document has {}",
                self.at.join(" / "),
                list.len(),
                docs.len()
            ));
        }
        for (i, (l, d)) in list.iter().zip(&docs).enumerate() {
            self.at.push(format!("layer {i}"));
            self.layer(l, d)?;
            self.at.pop();
        }
        Ok(())
    }

    fn layer(&mut self, l: &Layer, d: &Json) -> Check {
        let hidden = d["hd"] == true;
        self.undrawn += (hidden || !self.frames.iter().any(|f| l.frames.contains(f))) as u64;
        self.transform("transform", &l.transform, &d["ks"])?;
        self.scalar("opacity", &l.opacity, &d["ks"]["o"], 100.0)?;
        let masks: Vec<&Json> = d["masksProperties"]
            .as_array()
            .into_iter()
            .flatten()
            .filter(|m| !m["pt"].is_null())
            .collect();
        let at = self.at.join(" / ");
        if masks.len() != l.masks.len() {
            return Err(format!(
                "{at}: {} masks, the document has {}",
                l.masks.len(),
                masks.len()
            ));
        }
        for (i, (m, d)) in l.masks.iter().zip(masks).enumerate() {
            self.at.push(format!("mask {i}"));
            self.scalar("mask opacity", &m.opacity, &d["o"], 100.0)?;
            self.outline("mask outline", &m.geometry, |cx, w| {
                cx.path_property(&d["pt"], w)
            })?;
            self.at.pop();
        }
        let ty = d["ty"].as_u64();
        match &l.content {
            Content::Instance { name, time_remap } if ty == Some(0) && !hidden => {
                if d["refId"].as_str() != Some(name) {
                    return Err(format!(
                        "{at}: an instance of {name:?}, the document says {}",
                        d["refId"]
                    ));
                }
                match time_remap {
                    None if d["tm"].is_null() => Ok(()),
                    Some(v) if !d["tm"].is_null() => self.scalar("time remap", v, &d["tm"], 0.0),
                    t => Err(format!(
                        "{at}: time remap is {t:?}, the document says {}",
                        d["tm"]
                    )),
                }
            }
            Content::Shape(s) if ty == Some(4) && !hidden => self.shapes(s, &d["shapes"]),
            Content::None if hidden || !matches!(ty, Some(0 | 4)) => Ok(()),
            Content::None
                if ty == Some(4) && !d["shapes"].as_array().into_iter().flatten().any(modelled) =>
            {
                Ok(())
            }
            c => Err(format!(
                "{at}: content {} in a {}layer of kind {}",
                match c {
                    Content::None => "none",
                    Content::Instance { .. } => "an instance",
                    Content::Shape(_) => "shapes",
                },
                if hidden { "hidden " } else { "" },
                d["ty"]
            )),
        }
    }
}

fn p34_make(r: &mut Rng) -> Json {
    let mut p = Profile::full();
    p.anim = *r.pick(&[0.2, 0.5, 0.8]);
    p.mask = *r.pick(&[0.2, 0.6]);
    p.hidden = *r.pick(&[0.08, 0.25]);
    p.hidden_shape = 0.1;
    p.trim = 0.4;
    p.layers = (1, 4);
    p.shapes = (1, 4);
    let mut d = docgen::doc(r, &p);
    let mut g = docgen::Gen {
        r,
        p: &p,
        len: 60.0,
        color: 0,
        asset_ids: vec![],
        names: 0,
    };
    let mut remap = |l: &mut Json| {
        for l in l.as_array_mut().into_iter().flatten() {
            if l["ty"] == 0 && g.r.chance(0.5) {
                l["tm"] = g.scalar(-2.0, 10.0, docgen::Over::Free);
            }
        }
    };
    remap(&mut d["layers"]);
    for a in d["assets"].as_array_mut().into_iter().flatten() {
        if let Some(l) = a.get_mut("layers") {
            remap(l);
        }
    }
    let f: Vec<Json> = docgen::frames(&d, r, 5).into_iter().map(enc).collect();
    json!({"doc": d, "frames": f})
}

fn p34_check(c: &Json, obs: &mut Obs) -> Result<(), String> {
    let doc = &c["doc"];
    let t = text::plain(doc);
    let comp = load_text(&t)?;
    let frames = frames_of(c);
    let mut p = Parts {
        cx: crate::refm::ctx(doc),
        frames: &frames,
        at: vec![],
        parts: 0,
        values: 0,
        undrawn: 0,
        animated: 0,
    };
    guard(|| {
        p.layers(&comp.layers, &doc["layers"])?;
        let mut n = 0;
        for a in doc["assets"].as_array().into_iter().flatten() {
            if !a["layers"].is_array() {
                continue;
            }
            let id = a["id"].as_str().unwrap_or("");
            n += 1;
            p.at = vec![format!("asset {id:?}")];
            match comp.assets.get(id) {
                Some(l) => p.layers(l, &a["layers"])?,
                None => return Err(format!("asset {id:?} is missing")),
            }
        }
        if n != comp.assets.len() {
            return Err(format!(
                "{} assets, the document has {n}",
                comp.assets.len()
            ));
        }
        Ok(())
    })??;
    obs.count("parts compared", p.parts);
    obs.count("animated parts compared", p.animated);
    obs.count("part values compared", p.values);
    obs.count("layers not drawn at any of the frames", p.undrawn);
    obs.eval(crate::rng::hash_str(&t), p.animated > 0);
    Ok(())
}

/// Parts that are never drawn, and optional parts left out.
fn p34_fixed() -> Vec<(String, Json)> {
    let ramp = |a: f64, b: f64| kf(json!([{"t":0,"s":[a]},{"t":10,"s":[b]}]));
    let hold = |a: f64, b: f64| kf(json!([{"t":0,"s":[a],"h":1},{"t":10,"s":[b]}]));
    let square = |c| sh(json!([[0, 0], [10, 0], [10, 10]]), c)["ks"].clone();
    let mut v = vec![];
    let frames = [-3.0, 0.0, 2.5, 5.0, 10.0, 11.0, 50.0];
    for (n, o) in [
        ("no opacity", Json::Null),
        ("zero", fx(json!(0))),
        ("keyframed", ramp(100.0, 20.0)),
        ("hold", hold(30.0, 70.0)),
    ] {
        for ty in [1, 3, 4] {
            let mut l = layer(ty, 1);
            if ty == 1 {
                (l["sw"], l["sh"], l["sc"]) = (json!(9), json!(8), json!("#123456"));
            }
            if ty == 4 {
                l["shapes"] = json!([rect(0.0, 0.0, 5.0, 5.0), fill(1.0, 0.0, 0.0)]);
            }
            let mut m = json!({"mode":"a","pt":square(true)});
            if !o.is_null() {
                m["o"] = o.clone();
            }
            l["masksProperties"] = json!([{"mode":"s"}, m, {"pt":square(false),"o":fx(json!(55))}]);
            v.push(tcase(
                &format!("mask opacity: {n}, layer kind {ty}"),
                docl(json!([l])),
                &frames,
            ));
        }
    }
    for (n, tm) in [
        ("constant", fx(json!(3.5))),
        ("ramp", ramp(0.0, 4.0)),
        ("backwards", ramp(4.0, -1.0)),
        ("hold", hold(1.0, 2.0)),
        (
            "eased",
            kf(
                json!([{"t":0,"s":[0],"o":{"x":[0.3],"y":[0.1]},"i":{"x":[0.6],"y":[0.9]}},{"t":10,"s":[5]},{"t":20,"s":[5.5]}]),
            ),
        ),
    ] {
        let mut l = layer(0, 1);
        l["refId"] = json!("missing");
        l["w"] = json!(20);
        l["h"] = json!(10);
        l["tm"] = tm;
        let mut hidden = l.clone();
        hidden["ind"] = json!(2);
        hidden["hd"] = json!(true);
        v.push(tcase(
            &format!("time remap: {n}"),
            docl(json!([l, hidden])),
            &frames,
        ));
    }
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P33",
            fixed: Vec::new,
            make: p33_make,
            check: p33_check,
            quick: 8000,
            thorough: 250_000,
            rule: "generated documents (also with repeaters put into the model); at each frame a copy of the loaded model has \
all, half or a tenth of its animated parts replaced by what they evaluate to there (in assets only if all instances show \
them at one frame), sometimes with pieces of fixed outlines bent, as quadratic curves against the same ones of degree three, and is drawn; the log is compared \
with the original's. Every part that calls itself fixed, and the model form of every animated part with some of its values \
fixed, is evaluated at all frames. Distinct: by document and frame. Non-trivial: a part was replaced and something is drawn.",
            assumptions: &[
                "numbers compared with relative tolerance 2e-5, bent outlines as traced curves",
            ],
            hang: 30,
        },
        Prop {
            id: "P34",
            fixed: p34_fixed,
            make: p34_make,
            check: p34_check,
            quick: 40_000,
            thorough: 1_000_000,
            rule: "generated documents, also with time remapping, mask opacities, hidden layers, layers outside their range and assets that \
nothing shows; every layer, mask, group, outline, paint and trim of the loaded public model is evaluated at frames on, next to and \
between the keyframes and compared with what the independent interpreter computes for the corresponding part of the document. \
Distinct: by document. Non-trivial: an animated part was compared.",
            assumptions: &["numbers compared with relative tolerance 2e-5"],
            hang: 30,
        },
    ]
}
