//! Reference interpreter: computes, from the JSON document alone, the drawing
//! calls a render has to make. Written from the properties; shares no code
//! with velato (kurbo is used only for Bezier bookkeeping and for the
//! approximation of circular arcs).

use crate::ev::{BrushRec, Ev, StrokeRec};
use kurbo::{BezPath, ParamCurve, PathEl, PathSeg, Point, Shape};
use peniko::{BlendMode, Compose, Mix};
use serde_json::Value;
use std::cell::Cell;
use std::collections::HashMap;

pub type Tf = [f64; 6];

pub const ID: Tf = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];

/// a applied after b
pub fn mul(a: &Tf, b: &Tf) -> Tf {
    [
        a[0] * b[0] + a[2] * b[1],
        a[1] * b[0] + a[3] * b[1],
        a[0] * b[2] + a[2] * b[3],
        a[1] * b[2] + a[3] * b[3],
        a[0] * b[4] + a[2] * b[5] + a[4],
        a[1] * b[4] + a[3] * b[5] + a[5],
    ]
}

/// Was an outline cut by a trim, and how exactly can the cut be told.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cut {
    No,
    /// only straight lines: their lengths are exact
    Straight,
    /// the accuracy of arc lengths counts
    Curved,
}

pub struct RefOut {
    pub evs: Vec<Ev>,
    /// per event: was the path cut by a trim
    pub loose: Vec<Cut>,
    /// the frame sits on a discontinuity up to rounding: no verdict
    pub ambiguous: bool,
}

pub struct Ctx<'a> {
    doc: &'a Value,
    assets: HashMap<String, &'a Value>,
    amb: Cell<bool>,
    out: std::cell::RefCell<(Vec<Ev>, Vec<Cut>)>,
    w: f64,
    h: f64,
}

/// A point in time on some timeline, and whether its value is exact.
#[derive(Clone, Copy)]
pub struct When {
    pub f: f64,
    pub exact: bool,
}

pub fn num(v: &Value) -> Option<f64> {
    v.as_f64()
}

// ---------------------------------------------------------------- easing ----

pub fn bez1(a: f64, b: f64, u: f64) -> f64 {
    let v = 1.0 - u;
    3.0 * v * v * u * a + 3.0 * v * u * u * b + u * u * u
}

/// y of the cubic easing curve at x = t; x handles in [0,1].
pub fn ease(t: f64, o: (f64, f64), i: (f64, f64)) -> f64 {
    let (mut lo, mut hi) = (0.0f64, 1.0f64);
    for _ in 0..100 {
        let mid = 0.5 * (lo + hi);
        if bez1(o.0, i.0, mid) < t {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    let u = 0.5 * (lo + hi);
    bez1(o.1, i.1, u)
}

fn handle(v: &Value, which: usize) -> Option<(f64, f64)> {
    if v.is_null() {
        return None;
    }
    let c = |x: &Value| -> Option<f64> {
        match x {
            Value::Array(a) => a.get(which.min(a.len().saturating_sub(1)))?.as_f64(),
            _ => x.as_f64(),
        }
    };
    Some((c(&v["x"])?, c(&v["y"])?))
}

pub enum Loc {
    None,
    At(usize),
    Between(usize, f64),
}

impl<'a> Ctx<'a> {
    fn near(&self, w: When, t: f64) {
        if !w.exact && (w.f - t).abs() < 1e-7 {
            self.amb.set(true);
        }
    }

    pub fn locate(&self, ks: &[Value], w: When) -> Loc {
        if ks.is_empty() {
            return Loc::None;
        }
        let t = |i: usize| num(&ks[i]["t"]).unwrap_or(0.0);
        for i in 0..ks.len() {
            self.near(w, t(i));
        }
        let n = ks.len();
        if w.f <= t(0) {
            return Loc::At(0);
        }
        if w.f >= t(n - 1) {
            return Loc::At(n - 1);
        }
        let i = (0..n).rev().find(|&i| t(i) <= w.f).unwrap();
        if t(i) == w.f {
            return Loc::At(i);
        }
        let k = &ks[i];
        if k["h"] == 1 {
            return Loc::At(i);
        }
        let x = (w.f - t(i)) / (t(i + 1) - t(i));
        let y = match (handle(&k["o"], 0), handle(&k["i"], 0)) {
            (Some(o), Some(i)) => ease(x, o, i),
            _ => x,
        };
        Loc::Between(i, y)
    }

    fn is_keyframed(p: &Value) -> bool {
        matches!(&p["k"], Value::Array(a) if a.first().is_some_and(|x| x.is_object()))
    }

    pub fn vec(&self, p: &Value, w: When) -> Vec<f64> {
        let nums = |v: &Value| -> Vec<f64> {
            v.as_array()
                .map(|a| a.iter().filter_map(num).collect())
                .unwrap_or_default()
        };
        if Self::is_keyframed(p) {
            let ks = p["k"].as_array().unwrap();
            match self.locate(ks, w) {
                Loc::None => vec![],
                Loc::At(i) => nums(&ks[i]["s"]),
                Loc::Between(i, y) => {
                    let a = nums(&ks[i]["s"]);
                    let b = nums(&ks[i + 1]["s"]);
                    a.iter().zip(&b).map(|(a, b)| a + (b - a) * y).collect()
                }
            }
        } else if p["k"].is_array() {
            nums(&p["k"])
        } else {
            num(&p["k"]).into_iter().collect()
        }
    }

    pub fn scalar(&self, p: &Value, w: When) -> f64 {
        self.vec(p, w).first().copied().unwrap_or(0.0)
    }

    fn scalar_or(&self, p: &Value, w: When, d: f64) -> f64 {
        if p.is_null() { d } else { self.scalar(p, w) }
    }

    pub fn pair(&self, p: &Value, w: When) -> (f64, f64) {
        let v = self.vec(p, w);
        if v.len() < 2 {
            (0.0, 0.0)
        } else {
            (v[0], v[1])
        }
    }

    /// position: joined or split
    fn position(&self, p: &Value, w: When) -> (f64, f64) {
        if p.get("k").is_none() && p.get("x").is_some() {
            (self.scalar(&p["x"], w), self.scalar(&p["y"], w))
        } else {
            self.pair(p, w)
        }
    }

    // ------------------------------------------------------- transforms ----

    /// anchor to origin, scale, skew along the axis, rotate, translate
    pub fn transform(&self, ks: &Value, w: When) -> Tf {
        let (ax, ay) = if ks["a"].is_null() {
            (0.0, 0.0)
        } else {
            self.pair(&ks["a"], w)
        };
        let (px, py) = self.position(&ks["p"], w);
        let (sx, sy) = if ks["s"].is_null() {
            (100.0, 100.0)
        } else {
            self.pair(&ks["s"], w)
        };
        let r = if ks["r"].is_null() {
            0.0
        } else if ks["r"].get("k").is_none() && ks["r"].get("z").is_some() {
            self.scalar(&ks["r"]["z"], w)
        } else {
            self.scalar(&ks["r"], w)
        };
        let sk = self.scalar_or(&ks["sk"], w, 0.0);
        let sa = self.scalar_or(&ks["sa"], w, 0.0);
        let map = |x: f64, y: f64| -> (f64, f64) {
            let (x, y) = (x * sx / 100.0, y * sy / 100.0);
            let (x, y) = if sk != 0.0 {
                let (s, c) = (sa * std::f64::consts::PI / 180.0).sin_cos();
                // into the axis' frame, shear, and back
                let (u, v) = (x * c - y * s, x * s + y * c);
                let u = u + v * (sk * std::f64::consts::PI / 180.0).tan();
                (u * c + v * s, -u * s + v * c)
            } else {
                (x, y)
            };
            let (s, c) = (r * std::f64::consts::PI / 180.0).sin_cos();
            (x * c - y * s, x * s + y * c)
        };
        let (a, b) = map(1.0, 0.0);
        let (c, d) = map(0.0, 1.0);
        let (ox, oy) = map(ax, ay);
        [a, b, c, d, px - ox, py - oy]
    }

    // --------------------------------------------------------- geometry ----

    fn bezier_els(
        v: &[(f64, f64)],
        i: &[(f64, f64)],
        o: &[(f64, f64)],
        closed: bool,
    ) -> Vec<PathEl> {
        let n = v.len();
        let mut els = vec![];
        if n == 0 {
            return els;
        }
        let p = |k: usize| Point::new(v[k].0, v[k].1);
        els.push(PathEl::MoveTo(p(0)));
        let mut edge = |a: usize, b: usize| {
            let c0 = Point::new(v[a].0 + o[a].0, v[a].1 + o[a].1);
            let c1 = Point::new(v[b].0 + i[b].0, v[b].1 + i[b].1);
            if c0 == p(a) && c1 == p(b) {
                els.push(PathEl::LineTo(p(b)));
            } else {
                els.push(PathEl::CurveTo(c0, c1, p(b)));
            }
        };
        for k in 1..n {
            edge(k - 1, k);
        }
        if closed {
            edge(n - 1, 0);
            els.push(PathEl::ClosePath);
        }
        els
    }

    #[allow(clippy::type_complexity)]
    fn bezier(b: &Value) -> (Vec<(f64, f64)>, Vec<(f64, f64)>, Vec<(f64, f64)>, bool) {
        let pts = |k: &str| -> Vec<(f64, f64)> {
            b[k].as_array()
                .into_iter()
                .flatten()
                .map(|p| (num(&p[0]).unwrap_or(0.0), num(&p[1]).unwrap_or(0.0)))
                .collect()
        };
        let v = pts("v");
        let mut i = pts("i");
        let mut o = pts("o");
        i.resize(v.len(), (0.0, 0.0));
        o.resize(v.len(), (0.0, 0.0));
        (v, i, o, b["c"].as_bool().unwrap_or(false))
    }

    pub fn path_property(&self, p: &Value, w: When) -> Vec<PathEl> {
        if !Self::is_keyframed(p) {
            let (v, i, o, c) = Self::bezier(&p["k"]);
            return Self::bezier_els(&v, &i, &o, c);
        }
        let ks = p["k"].as_array().unwrap();
        // a last keyframe that gives only a time repeats the previous end or start
        let start = |i: usize| -> &Value {
            let s = &ks[i]["s"][0];
            if !s.is_null() {
                return s;
            }
            let e = &ks[i - 1]["e"][0];
            if e.is_null() { &ks[i - 1]["s"][0] } else { e }
        };
        match self.locate(ks, w) {
            Loc::None => vec![],
            Loc::At(i) => {
                let (v, ii, o, c) = Self::bezier(start(i));
                Self::bezier_els(&v, &ii, &o, c)
            }
            Loc::Between(i, y) => {
                let e = &ks[i]["e"][0];
                let to = if e.is_null() { start(i + 1) } else { e };
                let a = Self::bezier(start(i));
                let b = Self::bezier(to);
                let mix = |a: &[(f64, f64)], b: &[(f64, f64)]| -> Vec<(f64, f64)> {
                    a.iter()
                        .zip(b)
                        .map(|(p, q)| (p.0 + (q.0 - p.0) * y, p.1 + (q.1 - p.1) * y))
                        .collect()
                };
                Self::bezier_els(
                    &mix(&a.0, &b.0),
                    &mix(&a.1, &b.1),
                    &mix(&a.2, &b.2),
                    a.3 || b.3,
                )
            }
        }
    }

    fn star(&self, s: &Value, w: When) -> Vec<PathEl> {
        let polygon = s["sy"] == 2;
        let (cx, cy) = self.pair(&s["p"], w);
        let pt = self.scalar(&s["pt"], w);
        if (pt.fract().abs() - 0.5).abs() < 1e-5 {
            self.amb.set(true);
        }
        let n = pt.round().max(0.0) as usize;
        if n == 0 {
            return vec![];
        }
        let rot = self.scalar(&s["r"], w);
        let or = self.scalar(&s["or"], w);
        let os = self.scalar(&s["os"], w) / 100.0;
        let ir = self.scalar_or(&s["ir"], w, 0.0);
        let is = self.scalar_or(&s["is"], w, 0.0) / 100.0;
        let total = if polygon { n } else { 2 * n };
        let step = 360.0 / total as f64;
        let mut v = vec![];
        let mut hi = vec![];
        let mut ho = vec![];
        for k in 0..total {
            let (r, q) = if polygon || k % 2 == 0 {
                (or, os)
            } else {
                (ir, is)
            };
            // straight up, clockwise in a y-down plane
            let ang = (rot + step * k as f64 - 90.0).to_radians();
            let (s, c) = ang.sin_cos();
            v.push((cx + r * c, cy + r * s));
            let angle = if total < 3 { 45.0 } else { step / 2.0 };
            let len = r * f64::to_radians(angle).tan() * q * 4.0 / 3.0;
            let len = if q.abs() <= 1e-6 { 0.0 } else { len };
            ho.push((-s * len, c * len));
            hi.push((s * len, -c * len));
        }
        Self::bezier_els(&v, &hi, &ho, true)
    }

    /// The outline of a shape, if it is one.
    pub fn outline(&self, s: &Value, w: When) -> Option<Vec<PathEl>> {
        Some(match s["ty"].as_str()? {
            "rc" => {
                let (px, py) = self.pair(&s["p"], w);
                let (sx, sy) = self.pair(&s["s"], w);
                let r = self.scalar(&s["r"], w);
                kurbo::RoundedRect::new(
                    px - sx / 2.0,
                    py - sy / 2.0,
                    px + sx / 2.0,
                    py + sy / 2.0,
                    r,
                )
                .path_elements(0.1)
                .collect()
            }
            "el" => {
                let (px, py) = self.pair(&s["p"], w);
                let (sx, sy) = self.pair(&s["s"], w);
                // the outline starts on the longer axis: up to rounding, a circle starts anywhere
                let (ax, ay) = (sx.abs(), sy.abs());
                if s["s"]["k"][0].is_object() && (ax - ay).abs() <= 1e-9 * ax.max(ay) {
                    self.amb.set(true);
                }
                kurbo::Ellipse::new((px, py), (sx / 2.0, sy / 2.0), 0.0)
                    .path_elements(0.1)
                    .collect()
            }
            "sr" => self.star(s, w),
            "sh" => self.path_property(&s["ks"], w),
            _ => return None,
        })
    }

    // ------------------------------------------------------------- trim ----

    /// Kept ranges, as fractions of the length. None: everything.
    fn trim_ranges(&self, t: &Value, w: When) -> Option<Vec<(f64, f64)>> {
        let s = self.scalar(&t["s"], w);
        let e = self.scalar(&t["e"], w);
        let o = self.scalar(&t["o"], w);
        let (s, e) = (s.min(e), s.max(e));
        let range = e - s;
        if range <= 0.0 {
            return Some(vec![]);
        }
        if range < 1e-6 || (range > 100.0 - 1e-6 && range < 100.0) {
            self.amb.set(true);
        }
        if range >= 100.0 {
            return None;
        }
        let mut a = (s + o / 3.6) / 100.0;
        a -= a.floor();
        let b = a + range / 100.0;
        if b <= 1.0 {
            Some(vec![(a, b)])
        } else {
            Some(vec![(a, 1.0), (0.0, b - 1.0)])
        }
    }

    // ------------------------------------------------------------ paint ----

    fn solid(&self, p: &Value, w: When) -> [f32; 4] {
        let c = self.vec(p, w);
        if c.len() < 3 {
            return [0.0, 0.0, 0.0, 1.0];
        }
        [c[0] as f32, c[1] as f32, c[2] as f32, 1.0]
    }

    fn stops(&self, g: &Value, w: When) -> Vec<(f64, [f64; 4])> {
        let n = g["p"].as_u64().unwrap_or(0) as usize;
        let of = |raw: &[f64]| -> Vec<[f64; 5]> {
            let alpha: Vec<(f64, f64)> = raw[(4 * n).min(raw.len())..]
                .chunks_exact(2)
                .map(|c| (c[0], c[1]))
                .collect();
            raw.chunks_exact(4)
                .take(n)
                .map(|c| {
                    let a = match alpha[..] {
                        [(x0, a0), (x1, a1), ..] => a0 + (a1 - a0) * (c[0] - x0) / (x1 - x0),
                        _ => 1.0,
                    };
                    [c[0], c[1], c[2], c[3], a]
                })
                .collect()
        };
        let nums = |v: &Value| -> Vec<f64> {
            v.as_array().into_iter().flatten().filter_map(num).collect()
        };
        let k = &g["k"];
        let list = if Self::is_keyframed(k) {
            let ks = k["k"].as_array().unwrap();
            match self.locate(ks, w) {
                Loc::None => vec![],
                Loc::At(i) => of(&nums(&ks[i]["s"])),
                Loc::Between(i, y) => {
                    let a = of(&nums(&ks[i]["s"]));
                    let b = of(&nums(&ks[i + 1]["s"]));
                    a.iter()
                        .zip(&b)
                        .map(|(a, b)| std::array::from_fn(|j| a[j] + (b[j] - a[j]) * y))
                        .collect()
                }
            }
        } else {
            of(&nums(&k["k"]))
        };
        list.into_iter()
            .map(|s| (s[0], [s[1], s[2], s[3], s[4]]))
            .collect()
    }

    fn paint(&self, s: &Value, w: When) -> Option<Paint> {
        let ty = s["ty"].as_str()?;
        let stroke = match ty {
            "st" | "gs" => Some(StrokeRec {
                width: self.scalar(&s["w"], w),
                join: match s["lj"].as_u64() {
                    Some(1) => Some(kurbo::Join::Miter),
                    Some(2) => Some(kurbo::Join::Round),
                    Some(3) => Some(kurbo::Join::Bevel),
                    _ => None,
                },
                cap: match s["lc"].as_u64() {
                    Some(1) => Some(kurbo::Cap::Butt),
                    Some(2) => Some(kurbo::Cap::Round),
                    Some(3) => Some(kurbo::Cap::Square),
                    _ => None,
                },
                end_cap: None,
                miter: num(&s["ml"]),
                dashes: 0,
            }),
            "fl" | "gf" => None,
            _ => return None,
        };
        let brush = match ty {
            "fl" | "st" => PaintBrush::Solid(self.solid(&s["c"], w)),
            _ => PaintBrush::Gradient {
                radial: s["t"] == 2,
                start: self.pair(&s["s"], w),
                end: self.pair(&s["e"], w),
                stops: self.stops(&s["g"], w),
            },
        };
        Some(Paint {
            stroke,
            brush,
            alpha: self.scalar(&s["o"], w) / 100.0,
        })
    }

    /// A paint by itself: stroke style, brush and opacity percentage.
    #[allow(dead_code)]
    pub fn paint_parts(&self, s: &Value, w: When) -> Option<(Option<StrokeRec>, BrushRec, f64)> {
        let p = self.paint(s, w)?;
        Some((p.stroke, p.brush.rec(1.0), p.alpha * 100.0))
    }

    /// Whether something asked for so far sat on a discontinuity up to rounding; starts afresh.
    #[allow(dead_code)]
    pub fn take_ambiguous(&self) -> bool {
        self.amb.take()
    }

    // ------------------------------------------------------------ shapes ----

    fn run(&self, shapes: &Value, tf: &Tf, alpha: f64, w: When, st: &mut Canvas) -> Scope {
        let mut scope = Scope::default();
        for s in shapes.as_array().into_iter().flatten() {
            if s["hd"] == true {
                continue;
            }
            let ty = s["ty"].as_str().unwrap_or("");
            if let Some(els) = self.outline(s, w) {
                let joinable = scope
                    .outlines
                    .last()
                    .filter(|&&i| !st.outlines[i].sealed && same(&st.outlines[i].tf, tf));
                let flat = (tf[0] * tf[3] - tf[1] * tf[2]).abs() < 1e-12;
                if joinable.is_some_and(|&i| st.outlines[i].tf != *tf)
                    || joinable.is_some() && flat && scope.outlines.len() == scope.inner
                {
                    // equal but for rounding, or made equal by a scale of zero above the group
                    // the last one is in: joined or not, both are right
                    self.amb.set(true);
                }
                match joinable {
                    Some(&i) => st.outlines[i].els.extend(els),
                    None => {
                        st.outlines.push(Outline {
                            els,
                            tf: *tf,
                            sealed: false,
                            loose: Cut::No,
                        });
                        scope.outlines.push(st.outlines.len() - 1);
                    }
                }
            } else if let Some(mut p) = self.paint(s, w) {
                p.alpha *= alpha;
                for o in &mut st.outlines {
                    o.sealed = true;
                }
                st.paints.push(p);
                scope
                    .covers
                    .push((st.paints.len() - 1, scope.outlines.clone()));
            } else if ty == "gr" {
                let tr = s["it"]
                    .as_array()
                    .and_then(|a| a.iter().rev().find(|x| x["ty"] == "tr"));
                let (t, a) = match tr {
                    Some(tr) => (
                        mul(tf, &self.transform(tr, w)),
                        self.scalar_or(&tr["o"], w, 100.0) / 100.0,
                    ),
                    None => (*tf, 1.0),
                };
                let inner = self.run(&s["it"], &t, alpha * a, w, st);
                scope.outlines.extend(inner.outlines);
                scope.inner = scope.outlines.len();
                scope.covers.extend(inner.covers);
            } else if ty == "tm" {
                match self.trim_ranges(s, w) {
                    None => {}
                    Some(ranges) => {
                        for &i in &scope.outlines {
                            let o = &mut st.outlines[i];
                            let kept = cut(&o.els, &ranges);
                            // shorter than the accuracy of arc lengths: no verdict
                            let mut limit = 1.0;
                            if o.loose != Cut::Curved && !crate::cmp::has_curve(&o.els) {
                                limit = 1e-4 * (1.0 + crate::cmp::mag(&o.els));
                                o.loose = Cut::Straight;
                            } else {
                                o.loose = Cut::Curved;
                            }
                            let tiny = |e: &[PathEl]| (1e-12..limit).contains(&total_length(e));
                            if !ranges.is_empty() && (tiny(&o.els) || tiny(&kept)) {
                                self.amb.set(true);
                            }
                            o.els = kept;
                        }
                    }
                }
            } else if ty == "__repeater" {
                self.repeat(s, w, st, &mut scope);
            }
        }
        scope
    }

    fn repeat(&self, s: &Value, w: When, st: &mut Canvas, scope: &mut Scope) {
        let c = self.scalar(&s["c"], w);
        if (c.fract().abs() - 0.5).abs() < 1e-5 {
            self.amb.set(true);
        }
        let copies = c.round().max(0.0) as usize;
        let off = self.scalar(&s["o"], w);
        let (ax, ay) = self.pair(&s["a"], w);
        let (px, py) = self.pair(&s["p"], w);
        let rot = self.scalar(&s["r"], w);
        let (sx, sy) = self.pair(&s["s"], w);
        let so = self.scalar(&s["so"], w) / 100.0;
        let eo = self.scalar(&s["eo"], w) / 100.0;
        let old = std::mem::take(scope);
        for o in &mut st.outlines {
            o.sealed = true;
        }
        for i in 0..copies {
            let t = off + i as f64;
            let (sn, cs) = (rot * t).to_radians().sin_cos();
            let (kx, ky) = ((sx / 100.0).powf(t), (sy / 100.0).powf(t));
            let lin = [cs * kx, sn * kx, -sn * ky, cs * ky];
            let r = [
                lin[0],
                lin[1],
                lin[2],
                lin[3],
                ax + t * px - (lin[0] * ax + lin[2] * ay),
                ay + t * py - (lin[1] * ax + lin[3] * ay),
            ];
            let mut map = HashMap::new();
            for &o in &old.outlines {
                let n = Outline {
                    els: st.outlines[o].els.clone(),
                    tf: mul(&st.outlines[o].tf, &r),
                    sealed: true,
                    loose: st.outlines[o].loose,
                };
                st.outlines.push(n);
                map.insert(o, st.outlines.len() - 1);
                scope.outlines.push(st.outlines.len() - 1);
            }
            for (p, list) in &old.covers {
                let mut paint = st.paints[*p].clone();
                let a = if copies > 1 {
                    so + (eo - so) * i as f64 / copies as f64
                } else {
                    so
                };
                paint.alpha *= a;
                st.paints.push(paint);
                scope.covers.push((
                    st.paints.len() - 1,
                    list.iter().filter_map(|o| map.get(o).copied()).collect(),
                ));
            }
        }
    }

    fn emit(&self, e: Ev, loose: Cut) {
        let mut o = self.out.borrow_mut();
        o.0.push(e);
        o.1.push(loose);
    }

    fn shape_layer(&self, shapes: &Value, tf: &Tf, alpha: f64, w: When) {
        let mut st = Canvas::default();
        let scope = self.run(shapes, tf, alpha, w, &mut st);
        for (p, list) in scope.covers.iter().rev() {
            let p = &st.paints[*p];
            for &i in list {
                let o = &st.outlines[i];
                self.emit(
                    Ev::Draw {
                        stroke: p.stroke.clone(),
                        tf: o.tf,
                        brush: p.brush.rec(p.alpha),
                        path: o.els.clone(),
                    },
                    o.loose,
                );
            }
        }
    }

    // ------------------------------------------------------------ layers ----

    fn by_index(list: &[Value], ind: f64) -> Option<usize> {
        (0..list.len())
            .rev()
            .find(|&i| list[i]["ind"].as_f64() == Some(ind))
    }

    fn hidden(l: &Value) -> bool {
        l["hd"] == true
    }

    fn is_source(l: &Value) -> bool {
        l["td"] == 1 && !Self::hidden(l)
    }

    fn matte_of(list: &[Value], i: usize) -> Option<(Compose, usize)> {
        let mode = match list[i]["tt"].as_u64()? {
            1 | 3 => Compose::SrcIn,
            2 | 4 => Compose::SrcOut,
            _ => return None,
        };
        if let Some(tp) = list[i]["tp"].as_f64() {
            return Self::by_index(list, tp).map(|j| (mode, j));
        }
        for j in (0..i).rev() {
            if Self::is_source(&list[j]) {
                return Some((mode, j));
            }
            if !list[j]["tt"].is_null() {
                return None;
            }
        }
        None
    }

    fn layer_transform(&self, list: &[Value], i: usize, w: When) -> Tf {
        let mut t = self.transform(&list[i]["ks"], w);
        let mut cur = i;
        let mut guard = 0;
        while let Some(p) = list[cur]["parent"]
            .as_f64()
            .and_then(|p| Self::by_index(list, p))
        {
            t = mul(&self.transform(&list[p]["ks"], w), &t);
            cur = p;
            guard += 1;
            if guard > list.len() {
                break;
            }
        }
        t
    }

    fn frame_rect(&self) -> Vec<PathEl> {
        vec![
            PathEl::MoveTo(Point::new(0.0, 0.0)),
            PathEl::LineTo(Point::new(self.w, 0.0)),
            PathEl::LineTo(Point::new(self.w, self.h)),
            PathEl::LineTo(Point::new(0.0, self.h)),
            PathEl::ClosePath,
        ]
    }

    fn list(&self, list: &[Value], tf: &Tf, alpha: f64, w: When) {
        for i in (0..list.len()).rev() {
            if !Self::is_source(&list[i]) {
                self.layer(list, i, tf, alpha, w);
            }
        }
    }

    fn layer(&self, list: &[Value], i: usize, base: &Tf, alpha: f64, w: When) {
        let l = &list[i];
        let ip = num(&l["ip"]).unwrap_or(0.0);
        let op = num(&l["op"]).unwrap_or(0.0);
        self.near(w, ip);
        self.near(w, op);
        if !(w.f >= ip && w.f < op) {
            return;
        }
        self.emit(
            Ev::Begin {
                name: l["nm"].as_str().unwrap_or("").to_string(),
                index: i,
            },
            Cut::No,
        );
        let mut pops = 0;
        if let Some((mode, m)) = Self::matte_of(list, i) {
            let push = |blend: BlendMode| {
                self.emit(
                    Ev::PushLayer {
                        blend,
                        alpha: 1.0,
                        tf: *base,
                        path: self.frame_rect(),
                    },
                    Cut::No,
                );
            };
            push(Mix::Normal.into());
            self.layer(list, m, base, alpha, w);
            push(mode.into());
            pops += 2;
        }
        let tf = mul(base, &self.layer_transform(list, i, w));
        let alpha = alpha * self.scalar_or(&l["ks"]["o"], w, 100.0) / 100.0;
        for m in l["masksProperties"].as_array().into_iter().flatten() {
            if m["pt"].is_null() {
                continue;
            }
            let path = self.path_property(&m["pt"], w);
            self.emit(Ev::PushClip { tf, path }, Cut::No);
            pops += 1;
        }
        if !Self::hidden(l) {
            match l["ty"].as_u64() {
                Some(0) => {
                    if let Some(asset) = l["refId"].as_str().and_then(|id| self.assets.get(id)) {
                        let st = num(&l["st"]).unwrap_or(0.0);
                        let sr = num(&l["sr"]).unwrap_or(1.0);
                        let f = (w.f - st) / sr;
                        let g = w.f / sr - st / sr;
                        let inner = When {
                            f,
                            exact: w.exact && f == g,
                        };
                        self.list(
                            asset["layers"].as_array().map(|v| &v[..]).unwrap_or(&[]),
                            &tf,
                            alpha,
                            inner,
                        );
                    }
                }
                Some(4) => self.shape_layer(&l["shapes"], &tf, alpha, w),
                _ => {}
            }
        }
        for _ in 0..pops {
            self.emit(Ev::Pop, Cut::No);
        }
        self.emit(Ev::End, Cut::No);
    }
}

fn same(a: &Tf, b: &Tf) -> bool {
    a.iter()
        .zip(b)
        .all(|(x, y)| (x - y).abs() <= 1e-9 * (1.0 + x.abs()))
}

#[derive(Clone, Debug)]
enum PaintBrush {
    Solid([f32; 4]),
    Gradient {
        radial: bool,
        start: (f64, f64),
        end: (f64, f64),
        stops: Vec<(f64, [f64; 4])>,
    },
}

impl PaintBrush {
    fn rec(&self, alpha: f64) -> BrushRec {
        match self {
            PaintBrush::Solid([r, g, b, a]) => {
                BrushRec::Solid([*r, *g, *b, (*a as f64 * alpha) as f32])
            }
            PaintBrush::Gradient {
                radial,
                start,
                end,
                stops,
            } => {
                let stops = stops
                    .iter()
                    .map(|(o, c)| {
                        (
                            *o as f32,
                            [c[0] as f32, c[1] as f32, c[2] as f32, (c[3] * alpha) as f32],
                        )
                    })
                    .collect();
                if *radial {
                    BrushRec::Radial {
                        center: *start,
                        radius: ((end.0 - start.0).powi(2) + (end.1 - start.1).powi(2)).sqrt()
                            as f32,
                        stops,
                        extra: String::new(),
                    }
                } else {
                    BrushRec::Linear {
                        start: *start,
                        end: *end,
                        stops,
                        extra: String::new(),
                    }
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
struct Paint {
    stroke: Option<StrokeRec>,
    brush: PaintBrush,
    alpha: f64,
}

#[derive(Clone, Debug)]
struct Outline {
    els: Vec<PathEl>,
    tf: Tf,
    /// no later shape may join it
    sealed: bool,
    loose: Cut,
}

#[derive(Default)]
struct Canvas {
    outlines: Vec<Outline>,
    paints: Vec<Paint>,
}

#[derive(Default)]
struct Scope {
    outlines: Vec<usize>,
    covers: Vec<(usize, Vec<usize>)>,
    /// how many of the outlines there were after the last group
    inner: usize,
}

// ------------------------------------------------------------ arc length ----

const STEPS: usize = 256;

pub fn lengths(s: &PathSeg) -> Vec<f64> {
    let mut v = Vec::with_capacity(STEPS + 1);
    v.push(0.0);
    if let PathSeg::Line(l) = s {
        let d = (l.p1 - l.p0).hypot();
        for i in 1..=STEPS {
            v.push(d * i as f64 / STEPS as f64);
        }
        return v;
    }
    let mut p = s.start();
    let mut acc = 0.0;
    for i in 1..=STEPS {
        let q = s.eval(i as f64 / STEPS as f64);
        acc += (q - p).hypot();
        v.push(acc);
        p = q;
    }
    v
}

pub fn param_at(table: &[f64], len: f64) -> f64 {
    let n = table.len() - 1;
    if len <= 0.0 {
        return 0.0;
    }
    if len >= table[n] {
        return 1.0;
    }
    let i = table.partition_point(|&x| x <= len).clamp(1, n);
    let (a, b) = (table[i - 1], table[i]);
    let fr = if b > a { (len - a) / (b - a) } else { 0.0 };
    (i as f64 - 1.0 + fr) / n as f64
}

pub fn segments(els: &[PathEl]) -> Vec<PathSeg> {
    if els.is_empty() {
        return vec![];
    }
    let mut b = BezPath::new();
    for e in els {
        b.push(*e);
    }
    b.segments().collect()
}

pub fn total_length(els: &[PathEl]) -> f64 {
    segments(els).iter().map(|s| lengths(s)[STEPS]).sum()
}

/// The parts of an outline between the given fractions of its length.
pub fn cut(els: &[PathEl], ranges: &[(f64, f64)]) -> Vec<PathEl> {
    // with the number of the contour each segment belongs to
    let starts: Vec<usize> = (0..els.len())
        .filter(|i| matches!(els[*i], PathEl::MoveTo(_)))
        .chain([els.len()])
        .collect();
    let segs: Vec<(usize, PathSeg)> = starts
        .windows(2)
        .flat_map(|w| segments(&els[w[0]..w[1]]).into_iter().map(|s| (w[0], s)))
        .collect();
    let tables: Vec<Vec<f64>> = segs.iter().map(|(_, s)| lengths(s)).collect();
    let total: f64 = tables.iter().map(|t| t[STEPS]).sum();
    let mut out: Vec<PathEl> = vec![];
    if total <= 0.0 {
        return out;
    }
    for &(a, b) in ranges {
        let (a, b) = (a * total, b * total);
        let mut at = 0.0;
        let mut pen: Option<Point> = None;
        let mut prev: Option<usize> = None;
        for ((contour, s), t) in segs.iter().zip(&tables) {
            let len = t[STEPS];
            if prev != Some(*contour) {
                pen = None;
            }
            let (lo, hi) = (a.max(at) - at, b.min(at + len) - at);
            if hi > lo {
                let (t0, t1) = (param_at(t, lo), param_at(t, hi));
                let sub = s.subsegment(t0..t1);
                if pen.is_none() {
                    out.push(PathEl::MoveTo(sub.start()));
                }
                match sub {
                    PathSeg::Line(l) => out.push(PathEl::LineTo(l.p1)),
                    PathSeg::Quad(q) => out.push(PathEl::QuadTo(q.p1, q.p2)),
                    PathSeg::Cubic(c) => out.push(PathEl::CurveTo(c.p1, c.p2, c.p3)),
                }
                pen = Some(sub.end());
            }
            prev = Some(*contour);
            at += len;
        }
    }
    out
}

// ----------------------------------------------------------------- entry ----

pub fn ctx(doc: &Value) -> Ctx<'_> {
    let mut assets = HashMap::new();
    for a in doc["assets"].as_array().into_iter().flatten() {
        if a["layers"].is_array()
            && let Some(id) = a["id"].as_str()
        {
            assets.insert(id.to_string(), a);
        }
    }
    Ctx {
        doc,
        assets,
        amb: Cell::new(false),
        out: Default::default(),
        w: num(&doc["w"]).unwrap_or(0.0),
        h: num(&doc["h"]).unwrap_or(0.0),
    }
}

pub fn render(doc: &Value, frame: f64, tf: Tf, alpha: f64) -> RefOut {
    let c = ctx(doc);
    c.emit(
        Ev::PushClip {
            tf,
            path: c.frame_rect(),
        },
        Cut::No,
    );
    let w = When {
        f: frame,
        exact: true,
    };
    c.list(
        c.doc["layers"].as_array().map(|v| &v[..]).unwrap_or(&[]),
        &tf,
        alpha,
        w,
    );
    c.emit(Ev::Pop, Cut::No);
    let amb = c.amb.get();
    let (evs, loose) = c.out.into_inner();
    RefOut {
        evs,
        loose,
        ambiguous: amb,
    }
}
