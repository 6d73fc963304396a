//! Comparison of event logs, field by field, with tolerances.

use crate::ev::{BrushRec, Ev};
use crate::refm::{Cut, lengths, param_at, segments};
use kurbo::{ParamCurve, PathEl, Point};

#[derive(Clone, Copy, Debug)]
pub struct Mask {
    pub groups: bool,
    pub index: bool,
    pub layers: bool,
    pub draws: bool,
    pub tf: bool,
    /// transforms of clips/layers
    pub layer_tf: bool,
    pub clip_path: bool,
    pub path: bool,
    pub color: bool,
    pub alpha: bool,
    pub stroke: bool,
    pub gradient: bool,
    pub drop_transparent: bool,
}

pub const ALL: Mask = Mask {
    groups: true,
    index: true,
    layers: true,
    draws: true,
    tf: true,
    layer_tf: true,
    clip_path: true,
    path: true,
    color: true,
    alpha: true,
    stroke: true,
    gradient: true,
    drop_transparent: false,
};

/// Draws only, none of their fields.
pub const NONE: Mask = Mask {
    groups: false,
    index: false,
    layers: false,
    draws: true,
    tf: false,
    layer_tf: false,
    clip_path: false,
    path: false,
    color: false,
    alpha: false,
    stroke: false,
    gradient: false,
    drop_transparent: false,
};

pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 2e-5 * (1.0 + a.abs().max(b.abs()))
}

pub fn near_mag(a: f64, b: f64, mag: f64) -> bool {
    (a - b).abs() <= 2e-5 * (1.0 + mag)
}

fn near_c(a: f32, b: f32) -> bool {
    (a - b).abs() <= 6e-5 * (1.0 + a.abs().max(b.abs()))
}

pub fn tf_near(a: &[f64; 6], b: &[f64; 6]) -> bool {
    let lin = a[..4]
        .iter()
        .chain(&b[..4])
        .fold(0.0f64, |m, x| m.max(x.abs()));
    let tr = a[4..]
        .iter()
        .chain(&b[4..])
        .fold(0.0f64, |m, x| m.max(x.abs()));
    (0..4).all(|i| near_mag(a[i], b[i], lin))
        && (4..6).all(|i| near_mag(a[i], b[i], tr + lin * 100.0))
}

fn points(e: &PathEl) -> ([Point; 3], usize) {
    let z = Point::ZERO;
    match *e {
        PathEl::MoveTo(p) | PathEl::LineTo(p) => ([p, z, z], 1),
        PathEl::QuadTo(a, b) => ([a, b, z], 2),
        PathEl::CurveTo(a, b, c) => ([a, b, c], 3),
        PathEl::ClosePath => ([z, z, z], 0),
    }
}

pub fn mag(p: &[PathEl]) -> f64 {
    let mut m = 0.0f64;
    for e in p {
        let (q, n) = points(e);
        for p in &q[..n] {
            m = m.max(p.x.abs()).max(p.y.abs());
        }
    }
    m
}

pub fn exact_near(a: &[PathEl], b: &[PathEl]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let m = mag(a).max(mag(b));
    a.iter().zip(b).all(|(x, y)| {
        if std::mem::discriminant(x) != std::mem::discriminant(y) {
            return false;
        }
        let (p, n) = points(x);
        let (q, _) = points(y);
        (0..n).all(|i| near_mag(p[i].x, q[i].x, m) && near_mag(p[i].y, q[i].y, m))
    })
}

/// A traced piece of an outline: its length and equally spaced points.
pub struct Piece {
    pub len: f64,
    pub pts: Vec<Point>,
}

const SAMPLES: usize = 48;

pub fn pieces(p: &[PathEl]) -> Vec<Piece> {
    let segs = segments(p);
    let mut out = vec![];
    let mut cur: Vec<kurbo::PathSeg> = vec![];
    let mut flush = |cur: &mut Vec<kurbo::PathSeg>| {
        if cur.is_empty() {
            return;
        }
        let tables: Vec<Vec<f64>> = cur.iter().map(lengths).collect();
        let len: f64 = tables.iter().map(|t| *t.last().unwrap()).sum();
        let mut pts = Vec::with_capacity(SAMPLES + 1);
        let (mut k, mut at) = (0, 0.0);
        for i in 0..=SAMPLES {
            let want = len * i as f64 / SAMPLES as f64;
            while k + 1 < cur.len() && at + tables[k].last().unwrap() < want {
                at += tables[k].last().unwrap();
                k += 1;
            }
            pts.push(cur[k].eval(param_at(&tables[k], want - at)));
        }
        out.push(Piece { len, pts });
        cur.clear();
    };
    for s in segs {
        if *lengths(&s).last().unwrap() <= 1e-9 {
            continue; // a point; not to separate what is otherwise joined
        }
        if let Some(l) = cur.last()
            && (l.end() - s.start()).hypot() > 1e-9
        {
            flush(&mut cur);
        }
        cur.push(s);
    }
    flush(&mut cur);
    out
}

fn piece_gap(a: &Piece, b: &Piece) -> f64 {
    a.pts
        .iter()
        .zip(&b.pts)
        .map(|(p, q)| (*p - *q).hypot())
        .fold(0.0, f64::max)
}

/// Compare as traced pieces, in order; tiny pieces may be absent on one side.
pub fn traced(a: &[PathEl], b: &[PathEl], tol: f64, tiny: f64) -> Result<(), String> {
    let (pa, pb) = (pieces(a), pieces(b));
    let (mut i, mut j) = (0, 0);
    while i < pa.len() || j < pb.len() {
        if i < pa.len() && j < pb.len() && piece_gap(&pa[i], &pb[j]) <= tol {
            i += 1;
            j += 1;
        } else if i < pa.len() && pa[i].len <= tiny {
            i += 1;
        } else if j < pb.len() && pb[j].len <= tiny {
            j += 1;
        } else {
            return Err(format!(
                "outline piece {i}/{} vs {j}/{}: {}",
                pa.len(),
                pb.len(),
                match (pa.get(i), pb.get(j)) {
                    (Some(x), Some(y)) => format!(
                        "lengths {:.4} and {:.4}, furthest points {:.4} apart (tolerance {tol})",
                        x.len,
                        y.len,
                        piece_gap(x, y)
                    ),
                    (Some(x), None) => format!("extra piece of length {:.4}", x.len),
                    (None, Some(y)) => format!("missing piece of length {:.4}", y.len),
                    _ => String::new(),
                }
            ));
        }
    }
    Ok(())
}

/// How often the outline is interrupted at a point where it then goes on (between parts longer than `tiny`).
fn interruptions(p: &[PathEl], tiny: f64, tol: f64) -> usize {
    let contours: Vec<(Point, Point, f64)> = p
        .contours()
        .into_iter()
        .filter_map(|c| {
            let s = segments(c);
            let len: f64 = s.iter().map(|s| *lengths(s).last().unwrap()).sum();
            Some((s.first()?.start(), s.last()?.end(), len))
        })
        .collect();
    contours
        .windows(2)
        .filter(|w| (w[0].1 - w[1].0).hypot() <= tol && w[0].2 > tiny && w[1].2 > tiny)
        .count()
}

trait Contours {
    fn contours(&self) -> Vec<&[PathEl]>;
}

impl Contours for [PathEl] {
    fn contours(&self) -> Vec<&[PathEl]> {
        let at: Vec<usize> = (0..self.len())
            .filter(|i| matches!(self[*i], PathEl::MoveTo(_)))
            .chain([self.len()])
            .collect();
        at.windows(2).map(|w| &self[w[0]..w[1]]).collect()
    }
}

pub fn has_curve(a: &[PathEl]) -> bool {
    a.iter()
        .any(|e| matches!(e, PathEl::QuadTo(..) | PathEl::CurveTo(..)))
}

pub fn path_cmp(a: &[PathEl], b: &[PathEl], loose: Cut) -> Result<(), String> {
    if exact_near(a, b) {
        return Ok(());
    }
    let m = mag(a).max(mag(b));
    let (tiny, tol) = match loose {
        Cut::Curved => (1.5, 0.6),
        Cut::Straight => (1e-5 * (1.0 + m), 2e-5 * (1.0 + m)),
        Cut::No => (1e-9, 1e-6),
    };
    let r = if loose != Cut::No {
        traced(a, b, tol, tiny)
    } else {
        let t = if has_curve(a) || has_curve(b) {
            0.11
        } else {
            2e-5 * (1.0 + m)
        };
        traced(a, b, t, tiny)
    };
    // a contour is one contour: cutting it up changes joins and what is filled
    let r = r.and_then(|()| {
        let (x, y) = (
            interruptions(a, tiny, 1e-6),
            interruptions(b, tiny / 2.0, tol),
        );
        if x > y {
            Err(format!(
                "the outline is interrupted at {x} places where it goes on, expected {y}"
            ))
        } else {
            Ok(())
        }
    });
    r.map_err(|e| format!("{e}\n      got  {a:?}\n      want {b:?}"))
}

/// No outline at all, or one without any extent.
pub fn draws_nothing(p: &[PathEl]) -> bool {
    let mut from = Point::ZERO;
    p.iter().enumerate().all(|(i, e)| {
        let eps = 1e-9 * (1.0 + from.x.abs().max(from.y.abs()));
        let at = |b: &Point| (*b - from).hypot() <= eps;
        match e {
            PathEl::MoveTo(b) => {
                from = *b;
                true
            }
            _ if i == 0 => false,
            PathEl::LineTo(b) => at(b),
            PathEl::QuadTo(b, c) => at(b) && at(c),
            PathEl::CurveTo(b, c, d) => at(b) && at(c) && at(d),
            PathEl::ClosePath => true,
        }
    })
}

fn transparent(b: &BrushRec) -> bool {
    match b {
        BrushRec::Solid(c) => c[3] == 0.0,
        BrushRec::Linear { stops, .. } | BrushRec::Radial { stops, .. } => {
            stops.iter().all(|s| s.1[3] == 0.0)
        }
        BrushRec::Other(_) => false,
    }
}

pub fn filter<'a>(evs: &'a [Ev], m: &Mask) -> Vec<(usize, &'a Ev)> {
    evs.iter()
        .enumerate()
        .filter(|(_, e)| match e {
            Ev::Begin { .. } | Ev::End => m.groups,
            Ev::PushClip { .. } | Ev::PushLayer { .. } | Ev::Pop => m.layers,
            Ev::Draw { path, brush, .. } => {
                m.draws && !draws_nothing(path) && !(m.drop_transparent && transparent(brush))
            }
        })
        .collect()
}

fn brush_cmp(a: &BrushRec, b: &BrushRec, m: &Mask) -> Result<(), String> {
    let stops_cmp = |x: &[(f32, [f32; 4])], y: &[(f32, [f32; 4])]| -> Result<(), String> {
        if !(m.gradient || m.color || m.alpha) {
            return Ok(());
        }
        if x.len() != y.len() {
            return Err(format!("{} gradient stops, expected {}", x.len(), y.len()));
        }
        for (i, (s, t)) in x.iter().zip(y).enumerate() {
            if m.gradient && !near_c(s.0, t.0) {
                return Err(format!("stop {i} offset {} expected {}", s.0, t.0));
            }
            if (m.gradient || m.color) && !(0..3).all(|k| near_c(s.1[k], t.1[k])) {
                return Err(format!("stop {i} colour {:?} expected {:?}", s.1, t.1));
            }
            if m.alpha && !near_c(s.1[3], t.1[3]) {
                return Err(format!("stop {i} alpha {} expected {}", s.1[3], t.1[3]));
            }
        }
        Ok(())
    };
    let p = |a: &(f64, f64), b: &(f64, f64)| near(a.0, b.0) && near(a.1, b.1);
    match (a, b) {
        (BrushRec::Solid(x), BrushRec::Solid(y)) => {
            if m.color && !(0..3).all(|k| near_c(x[k], y[k])) {
                return Err(format!("colour {x:?} expected {y:?}"));
            }
            if m.alpha && !near_c(x[3], y[3]) {
                return Err(format!("alpha {} expected {}", x[3], y[3]));
            }
            Ok(())
        }
        (
            BrushRec::Linear {
                start,
                end,
                stops,
                extra,
            },
            BrushRec::Linear {
                start: s2,
                end: e2,
                stops: t2,
                extra: x2,
            },
        ) => {
            if m.gradient && !(p(start, s2) && p(end, e2)) {
                return Err(format!(
                    "linear gradient {start:?}->{end:?} expected {s2:?}->{e2:?}"
                ));
            }
            if m.gradient && extra != x2 {
                return Err(format!("gradient settings {extra:?} expected {x2:?}"));
            }
            stops_cmp(stops, t2)
        }
        (
            BrushRec::Radial {
                center,
                radius,
                stops,
                extra,
            },
            BrushRec::Radial {
                center: c2,
                radius: r2,
                stops: t2,
                extra: x2,
            },
        ) => {
            if m.gradient && !(p(center, c2) && near(*radius as f64, *r2 as f64)) {
                return Err(format!(
                    "radial gradient at {center:?} r {radius} expected {c2:?} r {r2}"
                ));
            }
            if m.gradient && extra != x2 {
                return Err(format!("gradient settings {extra:?} expected {x2:?}"));
            }
            stops_cmp(stops, t2)
        }
        _ => {
            if m.gradient || m.color {
                Err(format!("brush {a:?} expected {b:?}"))
            } else {
                Ok(())
            }
        }
    }
}

/// Outlines of clips and layers: what matters is where they end up.
fn extent_cmp(
    what: &str,
    (tf, path): (&[f64; 6], &[PathEl]),
    (t2, p2): (&[f64; 6], &[PathEl]),
    m: &Mask,
    loose: Cut,
) -> Result<(), String> {
    let placed = || {
        let at = |t: &[f64; 6], p: &[PathEl]| -> Vec<PathEl> {
            p.iter().map(|e| kurbo::Affine::new(*t) * *e).collect()
        };
        path_cmp(&at(tf, path), &at(t2, p2), loose).is_ok()
    };
    if m.layer_tf && !tf_near(tf, t2) && !placed() {
        return Err(format!("{what} transform {tf:?} expected {t2:?}"));
    }
    if m.clip_path
        && let Err(e) = path_cmp(path, p2, loose)
        && !placed()
    {
        return Err(format!("{what} outline: {e}"));
    }
    Ok(())
}

pub fn ev_cmp(a: &Ev, b: &Ev, m: &Mask, loose: Cut) -> Result<(), String> {
    match (a, b) {
        (
            Ev::Begin { name, index },
            Ev::Begin {
                name: n2,
                index: i2,
            },
        ) => {
            if name != n2 {
                return Err(format!("layer group {name:?} expected {n2:?}"));
            }
            if m.index && index != i2 {
                return Err(format!("layer group {name:?} index {index} expected {i2}"));
            }
            Ok(())
        }
        (Ev::End, Ev::End) | (Ev::Pop, Ev::Pop) => Ok(()),
        (
            Ev::PushLayer {
                blend,
                alpha,
                tf,
                path,
            },
            Ev::PushLayer {
                blend: b2,
                alpha: a2,
                tf: t2,
                path: p2,
            },
        ) => {
            if blend != b2 {
                return Err(format!("layer blend {blend:?} expected {b2:?}"));
            }
            if (alpha - a2).abs() > 1e-5 {
                return Err(format!("layer alpha {alpha} expected {a2}"));
            }
            extent_cmp("layer", (tf, path), (t2, p2), m, loose)
        }
        (Ev::PushClip { tf, path }, Ev::PushClip { tf: t2, path: p2 }) => {
            extent_cmp("clip", (tf, path), (t2, p2), m, loose)
        }
        (
            Ev::Draw {
                stroke,
                tf,
                brush,
                path,
            },
            Ev::Draw {
                stroke: s2,
                tf: t2,
                brush: b2,
                path: p2,
            },
        ) => {
            if m.stroke {
                match (stroke, s2) {
                    (None, None) => {}
                    (Some(x), Some(y)) => {
                        if !near(x.width, y.width) {
                            return Err(format!("stroke width {} expected {}", x.width, y.width));
                        }
                        if y.join.is_some() && x.join != y.join {
                            return Err(format!("stroke join {:?} expected {:?}", x.join, y.join));
                        }
                        if y.cap.is_some() && (x.cap != y.cap || x.end_cap != y.end_cap.or(y.cap)) {
                            return Err(format!(
                                "stroke caps {:?}/{:?} expected {:?}",
                                x.cap, x.end_cap, y.cap
                            ));
                        }
                        if let (Some(p), Some(q)) = (x.miter, y.miter)
                            && !near(p, q)
                        {
                            return Err(format!("miter limit {p} expected {q}"));
                        }
                        if x.dashes != y.dashes {
                            return Err(format!("{} dashes expected {}", x.dashes, y.dashes));
                        }
                    }
                    _ => {
                        return Err(format!("stroke style {stroke:?} expected {s2:?}"));
                    }
                }
            }
            brush_cmp(brush, b2, m)?;
            if m.tf && !tf_near(tf, t2) {
                return Err(format!("draw transform {tf:?} expected {t2:?}"));
            }
            if m.path {
                path_cmp(path, p2, loose).map_err(|e| format!("draw outline: {e}"))?;
            }
            Ok(())
        }
        _ => Err(format!("{} where {} was expected", a.kind(), b.kind())),
    }
}

pub fn show(evs: &[Ev]) -> String {
    let mut s = String::new();
    for e in evs.iter().take(60) {
        s.push_str(e.kind());
        match e {
            Ev::Begin { name, index } => s.push_str(&format!("({name:?},{index})")),
            Ev::Draw {
                brush: BrushRec::Solid(c),
                path,
                ..
            } => s.push_str(&format!("({c:?},{} els)", path.len())),
            _ => {}
        }
        s.push(' ');
    }
    s
}

pub fn compare(got: &[Ev], want: &[Ev], loose: &[Cut], m: &Mask) -> Result<usize, String> {
    let (a, b) = (filter(got, m), filter(want, m));
    for k in 0..a.len().max(b.len()) {
        match (a.get(k), b.get(k)) {
            (Some((i, x)), Some((j, y))) => {
                let l = loose.get(*j).copied().unwrap_or(Cut::No);
                ev_cmp(x, y, m, l).map_err(|e| {
                    format!(
                        "call {i}: {e}\n    got:  {}\n    want: {}",
                        show(got),
                        show(want)
                    )
                })?;
            }
            (Some((i, x)), None) => {
                return Err(format!(
                    "call {i}: extra {}\n    got:  {}\n    want: {}",
                    x.kind(),
                    show(got),
                    show(want)
                ));
            }
            (None, Some((j, y))) => {
                return Err(format!(
                    "missing {} (expected as call {j})\n    got:  {}\n    want: {}",
                    y.kind(),
                    show(got),
                    show(want)
                ));
            }
            _ => {}
        }
    }
    Ok(a.len())
}

/// `b` is `a` with every alpha multiplied.
pub fn faded(a: &BrushRec, b: &BrushRec, alpha: f64) -> Result<(), String> {
    let colour = |a: &[f32; 4], b: &[f32; 4]| {
        a[..3] == b[..3] && ((a[3] as f64 * alpha) - b[3] as f64).abs() <= 6e-5
    };
    let stops = |a: &[(f32, [f32; 4])], b: &[(f32, [f32; 4])]| {
        a.len() == b.len()
            && a.iter()
                .zip(b)
                .all(|(a, b)| a.0 == b.0 && colour(&a.1, &b.1))
    };
    let ok = match (a, b) {
        (BrushRec::Solid(a), BrushRec::Solid(b)) => colour(a, b),
        (
            BrushRec::Linear {
                start,
                end,
                stops: s,
                extra,
            },
            BrushRec::Linear {
                start: start2,
                end: end2,
                stops: s2,
                extra: extra2,
            },
        ) => start == start2 && end == end2 && stops(s, s2) && extra == extra2,
        (
            BrushRec::Radial {
                center,
                radius,
                stops: s,
                extra,
            },
            BrushRec::Radial {
                center: center2,
                radius: radius2,
                stops: s2,
                extra: extra2,
            },
        ) => center == center2 && radius == radius2 && stops(s, s2) && extra == extra2,
        _ => a == b,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{b:?} instead of {a:?} faded"))
    }
}
