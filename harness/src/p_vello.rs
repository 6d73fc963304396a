//! The Vello backend: P31. Only built with the `vello` feature.

use crate::base::*;
use crate::docgen::{self, Profile};
use crate::obs::Obs;
use crate::p_load::hostile_doc;
use crate::rng::{Rng, hash_str};
use crate::run::{Prop, guard};
use crate::text;
use kurbo::{Affine, BezPath, PathEl, Rect, Shape, Stroke};
use peniko::{BlendMode, Brush, Color, Fill};
use serde_json::{Value, json};
use velato::Renderer;
use vello::Scene;

/// One drawing call, with its arguments as they were given.
enum Call {
    Layer(BlendMode, f32, Affine, BezPath),
    Clip(Affine, BezPath),
    Pop,
    Draw(Option<Stroke>, Affine, Brush, BezPath),
}

#[derive(Default)]
struct Raw {
    calls: Vec<Call>,
    curves: bool,
}

impl Raw {
    fn path(&mut self, s: &impl Shape) -> BezPath {
        let p: Vec<PathEl> = s.path_elements(0.1).collect();
        self.curves |= p.iter().any(|e| matches!(e, PathEl::CurveTo(..)));
        BezPath::from_vec(p)
    }
}

impl velato::RenderSink for Raw {
    fn push_layer(&mut self, b: impl Into<BlendMode>, a: f32, t: Affine, s: &impl Shape) {
        let p = self.path(s);
        self.calls.push(Call::Layer(b.into(), a, t, p));
    }
    fn push_clip_layer(&mut self, t: Affine, s: &impl Shape) {
        let p = self.path(s);
        self.calls.push(Call::Clip(t, p));
    }
    fn pop_layer(&mut self) {
        self.calls.push(Call::Pop);
    }
    fn draw(&mut self, k: Option<&Stroke>, t: Affine, b: &Brush, s: &impl Shape) {
        let p = self.path(s);
        self.calls.push(Call::Draw(k.cloned(), t, b.clone(), p));
    }
}

/// The picture of the calls, said in Vello's own words.
fn replay(calls: &[Call], scene: &mut Scene) {
    for c in calls {
        match c {
            Call::Layer(b, a, t, p) => scene.push_layer(Fill::NonZero, *b, *a, *t, p),
            Call::Clip(t, p) => scene.push_clip_layer(Fill::NonZero, *t, p),
            Call::Pop => scene.pop_layer(),
            Call::Draw(None, t, b, p) => scene.fill(Fill::NonZero, *t, b, None, p),
            Call::Draw(Some(k), t, b, p) => scene.stroke(k, *t, b, None, p),
        }
    }
}

fn same(what: &str, got: &Scene, want: &Scene) -> Result<(), String> {
    let (g, w) = (got.encoding(), want.encoding());
    macro_rules! stream {
        ($name:literal, $f:expr) => {{
            let (a, b) = ($f(g), $f(w));
            if a.len() != b.len() {
                return Err(format!(
                    "{what}: the scene has {} {}, the drawing calls give {}",
                    a.len(),
                    $name,
                    b.len()
                ));
            }
            if let Some(i) = (0..a.len()).find(|i| a[*i] != b[*i]) {
                return Err(format!(
                    "{what}: {} {i} of {} differs: {:?} in the scene, {:?} from the drawing calls",
                    $name,
                    a.len(),
                    a[i],
                    b[i]
                ));
            }
        }};
    }
    type E = vello_encoding::Encoding;
    stream!("draw tags", |e: &E| e
        .draw_tags
        .iter()
        .map(|t| t.0)
        .collect::<Vec<u32>>());
    stream!("draw data words", |e: &E| e.draw_data.clone());
    stream!("styles", |e: &E| e.styles.clone());
    // Scenes hold single-precision transforms, and there is more than one order in which to
    // multiply them: they have to agree to a few units in the last place of their largest parts.
    let transforms = |e: &E| {
        e.transforms
            .iter()
            .map(|t| {
                let (m, v) = (t.matrix, t.translation);
                [m[0], m[1], m[2], m[3], v[0], v[1]]
            })
            .collect::<Vec<_>>()
    };
    let (a, b) = (transforms(g), transforms(w));
    if a.len() != b.len() {
        return Err(format!(
            "{what}: the scene has {} transforms, the drawing calls give {}",
            a.len(),
            b.len()
        ));
    }
    let largest = |r: std::ops::Range<usize>| {
        a.iter()
            .chain(&b)
            .flat_map(|t| t[r.clone()].to_vec())
            .filter(|x| x.is_finite())
            .fold(1.0f32, |m, x| m.max(x.abs()))
    };
    let room = [largest(0..4) * 2e-6, largest(0..6) * 2e-6];
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        let close = |k: usize| {
            let (p, q) = (x[k], y[k]);
            p.to_bits() == q.to_bits()
                || (p.is_nan() && q.is_nan())
                || (p - q).abs() <= room[usize::from(k > 3)]
        };
        if !(0..6).all(close) {
            return Err(format!(
                "{what}: transform {i} of {} differs: {x:?} in the scene, {y:?} from the drawing calls",
                a.len()
            ));
        }
    }
    stream!("path tags", |e: &E| e
        .path_tags
        .iter()
        .map(|t| t.0)
        .collect::<Vec<u8>>());
    stream!("path data words", |e: &E| e.path_data.clone());
    stream!("colour stops", |e: &E| e
        .resources
        .color_stops
        .iter()
        .map(|s| (
            s.offset.to_bits(),
            s.color.cs,
            s.color.components.map(f32::to_bits)
        ))
        .collect::<Vec<_>>());
    stream!("late-bound resources", |e: &E| e
        .resources
        .patches
        .iter()
        .map(|p| match p {
            vello_encoding::Patch::Ramp {
                draw_data_offset,
                stops,
                extend,
            } => {
                format!("ramp {stops:?} at {draw_data_offset} {extend:?}")
            }
            vello_encoding::Patch::GlyphRun { index } => format!("glyphs {index}"),
            vello_encoding::Patch::Image {
                draw_data_offset, ..
            } => format!("image at {draw_data_offset}"),
        })
        .collect::<Vec<_>>());
    stream!("glyph runs", |e: &E| vec![
        e.resources.glyph_runs.len(),
        e.resources.glyphs.len()
    ]);
    stream!("counts", |e: &E| vec![
        e.n_paths,
        e.n_path_segments,
        e.n_clips,
        e.n_open_clips,
        e.flags
    ]);
    Ok(())
}

/// Some content a scene may already hold, drawn without velato.
fn prior(r: &mut Rng) -> Scene {
    let mut s = Scene::new();
    let n = r.int(0, 6);
    for _ in 0..n {
        let rect = Rect::new(
            r.range(-50.0, 50.0),
            r.range(-50.0, 50.0),
            r.range(50.0, 99.0),
            r.range(50.0, 99.0),
        );
        let t = Affine::rotate(r.range(0.0, 3.0));
        let c = Color::new([0.5, 0.25, 1.0, 0.5]);
        match r.below(6) {
            0 => s.push_clip_layer(Fill::EvenOdd, t, &rect),
            1 => s.push_layer(Fill::NonZero, BlendMode::default(), 0.5, t, &rect),
            2 => s.stroke(&Stroke::new(2.0), t, c, None, &rect),
            3 => s.fill(Fill::EvenOdd, t, c, Some(Affine::scale(2.0)), &rect),
            _ => s.fill(Fill::NonZero, t, c, None, &rect.to_rounded_rect(3.0)),
        }
    }
    s
}

fn starts_with(what: &str, s: &Scene, p: &Scene) -> Result<(), String> {
    let (s, p) = (s.encoding(), p.encoding());
    let ok = s.path_tags.starts_with(&p.path_tags)
        && s.path_data.starts_with(&p.path_data)
        && s.draw_tags.starts_with(&p.draw_tags)
        && s.draw_data.starts_with(&p.draw_data)
        && s.styles.starts_with(&p.styles)
        && s.transforms.starts_with(&p.transforms)
        && s.resources
            .color_stops
            .starts_with(&p.resources.color_stops);
    if !ok {
        return Err(format!(
            "{what}: what the scene already contained was changed"
        ));
    }
    if s.n_open_clips != p.n_open_clips {
        return Err(format!(
            "{what}: {} layers are left open in the scene, {} were open before",
            s.n_open_clips, p.n_open_clips
        ));
    }
    Ok(())
}

fn p31_make(r: &mut Rng) -> Value {
    let n = r.int(1, 2);
    let docs: Vec<Value> = (0..n)
        .map(|_| {
            if r.chance(0.3) {
                return hostile_doc(r);
            }
            let mut p = Profile::full();
            p.mask = 0.4;
            p.matte = 0.4;
            docgen::doc(r, &p)
        })
        .collect();
    let runs: Vec<Value> = (0..r.int(2, 6))
        .map(|_| {
            let d = r.below(docs.len());
            let f = docgen::frames(&docs[d], r, 1)[0];
            let tf: Vec<f64> = match r.below(4) {
                0 => vec![1.0, 0.0, 0.0, 1.0, 0.0, 0.0],
                1 => vec![0.0; 6],
                _ => (0..6).map(|_| r.range(-3.0, 3.0)).collect(),
            };
            let a = if r.chance(0.4) {
                1.0
            } else {
                r.range(0.0, 1.0)
            };
            json!({"doc":d,"frame":enc(f),"tf":tf,"alpha":a})
        })
        .collect();
    json!({"docs":docs,"runs":runs,"seed":r.int(0, 1 << 40)})
}

fn p31(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mut comps = vec![];
    for d in c["docs"].as_array().unwrap() {
        match load(d) {
            Ok(x) => comps.push(x),
            Err(m) if m.contains("rejected") => return Ok(()),
            Err(m) => return Err(m),
        }
    }
    let mut r = Rng::derive(c["seed"].as_u64().unwrap(), "prior", 0);
    let mut reused = Renderer::new();
    let (mut many, mut many_want) = (Scene::new(), Scene::new());
    for run in c["runs"].as_array().unwrap() {
        let x = &comps[run["doc"].as_u64().unwrap() as usize];
        let f = num(&run["frame"]);
        let v: Vec<f64> = run["tf"].as_array().unwrap().iter().map(num).collect();
        let tf = Affine::new(v.try_into().unwrap());
        let a = num(&run["alpha"]);
        let at = format!("frame {f}");
        let mut raw = Raw::default();
        guard(|| Renderer::new().append(x, f, tf, a, &mut raw))
            .map_err(|m| format!("{at}: rendering {m}"))?;
        // a new scene
        let got = guard(|| Renderer::new().render_to_vello_scene(x, f, tf, a))
            .map_err(|m| format!("{at}: render_to_vello_scene {m}"))?;
        let mut want = Scene::new();
        replay(&raw.calls, &mut want);
        same(&format!("{at}, render_to_vello_scene"), &got, &want)?;
        if got.encoding().n_open_clips != 0 {
            return Err(format!(
                "{at}: {} layers are left open in the new scene",
                got.encoding().n_open_clips
            ));
        }
        // a scene with content
        let before = prior(&mut r);
        let mut got = before.clone();
        guard(|| reused.append(x, f, tf, a, &mut got))
            .map_err(|m| format!("{at}: append to a scene {m}"))?;
        let mut want = before.clone();
        replay(&raw.calls, &mut want);
        same(
            &format!("{at}, append to a scene with content"),
            &got,
            &want,
        )?;
        starts_with(&at, &got, &before)?;
        // a scene that collects several renders
        guard(|| reused.append(x, f, tf, a, &mut many))
            .map_err(|m| format!("{at}: append to a scene {m}"))?;
        replay(&raw.calls, &mut many_want);
        same(
            &format!("{at}, append to a scene that holds other renders"),
            &many,
            &many_want,
        )?;
        // counts said without Vello's scene builder
        let fills = raw
            .calls
            .iter()
            .filter(|c| matches!(c, Call::Draw(None, ..)))
            .count();
        let strokes = raw
            .calls
            .iter()
            .filter(|c| matches!(c, Call::Draw(Some(_), ..)))
            .count();
        let pushes = raw
            .calls
            .iter()
            .filter(|c| matches!(c, Call::Layer(..) | Call::Clip(..)))
            .count();
        obs.count("scene fills", fills as u64);
        obs.count("scene strokes", strokes as u64);
        obs.count("scene layers", pushes as u64);
        obs.count(
            "encoded words compared",
            (want.encoding().path_data.len() + want.encoding().draw_data.len()) as u64,
        );
        if before.encoding().n_open_clips > 0 {
            obs.count("appends below an open layer", 1);
        }
        obs.eval(
            hash_str(&format!(
                "{run} {}",
                text::plain(&c["docs"][run["doc"].as_u64().unwrap() as usize])
            )),
            fills + strokes > 0,
        );
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P31",
        fixed: Vec::new,
        make: p31_make,
        check: p31,
        quick: 1200,
        thorough: 40_000,
        rule: "generated documents (also with odd numbers and damaged references), frames, caller transforms and alphas: the calls a recording sink receives are replayed through vello::Scene and every stream of the encoding is compared with what velato's own backend encoded, into a new scene, a scene with random content (also inside open layers) and a scene that collects several renders",
        assumptions: &[
            "the replay uses vello's own scene builder, so vello's encoding of one call is trusted",
            "the GPU stages of vello are not run",
        ],
        hang: 60,
    }]
}
