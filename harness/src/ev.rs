//! Event log of one render, and the sink that records it.

use kurbo::{Affine, PathEl};
use peniko::{BlendMode, Brush, Fill, GradientKind};

#[derive(Clone, Debug, PartialEq)]
pub struct StrokeRec {
    pub width: f64,
    pub join: Option<kurbo::Join>,
    pub cap: Option<kurbo::Cap>,
    pub end_cap: Option<kurbo::Cap>,
    pub miter: Option<f64>,
    pub dashes: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum BrushRec {
    Solid([f32; 4]),
    Linear {
        start: (f64, f64),
        end: (f64, f64),
        stops: Vec<(f32, [f32; 4])>,
        extra: String,
    },
    Radial {
        center: (f64, f64),
        radius: f32,
        stops: Vec<(f32, [f32; 4])>,
        extra: String,
    },
    Other(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    PushLayer {
        blend: BlendMode,
        alpha: f32,
        tf: [f64; 6],
        path: Vec<PathEl>,
    },
    PushClip {
        tf: [f64; 6],
        path: Vec<PathEl>,
    },
    Pop,
    Draw {
        stroke: Option<StrokeRec>,
        tf: [f64; 6],
        brush: BrushRec,
        path: Vec<PathEl>,
    },
    Begin {
        name: String,
        index: usize,
    },
    End,
}

impl Ev {
    pub fn kind(&self) -> &'static str {
        match self {
            Ev::PushLayer { .. } => "push_layer",
            Ev::PushClip { .. } => "push_clip_layer",
            Ev::Pop => "pop_layer",
            Ev::Draw { stroke: None, .. } => "fill",
            Ev::Draw { .. } => "stroke",
            Ev::Begin { .. } => "begin_layer_group",
            Ev::End => "end_layer_group",
        }
    }
}

pub fn gradient_extra(g: &peniko::Gradient) -> String {
    let d = peniko::Gradient::default();
    if g.extend == d.extend
        && g.interpolation_cs == d.interpolation_cs
        && g.hue_direction == d.hue_direction
        && g.interpolation_alpha_space == d.interpolation_alpha_space
    {
        String::new()
    } else {
        format!(
            "{:?} {:?} {:?} {:?}",
            g.extend, g.interpolation_cs, g.hue_direction, g.interpolation_alpha_space
        )
    }
}

pub fn stroke_rec(s: &kurbo::Stroke) -> StrokeRec {
    StrokeRec {
        width: s.width,
        join: Some(s.join),
        cap: Some(s.start_cap),
        end_cap: Some(s.end_cap),
        miter: Some(s.miter_limit),
        dashes: s.dash_pattern.len(),
    }
}

pub fn brush_rec(b: &Brush) -> BrushRec {
    match b {
        Brush::Solid(c) => BrushRec::Solid(c.components),
        Brush::Gradient(g) => {
            let mut extra = gradient_extra(g);
            let stops: Vec<_> = g
                .stops
                .iter()
                .map(|s| {
                    if s.color.cs != peniko::color::ColorSpaceTag::Srgb {
                        extra.push_str(&format!("stop in {:?}", s.color.cs));
                    }
                    (s.offset, s.color.components)
                })
                .collect();
            match g.kind {
                GradientKind::Linear(p) => BrushRec::Linear {
                    start: (p.start.x, p.start.y),
                    end: (p.end.x, p.end.y),
                    stops,
                    extra,
                },
                GradientKind::Radial(p)
                    if p.start_center == p.end_center && p.start_radius == 0.0 =>
                {
                    BrushRec::Radial {
                        center: (p.end_center.x, p.end_center.y),
                        radius: p.end_radius,
                        stops,
                        extra,
                    }
                }
                k => BrushRec::Other(format!("gradient kind {k:?}")),
            }
        }
        other => BrushRec::Other(format!("{other:?}")),
    }
}

/// Panic payload used when a render makes more calls than its budget.
pub const BUDGET_MSG: &str = "MONITOR: render exceeded its drawing call budget";

pub struct Recorder {
    pub evs: Vec<Ev>,
    pub budget: usize,
    pub keep: bool,
    pub count: usize,
    /// injects scheduling points into the calls
    pub jitter: Option<crate::rng::Rng>,
}

impl Recorder {
    pub fn new(budget: usize) -> Self {
        Recorder {
            evs: Vec::new(),
            budget,
            keep: true,
            count: 0,
            jitter: None,
        }
    }
    fn add(&mut self, e: impl FnOnce() -> Ev) {
        self.count += 1;
        if let Some(r) = &mut self.jitter {
            match r.below(40) {
                0..=3 => std::thread::yield_now(),
                4 => std::thread::sleep(std::time::Duration::from_micros(r.below(60) as u64)),
                5 => (0..r.below(2000)).for_each(|_| std::hint::spin_loop()),
                _ => {}
            }
        }
        if self.count > self.budget {
            panic!("{}", BUDGET_MSG);
        }
        if self.keep {
            let e = e();
            self.evs.push(e);
        }
    }
}

pub fn els(shape: &impl kurbo::Shape) -> Vec<PathEl> {
    shape.path_elements(0.1).collect()
}

impl velato::RenderSink for Recorder {
    fn push_layer(
        &mut self,
        blend: impl Into<BlendMode>,
        alpha: f32,
        transform: Affine,
        shape: &impl kurbo::Shape,
    ) {
        let blend = blend.into();
        self.add(|| Ev::PushLayer {
            blend,
            alpha,
            tf: transform.as_coeffs(),
            path: els(shape),
        });
    }
    fn push_clip_layer(&mut self, transform: Affine, shape: &impl kurbo::Shape) {
        self.add(|| Ev::PushClip {
            tf: transform.as_coeffs(),
            path: els(shape),
        });
    }
    fn pop_layer(&mut self) {
        self.add(|| Ev::Pop);
    }
    fn draw(
        &mut self,
        stroke: Option<&kurbo::Stroke>,
        transform: Affine,
        brush: &Brush,
        shape: &impl kurbo::Shape,
    ) {
        self.add(|| Ev::Draw {
            stroke: stroke.map(stroke_rec),
            tf: transform.as_coeffs(),
            brush: brush_rec(brush),
            path: els(shape),
        });
    }
    fn begin_layer_group(&mut self, name: &str, index: usize) {
        let name = name.to_string();
        self.add(|| Ev::Begin { name, index });
    }
    fn end_layer_group(&mut self) {
        self.add(|| Ev::End);
    }
}

#[allow(dead_code)]
pub const NONZERO: Fill = Fill::NonZero;
