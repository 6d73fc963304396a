//! A small concurrent workload for Miri (and ThreadSanitizer): threads load documents and
//! draw shared animations, each with its own renderer; logs are compared with sequential ones.

use kurbo::{Affine, PathEl, Shape};
use velato::{Composition, RenderSink, Renderer};

const DOCS: &[&str] = &[
    include_str!("../docs/0.json"),
    include_str!("../docs/1.json"),
    include_str!("../docs/2.json"),
];
const FRAMES: [f64; 3] = [3.0, 7.5, 11.0];

/// Hash of everything the sink was given (formatting numbers is slow under Miri).
#[derive(Default)]
struct Log {
    hash: u64,
    calls: usize,
}

impl Log {
    fn n(&mut self, x: u64) {
        self.hash = (self.hash ^ x).rotate_left(23).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    }
    fn f(&mut self, x: f64) {
        self.n(x.to_bits());
    }
    fn call(&mut self, kind: u64) {
        self.n(kind);
        self.calls += 1;
        if self.calls % 3 == 0 {
            std::thread::yield_now();
        }
    }
    fn place(&mut self, t: Affine, s: &impl Shape) {
        t.as_coeffs().iter().for_each(|x| self.f(*x));
        for e in s.path_elements(0.1) {
            let (k, ps) = match e {
                PathEl::MoveTo(p) => (1, vec![p]),
                PathEl::LineTo(p) => (2, vec![p]),
                PathEl::QuadTo(p, q) => (3, vec![p, q]),
                PathEl::CurveTo(p, q, r) => (4, vec![p, q, r]),
                PathEl::ClosePath => (5, vec![]),
            };
            self.n(k);
            for p in ps {
                self.f(p.x);
                self.f(p.y);
            }
        }
    }
}

impl RenderSink for Log {
    fn push_layer(&mut self, blend: impl Into<peniko::BlendMode>, alpha: f32, t: Affine, s: &impl Shape) {
        let b = blend.into();
        self.call(1);
        self.n(b.mix as u64);
        self.n(b.compose as u64);
        self.f(alpha as f64);
        self.place(t, s);
    }
    fn push_clip_layer(&mut self, t: Affine, s: &impl Shape) {
        self.call(2);
        self.place(t, s);
    }
    fn pop_layer(&mut self) {
        self.call(3);
    }
    fn draw(&mut self, stroke: Option<&kurbo::Stroke>, t: Affine, b: &peniko::Brush, s: &impl Shape) {
        self.call(4);
        if let Some(s) = stroke {
            self.f(s.width);
            self.f(s.miter_limit);
            self.n(s.join as u64 * 16 + s.start_cap as u64);
        }
        match b {
            peniko::Brush::Solid(c) => c.components.iter().for_each(|x| self.f(*x as f64)),
            peniko::Brush::Gradient(g) => {
                for s in g.stops.iter() {
                    self.f(s.offset as f64);
                    s.color.components.iter().for_each(|x| self.f(*x as f64));
                }
            }
            peniko::Brush::Image(_) => self.n(9),
        }
        self.place(t, s);
    }
    fn begin_layer_group(&mut self, name: &str, index: usize) {
        self.call(5);
        name.bytes().for_each(|b| self.n(b as u64));
        self.n(index as u64);
    }
    fn end_layer_group(&mut self) {
        self.call(6);
    }
}

fn draw(r: &mut Renderer, c: &Composition, f: f64) -> Log {
    let mut l = Log::default();
    r.append(c, f, Affine::scale(2.0), 0.5, &mut l);
    l
}

fn main() {
    let threads = 3;
    let mut calls = 0;
    let mut compared = 0;
    // loading first, so that the first use of everything is concurrent
    let loaded: Vec<u64> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                s.spawn(move || {
                    let c: Composition = DOCS[t % DOCS.len()].parse().unwrap();
                    draw(&mut Renderer::new(), &c, 3.0).hash
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let comps: Vec<Composition> = DOCS.iter().map(|d| Composition::from_slice(d).unwrap()).collect();
    for (t, l) in loaded.iter().enumerate() {
        if *l != draw(&mut Renderer::new(), &comps[t % DOCS.len()], 3.0).hash {
            println!("VIOLATED: document {t} loaded in a thread gives another animation");
            std::process::exit(1);
        }
        compared += 1;
    }
    let logs: Vec<Vec<(usize, f64, Log)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let comps = &comps;
                s.spawn(move || {
                    let mut r = Renderer::new();
                    (0..comps.len())
                        .map(|k| {
                            let d = (k + t) % comps.len();
                            let f = FRAMES[(k + 2 * t) % FRAMES.len()];
                            (d, f, draw(&mut r, &comps[d], f))
                        })
                        .collect()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (d, f, l) in logs.into_iter().flatten() {
        let want = draw(&mut Renderer::new(), &comps[d], f);
        if want.hash != l.hash {
            println!("VIOLATED: document {d}, frame {f}: concurrent and sequential render differ");
            std::process::exit(1);
        }
        calls += l.calls;
        compared += 1;
    }
    println!("OK threads={threads} compared={compared} calls={calls}");
}
