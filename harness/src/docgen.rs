//! Generator of Lottie documents. What is generated is steered by a `Profile`;
//! everything it makes lies in the domain stated by the properties.

use crate::rng::Rng;
use crate::schema::{self, K};
use serde_json::{Map, Value, json};

#[derive(Clone, Debug)]
pub struct Profile {
    pub layers: (i64, i64),
    pub assets: (i64, i64),
    pub asset_layers: (i64, i64),
    pub shapes: (i64, i64),
    pub depth: usize,
    /// probability that a property is keyframed
    pub anim: f64,
    pub hold: f64,
    pub ease: f64,
    pub overshoot: f64,
    pub parent: f64,
    pub dangling: f64,
    pub matte: f64,
    pub tp: f64,
    pub mask: f64,
    pub precomp: f64,
    pub hidden: f64,
    pub deco: f64,
    pub short: f64,
    pub group: f64,
    pub rect: f64,
    pub ellipse: f64,
    pub star: f64,
    pub path: f64,
    pub fill: f64,
    pub stroke: f64,
    pub gfill: f64,
    pub gstroke: f64,
    pub trim: f64,
    pub modifier: f64,
    pub hidden_shape: f64,
    /// probability that a transform part is not neutral
    pub ltf: f64,
    pub gtf: f64,
    pub skew: f64,
    pub split: f64,
    pub zero_scale: f64,
    /// probability that an optional part is left out
    pub missing: f64,
    pub opacity: f64,
    pub stretch: f64,
    pub start: f64,
    pub blend: f64,
    pub unique_colors: bool,
    pub rounded_star: f64,
    pub rounded_rect: f64,
    pub paint_last: f64,
    pub meta: f64,
    pub repeater: f64,
    pub no_ind: f64,
    pub path_anim: f64,
    pub degenerate: f64,
    pub color_anim: bool,
    /// probability that a count is far above the usual
    pub big: f64,
}

impl Default for Profile {
    fn default() -> Self {
        Profile {
            layers: (1, 3),
            assets: (0, 0),
            asset_layers: (1, 3),
            shapes: (1, 4),
            depth: 1,
            anim: 0.0,
            hold: 0.15,
            ease: 0.6,
            overshoot: 0.2,
            parent: 0.0,
            dangling: 0.0,
            matte: 0.0,
            tp: 0.0,
            mask: 0.0,
            precomp: 0.0,
            hidden: 0.0,
            deco: 0.0,
            short: 0.0,
            group: 0.0,
            rect: 1.0,
            ellipse: 0.0,
            star: 0.0,
            path: 1.0,
            fill: 1.0,
            stroke: 0.0,
            gfill: 0.0,
            gstroke: 0.0,
            trim: 0.0,
            modifier: 0.0,
            hidden_shape: 0.0,
            ltf: 0.0,
            gtf: 0.0,
            skew: 0.0,
            split: 0.0,
            zero_scale: 0.0,
            missing: 0.0,
            opacity: 0.0,
            stretch: 0.25,
            start: 0.3,
            blend: 0.0,
            unique_colors: true,
            rounded_star: 0.0,
            rounded_rect: 0.3,
            paint_last: 0.95,
            meta: 0.1,
            repeater: 0.0,
            no_ind: 0.0,
            path_anim: 0.0,
            degenerate: 0.0,
            color_anim: false,
            big: 0.01,
        }
    }
}

impl Profile {
    /// Everything the reference interpreter models, mixed.
    pub fn full() -> Profile {
        Profile {
            layers: (1, 6),
            assets: (0, 3),
            asset_layers: (1, 4),
            shapes: (1, 5),
            depth: 3,
            anim: 0.3,
            parent: 0.3,
            dangling: 0.05,
            matte: 0.2,
            tp: 0.3,
            mask: 0.2,
            precomp: 0.35,
            hidden: 0.08,
            deco: 0.15,
            short: 0.4,
            group: 0.6,
            rect: 1.0,
            ellipse: 0.7,
            star: 0.5,
            path: 1.0,
            fill: 1.0,
            stroke: 0.6,
            gfill: 0.4,
            gstroke: 0.3,
            trim: 0.25,
            modifier: 0.1,
            hidden_shape: 0.06,
            ltf: 0.5,
            gtf: 0.5,
            skew: 0.15,
            split: 0.15,
            missing: 0.2,
            opacity: 0.4,
            stretch: 0.3,
            start: 0.4,
            blend: 0.15,
            unique_colors: false,
            rounded_star: 0.3,
            rounded_rect: 0.4,
            paint_last: 0.85,
            no_ind: 0.1,
            path_anim: 0.3,
            color_anim: true,
            ..Profile::default()
        }
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub p: &'a Profile,
    pub len: f64,
    pub color: usize,
    pub asset_ids: Vec<String>,
    pub names: usize,
}

/// How many drawing calls a document may ask for, at most and roughly.
fn weight(doc: &Value) -> f64 {
    fn copies(x: &Value) -> f64 {
        match x["c"]["k"].as_f64() {
            Some(n) => n.max(1.0),
            None => 12.0,
        }
    }
    fn shapes(list: &Value) -> f64 {
        let mut n = 0.0;
        for s in list.as_array().into_iter().flatten() {
            match s["ty"].as_str() {
                Some("__repeater") => n *= copies(s),
                Some("gr") => n += shapes(&s["it"]),
                _ => n += 1.0,
            }
        }
        n
    }
    fn layers(list: &Value, doc: &Value, depth: usize) -> f64 {
        let mut n = 0.0;
        for l in list.as_array().into_iter().flatten() {
            n += 8.0 + shapes(&l["shapes"]);
            if depth < 12 && l["refId"].is_string() {
                for a in doc["assets"].as_array().into_iter().flatten() {
                    if a["id"] == l["refId"] {
                        n += layers(&a["layers"], doc, depth + 1);
                    }
                }
            }
        }
        n
    }
    // a layer may also be drawn as the matte of others
    3.0 * layers(&doc["layers"], doc, 0)
}

pub fn doc(r: &mut Rng, p: &Profile) -> Value {
    let mut d = near_start(r, p);
    if r.chance(0.05) {
        // a timeline far from zero
        let by = r.nice(50.0, 3000.0) * if r.chance(0.3) { -1.0 } else { 1.0 };
        shift_doc(&mut d, by);
    }
    d
}

fn near_start(r: &mut Rng, p: &Profile) -> Value {
    let d = any_size(r, p);
    if weight(&d) < 50_000.0 {
        return d;
    }
    let mut p = p.clone();
    p.big = 0.0;
    for _ in 0..8 {
        let d = any_size(r, &p);
        if weight(&d) < 50_000.0 {
            return d;
        }
    }
    p.layers = (1, 1);
    p.shapes = (1, 1);
    any_size(r, &p)
}

fn any_size(r: &mut Rng, p: &Profile) -> Value {
    let len = *r.pick(&[12.0, 30.0, 60.0, 100.0]);
    let mut g = Gen {
        r,
        p,
        len,
        color: 0,
        asset_ids: vec![],
        names: 0,
    };
    g.document()
}

type Obj = Map<String, Value>;

/// What range of values a property takes.
#[derive(Clone, Copy)]
pub enum Over {
    Free,
    Clamp,
}

impl Gen<'_> {
    fn document(&mut self) -> Value {
        let mut o = Obj::new();
        if self.r.chance(0.8) {
            o.insert("v".into(), json!("5.7.1"));
        }
        let ip = if self.r.chance(0.3) {
            self.r.nice(-5.0, 10.0)
        } else {
            0.0
        };
        o.insert(
            "fr".into(),
            json!(*self.r.pick(&[24.0, 25.0, 29.97, 30.0, 60.0])),
        );
        o.insert("ip".into(), json!(ip));
        o.insert("op".into(), json!(self.len));
        o.insert("w".into(), json!(self.r.int(1, 1000)));
        o.insert("h".into(), json!(self.r.int(1, 1000)));
        if self.r.chance(0.5) {
            o.insert("ddd".into(), json!(0));
        }
        if self.r.chance(0.5) {
            let n = self.name("comp");
            o.insert("nm".into(), n);
        }
        let (lo, hi) = self.p.assets;
        let n_assets = self.count(lo, hi, if hi > 0 { hi + 6 } else { 0 }) as usize;
        let ids: Vec<String> = (0..n_assets)
            .map(|i| match self.r.below(3) {
                0 => format!("comp_{i}"),
                1 => format!("{}", i + 1),
                _ => format!("precömp \"{i}\""),
            })
            .collect();
        // asset i may use assets after it
        let mut assets = vec![];
        for i in 0..n_assets {
            self.asset_ids = ids[i + 1..].to_vec();
            let (lo, hi) = self.p.asset_layers;
            let n = self.count(lo, hi, hi + 8) as usize;
            let layers = self.layers(n);
            let mut a = Obj::new();
            a.insert("id".into(), json!(ids[i]));
            if self.r.chance(0.5) {
                let nm = self.name("asset");
                a.insert("nm".into(), nm);
            }
            self.match_name(&mut a);
            if self.r.chance(0.3) {
                a.insert("fr".into(), json!(30));
            }
            a.insert("layers".into(), Value::Array(layers));
            assets.push(Value::Object(a));
        }
        if self.r.chance(0.1) && self.p.deco > 0.0 {
            assets.push(json!({"id":"img_9","w":10,"h":12,"u":"","p":"a.png","e":0}));
        }
        self.r.shuffle(&mut assets);
        self.asset_ids = ids;
        let (lo, hi) = self.p.layers;
        let n = self.count(lo, hi, hi + 24) as usize;
        let layers = self.layers(n);
        if !assets.is_empty() || self.r.chance(0.5) {
            o.insert("assets".into(), Value::Array(assets));
        }
        o.insert("layers".into(), Value::Array(layers));
        if self.r.chance(self.p.meta) {
            o.insert(
                "markers".into(),
                json!([{"cm":"start","tm":3,"dr":4.5},{"tm":7}]),
            );
        }
        if self.r.chance(self.p.meta) {
            o.insert(
                "meta".into(),
                json!({"author":"a b","generator":"gen","keywords":["x"],"theme_color":"#fff"}),
            );
        }
        Value::Object(o)
    }

    /// How many of something: rarely far more than usual.
    fn count(&mut self, lo: i64, hi: i64, most: i64) -> i64 {
        if self.r.chance(self.p.big) {
            self.r.int(hi.min(most), most)
        } else {
            self.r.int(lo, hi)
        }
    }

    pub fn name(&mut self, base: &str) -> Value {
        self.names += 1;
        let n = self.names;
        json!(match self.r.below(24) {
            0 => String::new(),
            1 => "twice".to_string(),
            2 => format!("näme \"{n}\" \\ 図形 \u{1F600}"),
            3 => format!("{base} {n} ").repeat(20),
            _ => format!("{base} {n}"),
        })
    }

    /// A match name: for expressions of the editor only.
    fn match_name(&mut self, o: &mut Obj) {
        if self.r.chance(0.15) {
            let n = self.name("match");
            o.insert("mn".into(), n);
        }
    }

    /// An index that no layer of this list has; layers of other lists may have it.
    fn absent(&mut self, inds: &[i64], with_ind: &[bool]) -> i64 {
        if self.r.chance(0.3) {
            return self.r.int(900, 905);
        }
        let c: Vec<i64> = (0..inds.len() as i64 + 20)
            .filter(|i| !inds.iter().zip(with_ind).any(|(j, w)| *w && i == j))
            .collect();
        *self.r.pick(&c)
    }

    pub fn layers(&mut self, n: usize) -> Vec<Value> {
        let n = n.max(1);
        // distinct indices
        let first = if self.r.chance(0.3) { 0 } else { 1 };
        let mut inds: Vec<i64> = (first..=(n as i64 * 3)).collect();
        self.r.shuffle(&mut inds);
        if self.r.chance(0.5) {
            inds.sort();
        }
        inds.truncate(n);
        let with_ind: Vec<bool> = (0..n).map(|_| !self.r.chance(self.p.no_ind)).collect();
        // parents point to lower rank: no cycles
        let mut rank: Vec<usize> = (0..n).collect();
        self.r.shuffle(&mut rank);
        let tt: Vec<bool> = (0..n).map(|_| self.r.chance(self.p.matte)).collect();
        let explicit: Vec<bool> = (0..n).map(|_| self.r.chance(self.p.tp)).collect();
        let mut td: Vec<bool> = vec![false; n];
        for i in 0..n {
            if i + 1 < n && tt[i + 1] && self.r.chance(0.85) {
                td[i] = true;
            } else if self.p.matte > 0.0 && self.r.chance(0.08) {
                td[i] = true;
            }
        }
        let mut out = vec![];
        for i in 0..n {
            let mut o = Obj::new();
            let kind = if self.r.chance(self.p.deco) {
                *self.r.pick(&[1, 2, 3])
            } else if self.r.chance(self.p.precomp) && !self.asset_ids.is_empty() {
                0
            } else {
                4
            };
            o.insert("ty".into(), json!(kind));
            if self.r.chance(0.85) {
                let nm = self.name("layer");
                o.insert("nm".into(), nm);
            }
            self.match_name(&mut o);
            if with_ind[i] {
                o.insert("ind".into(), json!(inds[i]));
            }
            let (ip, op) = if self.r.chance(self.p.short) {
                let a = self.r.nice(-5.0, self.len);
                let b = self.r.nice(-5.0, self.len + 5.0);
                if self.r.chance(0.1) {
                    (a, a)
                } else if self.r.chance(0.06) {
                    (a.max(b), a.min(b))
                } else {
                    (a.min(b), a.max(b))
                }
            } else {
                (-1000.0, 2000.0)
            };
            o.insert("ip".into(), json!(ip));
            o.insert("op".into(), json!(op));
            o.insert("ks".into(), Value::Object(self.layer_transform()));
            if self.r.chance(self.p.parent) {
                if self.r.chance(self.p.dangling) {
                    o.insert("parent".into(), json!(self.absent(&inds, &with_ind)));
                } else {
                    let c: Vec<usize> = (0..n)
                        .filter(|&j| with_ind[j] && rank[j] < rank[i])
                        .collect();
                    if !c.is_empty() {
                        o.insert("parent".into(), json!(inds[*self.r.pick(&c)]));
                    }
                }
            }
            if tt[i] {
                o.insert("tt".into(), json!(self.r.int(1, 4)));
                if explicit[i] {
                    let c: Vec<usize> = (0..n)
                        .filter(|&j| {
                            with_ind[j]
                                && (!tt[j] || (explicit[j] && explicit[i] && rank[j] < rank[i]))
                        })
                        .collect();
                    if c.is_empty() || self.r.chance(self.p.dangling) {
                        o.insert("tp".into(), json!(self.absent(&inds, &with_ind)));
                    } else {
                        o.insert("tp".into(), json!(inds[*self.r.pick(&c)]));
                    }
                }
            }
            if td[i] {
                o.insert("td".into(), json!(1));
            } else if self.r.chance(0.1) {
                o.insert("td".into(), json!(0));
            }
            if self.r.chance(self.p.hidden) {
                o.insert("hd".into(), json!(true));
            } else if self.r.chance(0.1) {
                o.insert("hd".into(), json!(false));
            }
            if self.r.chance(self.p.blend) {
                o.insert("bm".into(), json!(self.r.int(0, 17)));
            }
            if self.r.chance(0.3) {
                o.insert("ddd".into(), json!(0));
            }
            if self.r.chance(0.3) {
                o.insert("ao".into(), json!(0));
            }
            if self.r.chance(self.p.mask) {
                let k = self.count(1, 3, 9);
                let masks: Vec<Value> = (0..k).map(|_| self.mask()).collect();
                o.insert("hasMask".into(), json!(true));
                o.insert("masksProperties".into(), Value::Array(masks));
            }
            match kind {
                0 => {
                    let id = if self.r.chance(self.p.dangling) {
                        "nowhere".to_string()
                    } else {
                        self.r.pick(&self.asset_ids).clone()
                    };
                    o.insert("refId".into(), json!(id));
                    o.insert("w".into(), json!(self.r.nice(1.0, 500.0)));
                    o.insert("h".into(), json!(self.r.nice(1.0, 500.0)));
                    let far = self.p.start > 0.0 && self.r.chance(0.06);
                    let st = if far {
                        let st = self.r.nice(50.0, 2000.0);
                        if self.r.chance(0.3) { -st } else { st }
                    } else if self.r.chance(self.p.start) {
                        self.r.nice(-20.0, 20.0)
                    } else {
                        0.0
                    };
                    if far && self.r.chance(0.7) {
                        for k in ["ip", "op"] {
                            let t = o[k].as_f64().unwrap();
                            o.insert(k.into(), json!(moved(t, st)));
                        }
                    }
                    o.insert("st".into(), json!(st));
                    if self.r.chance(self.p.stretch) {
                        let s = *self
                            .r
                            .pick(&[0.5, 1.0, 2.0, 1.5, 0.75, 3.0, 0.3, -1.0, -0.5, -2.0]);
                        let s = match self.r.below(8) {
                            0 => self.r.nice(0.9, 1.1),
                            1 => self.r.nice(0.05, 5.0),
                            2 => self.r.nice(-3.0, -0.1),
                            _ => s,
                        };
                        o.insert("sr".into(), json!(s));
                    }
                }
                1 => {
                    o.insert("sw".into(), json!(self.r.int(1, 500)));
                    o.insert("sh".into(), json!(self.r.int(1, 500)));
                    o.insert("sc".into(), json!("#a0ff30"));
                }
                2 => {
                    o.insert("refId".into(), json!("img_9"));
                }
                3 => {}
                _ => {
                    let d = self.p.depth;
                    let shapes = self.shape_list(d, true);
                    o.insert("shapes".into(), Value::Array(shapes));
                }
            }
            if kind != 0 && self.r.chance(0.5) {
                o.insert("st".into(), json!(self.r.nice(-3.0, 3.0)));
            }
            if kind != 0 && self.r.chance(0.2 + 0.3 * self.p.stretch) {
                // only matters for the loaded model
                let s = *self.r.pick(&[1.0, 0.5, 2.0, 3.25]);
                o.insert("sr".into(), json!(s));
            }
            out.push(Value::Object(o));
        }
        out
    }

    fn mask(&mut self) -> Value {
        let mut o = Obj::new();
        o.insert("mode".into(), json!(*self.r.pick(&["a", "a", "i", "s"])));
        if self.r.chance(0.5) {
            o.insert("inv".into(), json!(false));
        }
        if self.r.chance(0.4) {
            let v = self.scalar(0.0, 100.0, Over::Clamp);
            o.insert("o".into(), v);
        }
        if self.r.chance(0.3) {
            let nm = self.name("mask");
            o.insert("nm".into(), nm);
        }
        if !self.r.chance(0.1) {
            let v = self.path_property();
            o.insert("pt".into(), v);
        }
        Value::Object(o)
    }

    // ----- properties -------------------------------------------------

    fn handle_pair(&mut self, dims: usize, allow_multi: bool) -> (Value, Value) {
        let os = self.r.chance(self.p.overshoot);
        let y = |r: &mut Rng| {
            if os {
                r.nice(-0.6, 1.6)
            } else {
                r.nice(0.0, 1.0)
            }
        };
        let ox = (self.r.range(0.0, 0.95) * 1000.0).round() / 1000.0;
        let ix = (self.r.range(0.05, 1.0) * 1000.0).round() / 1000.0;
        let oy = y(self.r);
        let iy = y(self.r);
        let style = self.r.below(if allow_multi { 4 } else { 2 });
        let comp = |v: f64| match style {
            0 => json!(v),
            1 => json!([v]),
            _ => Value::Array((0..dims).map(|_| json!(v)).collect()),
        };
        // only the first number of a list counts where there is one value
        let extra = !allow_multi && style == 1 && self.r.chance(0.2);
        let more: Vec<f64> = (0..4).map(|_| self.r.nice(0.0, 1.0)).collect();
        let comp = |v: f64, i: usize| {
            if extra && more[i] > 0.3 {
                json!([v, more[i]])
            } else {
                comp(v)
            }
        };
        (
            json!({"x": comp(ox, 0), "y": comp(oy, 1)}),
            json!({"x": comp(ix, 2), "y": comp(iy, 3)}),
        )
    }

    /// Times of keyframes: increasing.
    pub fn times(&mut self, min: i64, max: i64) -> Vec<f64> {
        let n = self.count(min, max, 40) as usize;
        // many keyframes are often crowded at one end
        let crowd = if n > 10 { self.r.below(3) } else { 0 };
        let mut v: Vec<f64> = (0..n)
            .map(|_| {
                let t = self.r.nice(-4.0, self.len + 4.0);
                let u = (t + 4.0) / (self.len + 8.0);
                let u = match crowd {
                    1 => u.powi(6),
                    2 => 1.0 - (1.0 - u).powi(6),
                    _ => u,
                };
                let t = if crowd > 0 {
                    ((u * (self.len + 8.0) - 4.0) * 1000.0).round() / 1000.0
                } else {
                    t
                };
                if self.r.chance(0.5) { t.round() } else { t }
            })
            .collect();
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v.dedup_by(|a, b| (*a - *b).abs() < 0.05);
        v
    }

    fn keyframes(
        &mut self,
        dims: usize,
        multi: bool,
        wrap: bool,
        mut value: impl FnMut(&mut Rng) -> Value,
    ) -> Value {
        let times = self.times(1, 5);
        let n = times.len();
        let same = if self.r.chance(0.04) {
            Some(value(self.r))
        } else {
            None
        };
        let ks: Vec<Value> = times
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let mut o = Obj::new();
                o.insert("t".into(), json!(t));
                let s = same.clone().unwrap_or_else(|| value(self.r));
                o.insert("s".into(), if wrap { json!([s]) } else { s });
                let last = i + 1 == n;
                if self.r.chance(self.p.hold) {
                    o.insert("h".into(), json!(1));
                } else if self.r.chance(0.1) {
                    o.insert("h".into(), json!(0));
                }
                if self.r.chance(self.p.ease) && !(last && self.r.chance(0.7)) {
                    let (oo, ii) = self.handle_pair(dims, multi);
                    o.insert("o".into(), oo);
                    o.insert("i".into(), ii);
                }
                Value::Object(o)
            })
            .collect();
        Value::Array(ks)
    }

    pub fn scalar(&mut self, lo: f64, hi: f64, over: Over) -> Value {
        let a = self.p.anim;
        self.scalar_p(lo, hi, over, a)
    }

    pub fn scalar_p(&mut self, lo: f64, hi: f64, over: Over, anim: f64) -> Value {
        let mut o = Obj::new();
        if self.r.chance(anim) {
            o.insert("a".into(), json!(1));
            let saved = self.p;
            let q;
            if matches!(over, Over::Clamp) {
                let mut pp = self.p.clone();
                pp.overshoot = 0.0;
                q = pp;
                let mut g = Gen {
                    r: self.r,
                    p: &q,
                    len: self.len,
                    color: 0,
                    asset_ids: vec![],
                    names: 0,
                };
                let k = g.keyframes(1, false, true, |r| json!(r.within(lo, hi)));
                o.insert("k".into(), k);
            } else {
                let k = self.keyframes(1, false, true, |r| json!(r.within(lo, hi)));
                o.insert("k".into(), k);
            }
            self.p = saved;
        } else {
            if self.r.chance(0.9) {
                o.insert("a".into(), json!(0));
            }
            o.insert("k".into(), json!(self.r.within(lo, hi)));
        }
        if self.r.chance(0.1) {
            o.insert("ix".into(), json!(self.r.int(1, 9)));
        }
        Value::Object(o)
    }

    pub fn vector(&mut self, lo: f64, hi: f64, dims: usize, over: Over) -> Value {
        let a = self.p.anim;
        self.vector_p(lo, hi, dims, over, a)
    }

    pub fn vector_p(&mut self, lo: f64, hi: f64, dims: usize, over: Over, anim: f64) -> Value {
        let dims = if dims == 2 && self.r.chance(0.3) {
            3
        } else {
            dims
        };
        let mut o = Obj::new();
        let v = |r: &mut Rng| Value::Array((0..dims).map(|_| json!(r.within(lo, hi))).collect());
        if self.r.chance(anim) {
            o.insert("a".into(), json!(1));
            let mut pp = self.p.clone();
            if matches!(over, Over::Clamp) {
                pp.overshoot = 0.0;
            }
            let mut g = Gen {
                r: self.r,
                p: &pp,
                len: self.len,
                color: 0,
                asset_ids: vec![],
                names: 0,
            };
            let k = g.keyframes(dims, true, false, v);
            o.insert("k".into(), k);
        } else {
            if self.r.chance(0.9) {
                o.insert("a".into(), json!(0));
            }
            o.insert("k".into(), v(self.r));
        }
        if self.r.chance(0.1) {
            o.insert("ix".into(), json!(self.r.int(1, 9)));
        }
        Value::Object(o)
    }

    fn fixed(v: Value) -> Value {
        json!({"a":0,"k":v})
    }

    fn transform_parts(&mut self, p: f64, layer: bool) -> Obj {
        let mut o = Obj::new();
        // position is required
        let pos = if self.r.chance(p) {
            if self.r.chance(self.p.split) {
                let x = self.scalar(-300.0, 300.0, Over::Free);
                let y = self.scalar(-300.0, 300.0, Over::Free);
                let mut s = Obj::new();
                s.insert("s".into(), json!(true));
                s.insert("x".into(), x);
                s.insert("y".into(), y);
                if self.r.chance(0.3) {
                    s.insert("z".into(), json!({"a":0,"k":0}));
                }
                Value::Object(s)
            } else {
                self.vector(-300.0, 300.0, 2, Over::Free)
            }
        } else {
            Self::fixed(json!([0, 0]))
        };
        o.insert("p".into(), pos);
        if self.r.chance(p) {
            let v = self.vector(-200.0, 200.0, 2, Over::Free);
            o.insert("a".into(), v);
        } else if !self.r.chance(self.p.missing) {
            o.insert("a".into(), Self::fixed(json!([0, 0])));
        }
        if self.r.chance(p) {
            let v = if self.r.chance(self.p.zero_scale) {
                Self::fixed(json!([self.r.int(0, 1) * 100, 0]))
            } else if self.r.chance(0.2) {
                self.vector(-150.0, 150.0, 2, Over::Free)
            } else {
                self.vector(20.0, 250.0, 2, Over::Free)
            };
            o.insert("s".into(), v);
        } else if !self.r.chance(self.p.missing) {
            o.insert("s".into(), Self::fixed(json!([100, 100])));
        }
        if self.r.chance(p) {
            let v = self.scalar(-400.0, 400.0, Over::Free);
            o.insert("r".into(), v);
        } else if !self.r.chance(self.p.missing) {
            o.insert("r".into(), Self::fixed(json!(0)));
        }
        if self.r.chance(p) && self.r.chance(self.p.skew) {
            let v = self.scalar(-60.0, 60.0, Over::Clamp);
            o.insert("sk".into(), v);
            if self.r.chance(0.8) {
                let v = self.scalar(-180.0, 180.0, Over::Free);
                o.insert("sa".into(), v);
            }
        } else if self.r.chance(0.2) {
            o.insert("sk".into(), Self::fixed(json!(0)));
            o.insert("sa".into(), Self::fixed(json!(0)));
        }
        if self.r.chance(self.p.opacity) {
            let v = self.scalar(0.0, 100.0, Over::Clamp);
            o.insert("o".into(), v);
        } else if !self.r.chance(self.p.missing) {
            o.insert("o".into(), Self::fixed(json!(100)));
        }
        let _ = layer;
        o
    }

    fn layer_transform(&mut self) -> Obj {
        let p = self.p.ltf;
        self.transform_parts(p, true)
    }

    fn group_transform(&mut self) -> Value {
        let p = self.p.gtf;
        let mut o = self.transform_parts(p, false);
        o.insert("ty".into(), json!("tr"));
        if self.r.chance(0.3) {
            o.insert("nm".into(), json!("Transform"));
        }
        Value::Object(o)
    }

    // ----- shapes -------------------------------------------------------

    pub fn shape_list(&mut self, depth: usize, top: bool) -> Vec<Value> {
        let (lo, hi) = self.p.shapes;
        let n = self.count(lo, hi, hi + 12);
        let mut v = vec![];
        for i in 0..n {
            let s = if i == 0 && self.r.chance(0.7) && !(depth > 0 && self.r.chance(self.p.group)) {
                self.geometry()
            } else {
                self.shape(depth)
            };
            v.push(s);
        }
        if self.r.chance(self.p.paint_last) {
            v.push(self.paint());
        }
        let _ = top;
        v
    }

    fn shape(&mut self, depth: usize) -> Value {
        let p = self.p;
        let geo = p.rect + p.ellipse + p.star + p.path;
        let paint = p.fill + p.stroke + p.gfill + p.gstroke;
        let grp = if depth > 0 { p.group * 3.0 } else { 0.0 };
        let w = [
            geo,
            paint,
            grp,
            p.trim * 3.0,
            p.modifier * 3.0,
            p.repeater * 3.0,
        ];
        let s = match self.weighted(&w) {
            0 => self.geometry(),
            1 => self.paint(),
            2 => {
                let mut g = self.group(depth - 1);
                if self.r.chance(self.p.big * 2.0) {
                    for _ in 0..self.r.int(2, 10) {
                        let mut it = vec![g];
                        if self.r.chance(0.5) {
                            it.push(self.group_transform());
                        }
                        if self.r.chance(0.3) {
                            it.push(self.paint());
                        }
                        let mut o = self.base("gr");
                        o.insert("it".into(), Value::Array(it));
                        g = Value::Object(o);
                    }
                }
                g
            }
            3 => self.trim(),
            4 => self.modifier(),
            _ => self.repeater(),
        };
        s
    }

    fn weighted(&mut self, w: &[f64]) -> usize {
        let total: f64 = w.iter().sum();
        let mut x = self.r.unit() * total;
        for (i, v) in w.iter().enumerate() {
            if *v > 0.0 && x < *v {
                return i;
            }
            x -= v;
        }
        w.iter().position(|v| *v > 0.0).unwrap_or(0)
    }

    fn base(&mut self, ty: &str) -> Obj {
        let mut o = Obj::new();
        o.insert("ty".into(), json!(ty));
        if self.r.chance(0.3) {
            let nm = self.name("shape");
            o.insert("nm".into(), nm);
        }
        self.match_name(&mut o);
        if self.r.chance(self.p.hidden_shape) {
            o.insert("hd".into(), json!(true));
        } else if self.r.chance(0.2) {
            o.insert("hd".into(), json!(false));
        }
        if self.r.chance(0.1) {
            o.insert("ix".into(), json!(self.r.int(1, 9)));
        }
        o
    }

    pub fn group(&mut self, depth: usize) -> Value {
        let mut it = self.shape_list(depth, false);
        if !self.r.chance(self.p.missing * 0.5) {
            let t = self.group_transform();
            it.push(t);
        }
        let mut o = self.base("gr");
        if self.r.chance(0.3) {
            o.insert("np".into(), json!(it.len()));
        }
        o.insert("it".into(), Value::Array(it));
        Value::Object(o)
    }

    pub fn geometry(&mut self) -> Value {
        let p = self.p;
        match self.weighted(&[p.rect, p.ellipse, p.star, p.path]) {
            0 => self.rect(),
            1 => self.ellipse(),
            2 => self.star(),
            _ => self.path_shape(),
        }
    }

    fn size(&mut self) -> Value {
        if self.r.chance(self.p.degenerate) {
            return Self::fixed(json!([self.r.int(0, 1) * 50, 0]));
        }
        if self.r.chance(0.03) {
            return self.vector(0.05, 2.0, 2, Over::Clamp);
        }
        self.vector(2.0, 200.0, 2, Over::Clamp)
    }

    pub fn rect(&mut self) -> Value {
        let mut o = self.base("rc");
        o.insert("p".into(), self.vector(-200.0, 200.0, 2, Over::Free));
        let s = self.size();
        o.insert("s".into(), s);
        let r = if self.r.chance(self.p.rounded_rect) {
            self.scalar(0.0, 120.0, Over::Clamp)
        } else {
            Self::fixed(json!(0))
        };
        o.insert("r".into(), r);
        if self.r.chance(0.3) {
            o.insert("d".into(), json!(1));
        }
        Value::Object(o)
    }

    pub fn ellipse(&mut self) -> Value {
        let mut o = self.base("el");
        o.insert("p".into(), self.vector(-200.0, 200.0, 2, Over::Free));
        let s = self.size();
        o.insert("s".into(), s);
        if self.r.chance(0.3) {
            o.insert("d".into(), json!(1));
        }
        Value::Object(o)
    }

    pub fn star(&mut self) -> Value {
        let mut o = self.base("sr");
        let polygon = self.r.chance(0.4);
        o.insert("sy".into(), json!(if polygon { 2 } else { 1 }));
        o.insert("p".into(), self.vector(-200.0, 200.0, 2, Over::Free));
        o.insert("r".into(), self.scalar(-400.0, 400.0, Over::Free));
        o.insert("or".into(), self.scalar(5.0, 150.0, Over::Clamp));
        let pt = if self.r.chance(0.5) {
            Self::fixed(json!(self.r.int(3, 9)))
        } else {
            let lo = if self.r.chance(0.2) { 0.0 } else { 3.0 };
            self.scalar(lo, 9.0, Over::Clamp)
        };
        o.insert("pt".into(), pt);
        let rounded = self.r.chance(self.p.rounded_star);
        let rn = |g: &mut Self| {
            if rounded && !g.r.chance(0.2) {
                if g.r.chance(0.1) {
                    g.scalar(-80.0, -1.0, Over::Clamp)
                } else {
                    g.scalar(1.0, 150.0, Over::Clamp)
                }
            } else {
                Self::fixed(json!(0))
            }
        };
        let os = rn(self);
        o.insert("os".into(), os);
        if !polygon || self.r.chance(0.3) {
            o.insert("ir".into(), self.scalar(2.0, 80.0, Over::Clamp));
            if !self.r.chance(0.1) {
                let is = rn(self);
                o.insert("is".into(), is);
            }
        }
        if self.r.chance(0.3) {
            o.insert("d".into(), json!(1));
        }
        Value::Object(o)
    }

    pub fn bezier(&mut self, n: usize, closed: Option<bool>, straight: bool) -> Value {
        let mut v: Vec<Value> = vec![];
        let mut i = vec![];
        let mut o = vec![];
        let doubled = n > 1 && self.r.chance(0.1);
        let m = if straight && self.r.chance(0.15) {
            2.0
        } else {
            200.0
        };
        for _ in 0..n {
            if doubled && !v.is_empty() && self.r.chance(0.4) {
                // a vertex in the place of an earlier one
                let at = *self.r.pick(&[0, v.len() - 1]);
                let p: Value = v[at].clone();
                v.push(p);
            } else {
                v.push(json!([self.r.nice(-m, m), self.r.nice(-m, m)]));
            }
            let z = straight || self.r.chance(0.3);
            let t = |r: &mut Rng| {
                if z {
                    json!([0, 0])
                } else {
                    json!([r.nice(-80.0, 80.0), r.nice(-80.0, 80.0)])
                }
            };
            i.push(t(self.r));
            o.push(t(self.r));
        }
        if self.r.chance(self.p.missing * 0.5) {
            i.truncate(self.r.below(n + 1));
        }
        if self.r.chance(self.p.missing * 0.5) {
            o.truncate(self.r.below(n + 1));
        }
        let mut b = Obj::new();
        b.insert("v".into(), Value::Array(v));
        b.insert("i".into(), Value::Array(i));
        b.insert("o".into(), Value::Array(o));
        if let Some(c) = closed {
            b.insert("c".into(), json!(c));
        }
        Value::Object(b)
    }

    pub fn path_property(&mut self) -> Value {
        let n = if self.r.chance(self.p.degenerate) {
            self.r.int(0, 1) as usize
        } else {
            self.count(2, 6, 120) as usize
        };
        let closed = match self.r.below(5) {
            0 => None,
            1 => Some(false),
            _ => Some(true),
        };
        let straight = self.r.chance(0.4);
        let mut o = Obj::new();
        if self.r.chance(self.p.path_anim) {
            o.insert("a".into(), json!(1));
            let times = self.times(1, 4);
            let m = times.len();
            let mut ks = vec![];
            for (j, t) in times.iter().enumerate() {
                let mut k = Obj::new();
                let last = j + 1 == m;
                k.insert("t".into(), json!(t));
                if !(last && m > 1 && self.r.chance(0.35)) {
                    let b = self.bezier(n, closed, straight);
                    k.insert("s".into(), json!([b]));
                    if !last && self.r.chance(0.35) {
                        let b = self.bezier(n, closed, straight);
                        k.insert("e".into(), json!([b]));
                    }
                }
                if self.r.chance(self.p.hold) {
                    k.insert("h".into(), json!(1));
                }
                if self.r.chance(self.p.ease) && !(last && self.r.chance(0.7)) {
                    let (oo, ii) = self.handle_pair(1, false);
                    k.insert("o".into(), oo);
                    k.insert("i".into(), ii);
                }
                ks.push(Value::Object(k));
            }
            o.insert("k".into(), Value::Array(ks));
        } else {
            if self.r.chance(0.9) {
                o.insert("a".into(), json!(0));
            }
            let b = self.bezier(n, closed, straight);
            o.insert("k".into(), b);
        }
        Value::Object(o)
    }

    pub fn path_shape(&mut self) -> Value {
        let mut o = self.base("sh");
        let v = self.path_property();
        o.insert("ks".into(), v);
        if self.r.chance(0.2) {
            o.insert("ind".into(), json!(self.r.int(0, 5)));
        }
        Value::Object(o)
    }

    pub fn paint(&mut self) -> Value {
        let p = self.p;
        match self.weighted(&[p.fill, p.stroke, p.gfill, p.gstroke]) {
            0 => self.fill(),
            1 => self.stroke(),
            2 => self.gradient(false),
            _ => self.gradient(true),
        }
    }

    fn opacity(&mut self) -> Value {
        if self.r.chance(self.p.opacity) {
            self.scalar(0.0, 100.0, Over::Clamp)
        } else {
            Self::fixed(json!(100))
        }
    }

    fn solid_color(&mut self) -> Value {
        if self.p.unique_colors {
            self.color += 1;
            let k = self.color;
            let c = |x: usize| json!(((x % 10) as f64 + 0.5) / 10.0);
            return Self::fixed(json!([c(k), c(k / 10), c(k / 100), 1]));
        }
        let dims = *self.r.pick(&[3, 4, 4]);
        let anim = if self.p.color_anim { self.p.anim } else { 0.0 };
        let mut o = Obj::new();
        let v = |r: &mut Rng| {
            let mut c: Vec<Value> = (0..3).map(|_| json!(r.nice(0.0, 1.0))).collect();
            if dims == 4 {
                c.push(json!(1));
            }
            Value::Array(c)
        };
        if self.r.chance(anim) {
            o.insert("a".into(), json!(1));
            let k = self.keyframes(dims, true, false, v);
            o.insert("k".into(), k);
        } else {
            o.insert("a".into(), json!(0));
            o.insert("k".into(), v(self.r));
        }
        Value::Object(o)
    }

    pub fn fill(&mut self) -> Value {
        let mut o = self.base("fl");
        o.insert("c".into(), self.solid_color());
        o.insert("o".into(), self.opacity());
        if self.r.chance(0.5) {
            o.insert("r".into(), json!(1));
        }
        Value::Object(o)
    }

    fn stroke_style(&mut self, o: &mut Obj) {
        let w = if self.r.chance(0.05) {
            Self::fixed(json!(0))
        } else {
            self.scalar(0.0, 40.0, Over::Clamp)
        };
        o.insert("w".into(), w);
        if self.r.chance(0.85) {
            o.insert("lc".into(), json!(self.r.int(1, 3)));
        }
        if self.r.chance(0.85) {
            o.insert("lj".into(), json!(self.r.int(1, 3)));
        }
        if self.r.chance(0.5) {
            let ml = if self.r.chance(0.2) {
                self.r.nice(0.0, 1.0)
            } else {
                self.r.nice(1.0, 10.0)
            };
            o.insert("ml".into(), json!(ml));
        }
    }

    pub fn stroke(&mut self) -> Value {
        let mut o = self.base("st");
        o.insert("c".into(), self.solid_color());
        o.insert("o".into(), self.opacity());
        self.stroke_style(&mut o);
        Value::Object(o)
    }

    pub fn gradient(&mut self, stroke: bool) -> Value {
        let mut o = self.base(if stroke { "gs" } else { "gf" });
        o.insert("o".into(), self.opacity());
        if stroke {
            self.stroke_style(&mut o);
        } else if self.r.chance(0.5) {
            o.insert("r".into(), json!(1));
        }
        o.insert("s".into(), self.vector(-100.0, 100.0, 2, Over::Free));
        if self.r.chance(0.06) {
            // a gradient without extent
            let s = o["s"].clone();
            o.insert("e".into(), s);
        } else {
            o.insert("e".into(), self.vector(-100.0, 100.0, 2, Over::Free));
        }
        let radial = self.r.chance(0.5);
        if radial {
            o.insert("t".into(), json!(2));
            if self.r.chance(0.3) {
                o.insert("h".into(), json!({"a":0,"k":0}));
                o.insert("a".into(), json!({"a":0,"k":0}));
            }
        } else if self.r.chance(0.8) {
            o.insert("t".into(), json!(1));
        }
        let n = self.count(1, 5, 40) as usize;
        let alpha = self.r.chance(0.4);
        let ends = self.r.chance(0.6) && n >= 2;
        let colors = |r: &mut Rng| {
            let mut offs: Vec<f64> = (0..n)
                .map(|_| (r.range(0.15, 0.85) * 1000.0).round() / 1000.0)
                .collect();
            offs.sort_by(|a, b| a.partial_cmp(b).unwrap());
            if ends {
                offs[0] = 0.0;
                offs[n - 1] = 1.0;
            }
            let mut v = vec![];
            for x in &offs {
                v.push(json!(x));
                for _ in 0..3 {
                    v.push(json!(r.nice(0.0, 1.0)));
                }
            }
            if alpha {
                v.push(json!(0));
                v.push(json!(r.nice(0.0, 1.0)));
                v.push(json!(1));
                v.push(json!(r.nice(0.0, 1.0)));
            }
            Value::Array(v)
        };
        let k = if self.r.chance(self.p.anim) {
            let mut pp = self.p.clone();
            pp.overshoot = 0.0;
            let mut g = Gen {
                r: self.r,
                p: &pp,
                len: self.len,
                color: 0,
                asset_ids: vec![],
                names: 0,
            };
            json!({"a":1,"k": g.keyframes(1, false, false, colors)})
        } else {
            json!({"a":0,"k": colors(self.r)})
        };
        o.insert("g".into(), json!({"p": n, "k": k}));
        Value::Object(o)
    }

    pub fn trim(&mut self) -> Value {
        let mut o = self.base("tm");
        let (mut s, mut e) = (
            self.scalar(0.0, 100.0, Over::Clamp),
            self.scalar(0.0, 100.0, Over::Clamp),
        );
        match self.r.below(8) {
            0 => s = Self::fixed(json!(0)),
            1 => e = Self::fixed(json!(100)),
            2 => {
                s = Self::fixed(json!(0));
                e = Self::fixed(json!(100));
            }
            3 if self.r.chance(0.6) => {
                let v = Self::fixed(json!(self.r.nice(0.0, 100.0)));
                s = v.clone();
                e = v;
            }
            _ => {}
        }
        o.insert("s".into(), s);
        o.insert("e".into(), e);
        let off = if self.r.chance(0.5) {
            self.scalar(-800.0, 800.0, Over::Free)
        } else {
            Self::fixed(json!(0))
        };
        o.insert("o".into(), off);
        if self.r.chance(0.3) {
            o.insert("m".into(), json!(1));
        }
        Value::Object(o)
    }

    /// Modifiers the library models but does not draw.
    pub fn modifier(&mut self) -> Value {
        let kind = self.r.below(6);
        let mut o;
        match kind {
            0 => {
                o = self.base("rd");
                o.insert("r".into(), self.scalar(0.0, 30.0, Over::Clamp));
            }
            1 => {
                o = self.base("pb");
                o.insert("a".into(), self.scalar(-50.0, 50.0, Over::Clamp));
            }
            2 => {
                o = self.base("op");
                o.insert("a".into(), self.scalar(-20.0, 20.0, Over::Clamp));
                o.insert("lj".into(), json!(2));
                o.insert("ml".into(), json!({"a":0,"k":4}));
            }
            3 => {
                o = self.base("mm");
                o.insert("mm".into(), json!(self.r.int(1, 5)));
            }
            4 => {
                o = self.base("tw");
                o.insert("a".into(), self.scalar(-90.0, 90.0, Over::Clamp));
                o.insert("p".into(), self.vector(-50.0, 50.0, 2, Over::Free));
            }
            _ => {
                o = self.base("rp");
                o.insert("c".into(), self.scalar(0.0, 5.0, Over::Clamp));
                o.insert("o".into(), self.scalar(-1.0, 2.0, Over::Clamp));
                o.insert("m".into(), json!(self.r.int(1, 2)));
                let mut t = self.transform_parts(0.5, false);
                t.insert("ty".into(), json!("tr"));
                t.remove("o");
                t.insert("so".into(), json!({"a":0,"k":100}));
                t.insert("eo".into(), json!({"a":0,"k":50}));
                o.insert("tr".into(), Value::Object(t));
            }
        }
        Value::Object(o)
    }

    /// A repeater for the runtime model (not part of a file; injected after loading).
    pub fn repeater(&mut self) -> Value {
        let copies = if self.r.chance(0.6) {
            Self::fixed(json!(self.count(0, 6, 150)))
        } else {
            self.scalar(0.0, 12.0, Over::Clamp)
        };
        let small = self.r.chance(0.3);
        json!({
            "ty": "__repeater",
            "c": copies,
            "o": if small { Self::fixed(json!(0)) } else { self.scalar(-2.0, 3.0, Over::Clamp) },
            "a": self.vector(-50.0, 50.0, 2, Over::Free),
            "p": self.vector(-50.0, 50.0, 2, Over::Free),
            "r": self.scalar(-90.0, 90.0, Over::Free),
            "s": self.vector(40.0, 130.0, 2, Over::Clamp),
            "so": self.scalar(0.0, 100.0, Over::Clamp),
            "eo": self.scalar(0.0, 100.0, Over::Clamp),
        })
    }
}

/// Whole thousandths, which the JSON parser reads exactly.
fn moved(t: f64, d: f64) -> f64 {
    ((t + d) * 1000.0).round() / 1000.0
}

fn shift_prop(v: &mut Value, d: f64) {
    if let Some(ks) = v.get_mut("k").and_then(|k| k.as_array_mut()) {
        for k in ks {
            if let Some(t) = k.get("t").and_then(|t| t.as_f64()) {
                k["t"] = json!(moved(t, d));
            }
        }
    }
}

/// Every time of the top-level timeline moved by `d`.
pub fn shift_doc(doc: &mut Value, d: f64) {
    let keys: Vec<(String, K)> = schema::sites(doc)
        .into_iter()
        .filter(|s| !s.ptr.starts_with("/assets/"))
        .map(|s| (s.ptr, s.kind))
        .collect();
    for (p, k) in keys {
        let v = doc.pointer_mut(&p).unwrap();
        match k {
            K::Scalar | K::Vector | K::Color | K::Position | K::Path => shift_prop(v, d),
            K::Animation | K::Layer => {
                for x in ["ip", "op", "st"] {
                    if let Some(t) = v.get(x).and_then(|t| t.as_f64()) {
                        v[x] = json!(moved(t, d));
                    }
                }
            }
            _ => {}
        }
    }
}

// ----- frames ---------------------------------------------------------------

fn collect_times(v: &Value, a: f64, b: f64, out: &mut Vec<f64>) {
    match v {
        Value::Array(x) => x.iter().for_each(|y| collect_times(y, a, b, out)),
        Value::Object(o) => {
            for (k, y) in o {
                if k == "t" && y.is_number() && (o.contains_key("s") || o.len() <= 4) {
                    if let Some(t) = y.as_f64() {
                        out.push(a * t + b);
                    }
                } else if k == "layers" || k == "assets" {
                    continue;
                } else {
                    collect_times(y, a, b, out);
                }
            }
        }
        _ => {}
    }
}

fn layer_times(doc: &Value, layers: &Value, a: f64, b: f64, depth: usize, out: &mut Vec<f64>) {
    for l in layers.as_array().into_iter().flatten() {
        for k in ["ip", "op"] {
            if let Some(t) = l[k].as_f64() {
                out.push(a * t + b);
            }
        }
        collect_times(l, a, b, out);
        if l["ty"] == json!(0) && depth < 6 && out.len() < 3000 {
            let st = l["st"].as_f64().unwrap_or(0.0);
            let sr = l["sr"].as_f64().unwrap_or(1.0);
            for asset in doc["assets"].as_array().into_iter().flatten() {
                if asset["id"] == l["refId"] {
                    // local = (global - st)/sr  => global = sr*local + st
                    layer_times(doc, &asset["layers"], a * sr, a * st + b, depth + 1, out);
                }
            }
        }
    }
}

/// Frames at which something happens, plus ordinary ones.
pub fn frames(doc: &Value, r: &mut Rng, n: usize) -> Vec<f64> {
    let mut t = vec![];
    layer_times(doc, &doc["layers"], 1.0, 0.0, 0, &mut t);
    t.retain(|x| x.is_finite() && x.abs() < 8000.0);
    let op = doc["op"].as_f64().unwrap_or(60.0).clamp(-1e6, 1e6);
    let ip = doc["ip"].as_f64().unwrap_or(0.0).clamp(-1e6, 1e6);
    let lo = if ip.abs() < 20.0 { 0.0 } else { ip };
    let hi = op.max(lo + 1.0);
    let mut out = vec![];
    for _ in 0..n {
        let f = if !t.is_empty() && r.chance(0.55) {
            let x = *r.pick(&t);
            match r.below(6) {
                0..=2 => x,
                3 => x + 0.001,
                4 => x - 0.001,
                _ => (x + *r.pick(&t)) * 0.5,
            }
        } else {
            match r.below(10) {
                0 => r.int(lo as i64, hi as i64) as f64,
                1 => r.range(-1000.0, 1000.0),
                _ => r.range(lo - 6.0, hi + 6.0),
            }
        };
        out.push(f);
    }
    out
}
