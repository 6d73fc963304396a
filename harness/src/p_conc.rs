//! Rendering and loading from many threads: P29.

use crate::base::*;
use crate::docgen::{self, Profile};
use crate::ev::{Ev, Recorder};
use crate::obs::Obs;
use crate::p_load::{dump, same_events};
use crate::refm;
use crate::rng::{Rng, hash_str};
use crate::run::{Prop, guard};
use crate::text;
use serde_json::{Value, json};
use std::sync::Barrier;
use std::sync::atomic::{AtomicU64, Ordering};
use velato::{Composition, Renderer};

fn p29_make(r: &mut Rng) -> Value {
    let docs: Vec<Value> = (0..r.int(1, 3))
        .map(|_| {
            let mut p = Profile::full();
            p.anim = 0.5;
            p.path_anim = 0.6;
            p.mask = 0.4;
            p.trim = 0.4;
            p.missing = 0.4;
            p.layers = (1, 4);
            p.parent = 0.5;
            p.dangling = 0.2;
            docgen::doc(r, &p)
        })
        .collect();
    let frames: Vec<Value> = docs
        .iter()
        .map(|d| Value::Array(docgen::frames(d, r, 4).into_iter().map(enc).collect()))
        .collect();
    json!({"docs":docs,"frames":frames,"threads":r.int(2, 8),"jobs":r.int(4, 16),"load":r.chance(0.5),
        "seed":r.int(0, 1 << 40)})
}

struct Done {
    /// (doc, frame, log)
    logs: Vec<(usize, usize, Vec<Ev>)>,
    /// (doc, text of the animation)
    dumps: Vec<(usize, String)>,
}

/// All threads start at once; each draws random frames of the shared animations with its
/// own renderer and loads documents in between.
fn storm(
    c: &Value,
    texts: &[String],
    comps: Option<&[Composition]>,
    switches: &AtomicU64,
) -> Result<Vec<Done>, String> {
    let threads = c["threads"].as_u64().unwrap() as usize;
    let jobs = c["jobs"].as_u64().unwrap() as usize;
    let seed = c["seed"].as_u64().unwrap();
    let load = c["load"] == true || comps.is_none();
    let frames: Vec<Vec<f64>> = c["frames"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| f.as_array().unwrap().iter().map(num).collect())
        .collect();
    let barrier = Barrier::new(threads);
    let last = AtomicU64::new(u64::MAX);
    let out: Vec<Result<Done, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (barrier, frames, last) = (&barrier, &frames, &last);
                s.spawn(move || -> Result<Done, String> {
                    let mut r = Rng::derive(seed, "storm", t as u64);
                    let mut own = Renderer::new();
                    let mut done = Done {
                        logs: vec![],
                        dumps: vec![],
                    };
                    let mut loaded = vec![];
                    barrier.wait();
                    for _ in 0..jobs {
                        if last.swap(t as u64, Ordering::Relaxed) != t as u64 {
                            switches.fetch_add(1, Ordering::Relaxed);
                        }
                        let d = r.below(texts.len());
                        if load && (comps.is_none() || r.chance(0.3)) {
                            let x = guard(|| Composition::from_slice(texts[d].as_bytes()))?
                                .map_err(|e| {
                                    format!("a valid document was rejected in a thread: {e}")
                                })?;
                            loaded.push((d, x));
                        } else if let Some(comps) = comps {
                            let f = r.below(frames[d].len());
                            let mut rec = Recorder::new(BUDGET);
                            rec.jitter = Some(Rng::new(r.u64()));
                            guard(|| {
                                own.append(
                                    &comps[d],
                                    frames[d][f],
                                    kurbo::Affine::IDENTITY,
                                    1.0,
                                    &mut rec,
                                )
                            })
                            .map_err(|m| format!("thread {t}: rendering {m}"))?;
                            done.logs.push((d, f, rec.evs));
                        }
                    }
                    done.dumps = loaded.iter().map(|(d, x)| (*d, dump(x))).collect();
                    Ok(done)
                })
            })
            .collect();
        hs.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into())))
            .collect()
    });
    out.into_iter().collect()
}

fn p29_check(c: &Value, obs: &mut Obs) -> Result<(), String> {
    if c["fresh"] == true {
        return fresh(c, obs);
    }
    let texts: Vec<String> = c["docs"]
        .as_array()
        .unwrap()
        .iter()
        .map(text::plain)
        .collect();
    let frames: Vec<Vec<f64>> = c["frames"]
        .as_array()
        .unwrap()
        .iter()
        .map(|f| f.as_array().unwrap().iter().map(num).collect())
        .collect();
    let switches = AtomicU64::new(0);
    // loading from all threads first: in a new process this is also the first use of
    // everything that is initialised lazily
    let first = if c["load"] == true {
        storm(c, &texts, None, &switches)?
    } else {
        vec![]
    };
    let comps: Vec<Composition> = texts
        .iter()
        .map(|t| load_text(t))
        .collect::<Result<_, _>>()?;
    let second = storm(c, &texts, Some(&comps), &switches)?;
    // the sequential results, afterwards
    let dumps: Vec<String> = comps.iter().map(dump).collect();
    let mut want: Vec<Vec<Option<Vec<Ev>>>> = frames.iter().map(|f| vec![None; f.len()]).collect();
    for d in first.iter().chain(&second) {
        for (i, t) in &d.dumps {
            if *t != dumps[*i] {
                return Err(format!(
                    "document {i} loaded in a thread gives another animation than loaded alone"
                ));
            }
            obs.count("concurrent loads compared", 1);
        }
        for (i, f, evs) in &d.logs {
            let w = &mut want[*i][*f];
            if w.is_none() {
                *w = Some(render(&comps[*i], frames[*i][*f], refm::ID, 1.0)?);
            }
            same_events(evs, w.as_ref().unwrap()).map_err(|m| {
                format!(
                    "document {i}, frame {}: concurrent against sequential render: {m}",
                    frames[*i][*f]
                )
            })?;
            obs.count("concurrent renders compared", 1);
            obs.count("drawing calls compared", evs.len() as u64);
        }
    }
    let again: Vec<Composition> = texts
        .iter()
        .map(|t| load_text(t))
        .collect::<Result<_, _>>()?;
    if again.iter().map(dump).collect::<Vec<_>>() != dumps
        || comps.iter().map(dump).collect::<Vec<_>>() != dumps
    {
        return Err("an animation changed while it was rendered from several threads".into());
    }
    let sw = switches.load(Ordering::Relaxed);
    obs.count("job starts that followed a job start of another thread", sw);
    obs.max("threads", c["threads"].as_u64().unwrap());
    obs.eval(hash_str(&c.to_string()), sw > 1);
    Ok(())
}

/// The same in a new process, so that lazily initialised state is first used by all threads at once.
fn fresh(c: &Value, obs: &mut Obs) -> Result<(), String> {
    let mut inner = c.clone();
    inner["fresh"] = json!(false);
    let dir = std::env::temp_dir().join(format!("velato-p29-{}-{}", std::process::id(), c["seed"]));
    std::fs::create_dir_all(&dir)
        .map_err(|e| e.to_string())
        .unwrap();
    let f = dir.join("case.json");
    std::fs::write(
        &f,
        serde_json::to_vec(&json!({"property":"P29","case":inner})).unwrap(),
    )
    .unwrap();
    let mut r = Ok(());
    for _ in 0..c["runs"].as_u64().unwrap_or(4) {
        let o = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["one", "P29"])
            .arg(&f)
            .output()
            .unwrap();
        if o.status.code() != Some(0) {
            let t = format!(
                "{}{}",
                String::from_utf8_lossy(&o.stdout),
                String::from_utf8_lossy(&o.stderr)
            );
            r = Err(format!(
                "in a new process ({}): {}",
                o.status,
                t.chars().take(1500).collect::<String>()
            ));
            break;
        }
        obs.count("new processes whose first use was concurrent", 1);
    }
    let _ = std::fs::remove_dir_all(&dir);
    r?;
    obs.eval(hash_str(&c.to_string()), true);
    Ok(())
}

fn p29_fixed() -> Vec<(String, Value)> {
    (0..16)
        .map(|i| {
            let mut r = Rng::derive(29, "fresh", i);
            let mut c = p29_make(&mut r);
            c["fresh"] = json!(true);
            c["threads"] = json!(8);
            c["load"] = json!(true);
            c["runs"] = json!(4);
            (format!("first use {i}"), c)
        })
        .collect()
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P29",
        fixed: p29_fixed,
        make: p29_make,
        check: p29_check,
        quick: 400,
        thorough: 60_000,
        rule: "2 to 8 threads started together share animations, each drawing random frames with its own renderer and \
loading documents in between, the sink injecting yields, sleeps and spins; every log and every loaded animation is \
compared exactly with a sequential one made afterwards, also in new processes whose first use of the library is \
concurrent. Distinct: by case. Non-trivial: the job starts of different threads interleaved. Data races and undefined \
behaviour are watched for by Miri on a small fixed workload over many schedules and by ThreadSanitizer on this one \
(see the log and the other counters).",
        assumptions: &["the interleavings the operating system and the injected delays produced"],
        hang: 40,
    }]
}
