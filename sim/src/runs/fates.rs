//! C14: builds that can not give a graph.

use super::graph::{Done, Fate, Job, Route, Scene, fate, observe, scene_with, short};
use super::process;
use crate::doc;
use crate::kernel::Kernel;
use crate::ledger::Ev;
use crate::peer::Mood;
use crate::model::{Filter, Spec};
use crate::rng::Rng;
use crate::sim::Cx;
use crate::world::World;
use krates::cm;

/// A configuration that leaves little
fn starve(w: &World, j: &mut Job, r: &mut Rng) {
    let by_name = |k: usize| {
        let name = w.pkgs[k].name.clone();
        Spec { text: name.clone(), name, version: None, url: None }
    };
    match r.below(6) {
        0 => {
            for m in &w.members {
                let s = by_name(*m);
                if r.pct(85) && !j.cfg.exclude.contains(&s) {
                    j.cfg.exclude.push(s);
                }
            }
        }
        1 => j.cfg.filters = vec![Filter::Other],
        2 => {
            j.cfg.filters = vec![Filter::Pkg(*r.pick(&w.members))];
            if let Filter::Pkg(m) = j.cfg.filters[0] {
                j.cfg.exclude.push(by_name(m));
            }
        }
        3 => j.want.no_deps = true,
        4 => j.hollow = true,
        _ => {}
    }
    j.ops = crate::config::ops(w, &j.cfg, r);
}

/// The callbacks a build made
fn calls(d: &Done) -> usize {
    d.tab.events().iter().filter(|e| matches!(e, Ev::Node { .. } | Ev::Edge { .. } | Ev::Filtered { .. })).count()
}

pub fn c14(cx: &mut Cx) {
    let sc = scene_with(cx, 3, &mut starve);
    if let Some(m) = sc.host.lock().unwrap().moods.first_mut() {
        let mut r = cx.rng("moods");
        if r.pct(40) {
            for m in m.iter_mut() {
                *m = match crate::peer::mood(&mut r) {
                    // a document that contradicts itself is nobody's fault but its own
                    Mood::Garbles => Mood::Truncates,
                    m => m,
                };
            }
        }
    }
    let Some((k, all)) = sc.play(cx) else { return };
    let mut kinds = [0u64; 4];
    for (c, v) in all.iter().enumerate() {
        for d in v {
            let j = sc.job(c, d.step);
            cx.out.evals += 1;
            let at = format!("client {c} step {} ({:?})", d.step, j.route);
            if let Some(p) = &d.panicked {
                return cx.fail("panic", format!("{at}: {p}"));
            }
            if d.res.is_err() && calls(d) > 0 {
                return cx.fail("effects", format!("{at}: failed with {} after {} callbacks", d.res.as_ref().map_or_else(short, |_| String::new()), calls(d)));
            }
            let f = fate(&sc, d, j, &k.fs);
            let says = match (&f, &d.res) {
                (Fate::Graph(x, w), Ok(g)) => {
                    kinds[0] += 1;
                    let s = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| observe(g, w))) {
                        Ok(s) => s,
                        Err(p) => return cx.fail("crates", format!("{at}: {}", crate::sim::panic_text(&*p))),
                    };
                    let excluded = |k: &usize| j.cfg.exclude.iter().any(|e| e.matches(w, *k));
                    match x.e.roots.iter().find(|r| !excluded(r) && !s.order.contains(r)) {
                        Some(r) => Err(format!("the root {} is not in the graph", w.pkgs[*r].name)),
                        None => Ok("graph"),
                    }
                }
                (Fate::NoResolve, Err(krates::Error::NoResolveGraph)) => {
                    kinds[1] += 1;
                    Ok("no resolution")
                }
                (Fate::NoRoots, Err(krates::Error::NoRootKrates)) => {
                    kinds[2] += 1;
                    Ok("no roots")
                }
                (Fate::Refused | Fate::Hurt, _) if matches!(j.route, Route::Stream | Route::Text | Route::Value) => Ok("nothing stored"),
                (Fate::Refused | Fate::Hurt, r) => {
                    kinds[3] += 1;
                    passed_on(&sc, &k, d, r.as_ref().err(), j)
                }
                (Fate::Graph(..), Err(e)) => Err(format!("{} instead of a graph", short(e))),
                (Fate::NoResolve, r) => Err(format!("{} instead of the error for no resolution", r.as_ref().map_or_else(short, |_| "a graph".to_owned()))),
                (Fate::NoRoots, r) => Err(format!("{} instead of the error for no root crates", r.as_ref().map_or_else(short, |_| "a graph".to_owned()))),
            };
            match says {
                Ok(s) => cx.reached(s),
                Err(t) => return cx.fail("outcome", format!("{at}: {t}")),
            }
        }
    }
    for (n, k) in ["graph", "no-resolution", "no-roots", "acquisition-error"].iter().zip(kinds) {
        cx.count(&format!("outcome.{n}"), k);
    }
    cx.out.nontrivial = kinds[1] + kinds[2] + kinds[3] > 0;
    cx.out.sample = format!("{} graphs, {} without a resolution, {} without roots, {} acquisitions that failed", kinds[0], kinds[1], kinds[2], kinds[3]);
}

/// The error of an acquisition is the one the process gives cause to
fn passed_on(sc: &Scene, k: &Kernel, d: &Done, e: Option<&krates::Error>, j: &Job) -> Result<&'static str, String> {
    let kids = k.children();
    let child = d.pids.first().and_then(|p| kids.iter().find(|c| c.pid == *p));
    if d.injected.is_empty() && child.is_none() {
        return Err("no process was started".to_owned());
    }
    let h = sc.host.lock().unwrap();
    let doc = d.pids.first().and_then(|p| h.docs.iter().find(|v| v.0 == *p)).map(|v| doc::canon(&v.1.value()).unwrap());
    let w = process::want(&d.injected, child, doc.as_ref());
    if matches!(w, process::Want::Doc(_) | process::Want::BadJsonOr(_)) {
        // it is a document after all, or it may be one; then whatever the build says
        return Ok("odd document");
    }
    let Some(krates::Error::Metadata(e)) = e else {
        return Err(format!("{} instead of the error of the acquisition", e.map_or("a graph".to_owned(), short)));
    };
    let _ = j;
    // judged by what it carries; the error itself can not be cloned
    let e = clone_error(e);
    process::judge(&w, &Err(e)).map(|_| "acquisition error")
}

fn clone_error(e: &cm::Error) -> cm::Error {
    match e {
        cm::Error::Io(e) => cm::Error::Io(match e.raw_os_error() {
            Some(n) => std::io::Error::from_raw_os_error(n),
            None => e.kind().into(),
        }),
        cm::Error::CargoMetadata { stderr } => cm::Error::CargoMetadata { stderr: stderr.clone() },
        cm::Error::Utf8(e) => cm::Error::Utf8(*e),
        cm::Error::ErrUtf8(e) => cm::Error::ErrUtf8(e.clone()),
        cm::Error::Json(e) => cm::Error::Json(<serde_json::Error as serde::de::Error>::custom(e)),
        cm::Error::NoJson => cm::Error::NoJson,
    }
}
