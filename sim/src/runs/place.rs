//! C09: which crates a path names, on a filesystem that has links, faults and a life of its own.

use super::graph::{Graph, expected, observe, same_crates, short};
use super::process::any_peer;
use crate::cargo;
use crate::config::{self, Op};
use crate::kernel::{self, Fs, FsEv, Node};
use crate::model::{Config, Filter};
use crate::peer::Want;
use crate::rng::Rng;
use crate::sim::{Cx, faults, panic_text};
use crate::world::{Shape, World};
use krates::{Package, cm};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Clone, Debug)]
struct Visit {
    cfg: Config,
    ops: Vec<Op>,
    want: Want,
    paths: Vec<String>,
    seed: u64,
    /// what happens to the files first
    before: Option<FsEv>,
}

struct Got {
    /// what the files were like, from when it started until it was done
    states: Vec<Fs>,
    res: Result<Result<Graph, krates::Error>, String>,
}

/// Puts the workspace somewhere in a filesystem, with links between where its metadata says
/// it is and where it is
fn settle(w: &World, fs: &mut Fs, r: &mut Rng) {
    let moved = r.pct(30);
    let at = |p: &str| match p.strip_prefix("/sim/") {
        Some(rest) if moved => format!("/disk/s/{rest}"),
        _ => p.to_owned(),
    };
    if moved {
        fs.link("/sim", "/disk/s");
    }
    let mut dirs = vec![w.ws_root.clone()];
    dirs.extend(w.pkgs.iter().filter(|p| p.src == crate::world::Src::Path).map(|p| p.dir.clone()));
    dirs.sort();
    dirs.dedup();
    let (by_dir, by_file) = (*r.pick(&[0, 0, 50, 100]), *r.pick(&[0, 0, 50, 100]));
    for (i, d) in dirs.iter().enumerate() {
        let mut d = at(d);
        let inner = dirs.iter().any(|o| o.starts_with(&format!("{}/", dirs[i])));
        if !inner && r.pct(by_dir) {
            let real = format!("/disk/d{i}");
            if r.pct(30) {
                let up = "../".repeat(d.matches('/').count() - 1);
                fs.link(&d, &format!("{up}disk/d{i}"));
            } else {
                fs.link(&d, &real);
            }
            d = real;
        }
        if r.pct(by_file) {
            let real = match r.below(3) {
                0 => format!("/disk/blobs/{i:04x}"),
                1 => format!("/disk/farm/{i}/Cargo.toml"),
                _ => format!("{d}/.manifest"),
            };
            fs.file(&real);
            fs.link(&format!("{d}/Cargo.toml"), &real);
        } else {
            fs.file(&format!("{d}/Cargo.toml"));
        }
    }
    fs.file("/other/ws/Cargo.toml");
    for m in &w.members {
        let (_, n) = w.pkgs[*m].dir.rsplit_once('/').unwrap();
        fs.file(&format!("/other/ws/{n}/Cargo.toml"));
    }
    fs.mkdirs("/alias");
}

fn targets(w: &World) -> Vec<String> {
    let mut v: Vec<String> = w.pkgs.iter().filter(|p| p.src == crate::world::Src::Path).map(|p| p.dir.clone()).collect();
    v.push(w.ws_root.clone());
    v
}

fn aliases(w: &World, fs: &mut Fs, r: &mut Rng) -> Vec<String> {
    let mut v = Vec::new();
    for i in 0..r.below(5) {
        let t = r.pick(&targets(w)).clone();
        let name = *r.pick(&["a", "Cargo.toml", "x.toml", "b"]);
        let p = format!("/alias/{i}/{name}");
        match r.below(6) {
            0 => fs.link(&p, &p),
            1 => fs.link(&p, "/nowhere/at/all"),
            // a directory of the name of a manifest says nothing
            2 | 3 if name != "Cargo.toml" => fs.link(&p, &t),
            _ => fs.link(&p, &format!("{t}/Cargo.toml")),
        }
        v.push(p);
    }
    v
}

fn path(w: &World, fs: &Fs, aliases: &[String], r: &mut Rng) -> String {
    let member = w.pkgs[*r.pick(&w.members)].dir.clone();
    let t = match r.below(20) {
        0..=2 => w.ws_root.clone(),
        3 => "/other/ws".to_owned(),
        4 => "/sim/nowhere/at-all".to_owned(),
        5 => r.pick(&targets(w)).clone(),
        6 => format!("/other/ws/{}", member.rsplit('/').next().unwrap()),
        7 if !aliases.is_empty() => return r.pick(aliases).clone(),
        8 if !aliases.is_empty() => return r.pick(aliases).clone(),
        _ => member,
    };
    let manifest = r.pct(50);
    let mut p = if manifest { format!("{t}/Cargo.toml") } else { t.clone() };
    match r.below(12) {
        0 => {
            if let Ok(real) = fs.resolve(&p) {
                p = real;
            }
        }
        1 => {
            if let Ok(real) = fs.resolve(&t) {
                p = if manifest { format!("{real}/Cargo.toml") } else { real };
            }
        }
        2 => {
            let (a, b) = p.rsplit_once('/').unwrap();
            p = format!("{a}/./{b}");
        }
        3 => {
            let (a, b) = p.rsplit_once('/').unwrap();
            p = format!("{a}//{b}");
        }
        4 if !manifest => p.push('/'),
        5 if !manifest => {
            let (a, b) = p.rsplit_once('/').unwrap();
            p = format!("{a}/{b}/../{b}");
        }
        6 | 7 => {
            // from where the user is
            let from: Vec<&str> = fs.cwd.split('/').filter(|c| !c.is_empty()).collect();
            let to: Vec<&str> = p.split('/').filter(|c| !c.is_empty()).collect();
            let n = from.iter().zip(&to).take_while(|(x, y)| x == y).count();
            let mut v = vec![".."; from.len() - n];
            v.extend(&to[n..]);
            p = if v.is_empty() { ".".to_owned() } else { v.join("/") };
        }
        _ => {}
    }
    p
}

/// Whether a path is as it is written the other one
fn written(p: &str, q: &str) -> bool {
    Path::new(p) == Path::new(q)
}

#[derive(Clone, Copy, Debug, PartialEq)]
struct Says {
    surely: bool,
    maybe: bool,
}

/// Whether a path names what has its manifest in a directory
fn names(p: &str, dir: &str, states: &[Fs], calm: bool) -> Says {
    let manifest = format!("{dir}/Cargo.toml");
    let in_words = written(p, dir) || written(p, &manifest);
    let below = format!("{}/Cargo.toml", p.trim_end_matches('/'));
    let same = |a: &str, b: &str| {
        states.iter().any(|s| s.resolve(a).is_ok_and(|x| states.iter().any(|t| t.resolve(b).as_ref() == Ok(&x))))
    };
    let by_file = same(p, &manifest) || same(p, dir);
    let maybe = in_words || by_file || same(&below, &manifest);
    let gone = |q: &str| states.iter().all(|s| s.resolve(q).is_err());
    let there = !gone(&manifest) && !gone(dir);
    let absent = gone(p) && gone(&manifest) && gone(dir);
    Says { surely: calm && ((there && by_file) || (absent && in_words)), maybe }
}

fn change(world: &World, fs: &Fs, names_of: &[String], r: &mut Rng) -> FsEv {
    let d = r.pick(&targets(world)).clone();
    let d = fs.resolve(&d).unwrap_or(d);
    match r.below(5) {
        0 => FsEv::Remove(format!("{d}/Cargo.toml")),
        1 => FsEv::Remove(d),
        2 if !names_of.is_empty() => {
            let p = r.pick(names_of).clone();
            let t = r.pick(&targets(world)).clone();
            let t = if p.ends_with("/Cargo.toml") { format!("{t}/Cargo.toml") } else { t };
            FsEv::Put(p, Node::Link(t))
        }
        3 => FsEv::Put(format!("{d}/Cargo.toml"), Node::Link("/other/ws/Cargo.toml".to_owned())),
        _ => FsEv::Put(format!("{d}/Cargo.toml"), Node::File),
    }
}

pub fn c09(cx: &mut Cx) {
    let mut r = cx.rng("plan");
    let clients = *r.pick(&[1, 1, 1, 2]);
    let f = faults(&mut r, clients, false);
    let mut wr = cx.rng("world");
    let mut shape = Shape::draw(&mut wr);
    shape.members = *r.pick(&[(1, 3), (2, 5), (1, 1)]);
    let world = World::generate(&mut wr, &shape);
    let peer = any_peer(&mut r);
    let mut k = cx.kernel("sched", f);
    let mut fr = cx.rng("files");
    let elsewhere = fr.pct(15);
    let mut names_of = Vec::new();
    if elsewhere {
        // the workspace is on another machine
        k.fs.file("/home/user/Cargo.toml");
        k.fs.cwd = "/home/user".to_owned();
    } else {
        settle(&world, &mut k.fs, &mut fr);
        names_of = aliases(&world, &mut k.fs, &mut fr);
        k.fs.cwd = fr.pick(&[world.ws_root.clone(), "/".to_owned(), world.pkgs[world.members[0]].dir.clone(), "/alias".to_owned()]).clone();
        // the kernel has no links in its working directory
        if let Ok(d) = k.fs.resolve(&k.fs.cwd.clone()) {
            k.fs.cwd = d;
        }
    }
    if fr.pct(35) {
        k.fs.fail = *fr.pick(&[5, 20, 60, 100]);
        k.fs.errnos = vec![libc::EACCES, libc::EIO, libc::ELOOP, libc::ENOENT, libc::ENOMEM, libc::ESTALE, libc::ENAMETOOLONG];
    }
    if !elsewhere && fr.pct(30) {
        let mut n = 0;
        for _ in 0..1 + fr.below(3) {
            n += 1 + fr.below(6) as u32;
            let e = change(&world, &k.fs, &names_of, &mut fr);
            k.fs.script.push_back((n, e));
        }
    }
    let unavailable = k.fs.fail == 100;
    let steady = k.fs.fail == 0 || unavailable;
    let moves = !elsewhere && fr.pct(40);
    if cx.tracing {
        cx.out.trace.extend(world.describe());
        let t = format!("in {}; fails {}%; changes {:?}; {:?}", k.fs.cwd, k.fs.fail, k.fs.script, k.fs.nodes);
        cx.say(|| t);
    }
    let layout = {
        let mut fs = Fs { cwd: "/".to_owned(), ..Default::default() };
        world.layout(&mut fs);
        fs
    };
    let mut plan: Vec<Vec<Visit>> = Vec::new();
    for c in 0..clients {
        let mut jr = cx.rng(&format!("visits{c}"));
        let mut v: Vec<Visit> = Vec::new();
        for _ in 0..*jr.pick(if moves { &[2, 2, 3] } else { &[1, 1, 2] }) {
            let mut cfg = config::draw(&world, &mut jr);
            cfg.filters.clear();
            if jr.pct(40) {
                // only the crates that are selected
                cfg.ignore = crate::world::Kind::ALL.iter().map(|k| (*k, crate::model::Sc::All)).collect();
            }
            let mut ops = config::ops(&world, &cfg, &mut jr);
            let fs = &k.fs;
            let before = (moves && !v.is_empty() && jr.pct(80)).then(|| change(&world, fs, &names_of, &mut jr));
            let mut paths: Vec<String> = (0..*jr.pick(&[1, 1, 2, 3, 4])).map(|_| path(&world, fs, &names_of, &mut jr)).collect();
            if let Some(l) = v.last()
                && before.is_some()
                && jr.pct(75)
            {
                paths.clone_from(&l.paths);
            } else if moves && !names_of.is_empty() && jr.pct(50) {
                paths[0] = jr.pick(&names_of).clone();
            }
            if jr.pct(60) {
                let i = jr.below(ops.len() + 1);
                ops.insert(i, Op::Include(paths.clone()));
            } else {
                for p in &paths {
                    let i = jr.below(ops.len() + 1);
                    ops.insert(i, Op::Include(vec![p.clone()]));
                }
            }
            let want = Want::draw(&world, &mut jr);
            v.push(Visit { cfg, ops, want, paths, seed: jr.next(), before });
        }
        cx.say(|| format!("client {c}: {v:?}"));
        plan.push(v);
    }
    let docs: Vec<Vec<Option<String>>> = plan
        .iter()
        .map(|vs| {
            vs.iter()
                .map(|v| {
                    let req = v.want.understood(&world, &layout).ok()?;
                    let res = cargo::resolve(&world, &req);
                    Some(cargo::metadata(&world, &res, peer, Some(&mut Rng::new(v.seed))).plain())
                })
                .collect()
        })
        .collect();
    let jobs = plan
        .iter()
        .zip(&docs)
        .map(|(vs, ds)| {
            let (vs, ds) = (vs.clone(), ds.clone());
            let b: Box<dyn FnOnce() -> Vec<Option<Got>> + Send> = Box::new(move || {
                vs.iter()
                    .zip(ds)
                    .map(|(v, d)| {
                        if let Some(e) = &v.before {
                            kernel::step("the files change");
                            kernel::quiet(|| {
                                kernel::with(|k| {
                                    k.fs.apply(e);
                                    k.count("fault.files-changed");
                                })
                            });
                        }
                        let d = d?;
                        let from = kernel::with(|k| k.fs.past.len());
                        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                            let b = config::builder(&v.ops);
                            let md: cm::Metadata = serde_json::from_str(&d).expect("a document of ours");
                            b.build_with_metadata(md, |_: Package| {})
                        }));
                        let states = kernel::quiet(|| {
                            kernel::with(|k| {
                                let now = |nodes: &BTreeMap<String, Node>| Fs { nodes: nodes.clone(), cwd: k.fs.cwd.clone(), ..Default::default() };
                                k.fs.past[from..].iter().map(now).chain([now(&k.fs.nodes)]).collect()
                            })
                        });
                        Some(Got { states, res: res.map_err(|p| panic_text(&*p)) })
                    })
                    .collect()
            });
            b
        })
        .collect();
    let (_k, res) = cx.run(k, jobs);
    let (mut exact, mut loose) = (0, 0);
    for (c, v) in res.into_iter().enumerate() {
        let all = match v {
            Ok(v) => v,
            Err(p) => return cx.fail("panic", format!("client {c} panicked: {p}")),
        };
        for (i, g) in all.into_iter().enumerate() {
            let Some(mut g) = g else { continue };
            let calm = steady && g.states.len() == 1;
            if unavailable {
                g.states.iter_mut().for_each(|s| s.nodes.clear());
            }
            let states = g.states;
            let v = &plan[c][i];
            let at = format!("client {c} visit {i} with {:?}", v.paths);
            let g = match g.res {
                Ok(g) => g,
                Err(p) => return cx.fail("panic", format!("{at}: {p}")),
            };
            let said: Vec<(usize, bool, bool)> = world
                .members
                .iter()
                .map(|m| {
                    let s: Vec<Says> = v.paths.iter().map(|p| names(p, &world.pkgs[*m].dir, &states, calm)).collect();
                    (*m, s.iter().any(|s| s.surely), s.iter().any(|s| s.maybe))
                })
                .collect();
            let root = if v.paths.len() == 1 {
                names(&v.paths[0], &world.ws_root, &states, calm)
            } else {
                Says { surely: false, maybe: false }
            };
            let sure: BTreeSet<usize> = said.iter().filter(|s| s.1).map(|s| s.0).collect();
            let open: Vec<usize> = said.iter().filter(|s| s.2 && !s.1).map(|s| s.0).collect();
            let mut sets: Vec<BTreeSet<usize>> = Vec::new();
            if !root.surely {
                for bits in 0..1usize << open.len() {
                    let mut s = sure.clone();
                    s.extend(open.iter().enumerate().filter(|(n, _)| bits >> n & 1 == 1).map(|(_, m)| *m));
                    sets.push(s);
                }
            }
            if root.maybe {
                sets.push(world.members.iter().copied().collect());
            }
            if sets.len() == 1 {
                exact += 1;
            } else {
                loose += 1;
            }
            let seen = match &g {
                Ok(g) => Some(observe(g, &world)),
                Err(krates::Error::NoRootKrates) => None,
                Err(e) => return cx.fail("no-graph", format!("{at}: {} instead of a graph", short(e))),
            };
            let mut first = None;
            let fits = sets.iter().any(|s| {
                let mut cfg = v.cfg.clone();
                cfg.filters = s.iter().map(|m| Filter::Pkg(*m)).chain([Filter::Other, Filter::Other]).collect();
                let x = expected(&world, &layout, &v.want, &cfg).expect("a request that was fine");
                let r = match &seen {
                    Some(seen) if !x.e.present.is_empty() => same_crates(&world, &x.e, seen).map_err(|e| e.1),
                    Some(_) => Err("there is a graph, though no crate is named that is not excluded".to_owned()),
                    None if x.e.present.is_empty() => Ok(()),
                    None => Err("no crate was selected".to_owned()),
                };
                let ok = r.is_ok();
                if let Err(t) = r {
                    first.get_or_insert(t);
                }
                ok
            });
            cx.out.evals += 1;
            if !fits {
                let n = |s: &BTreeSet<usize>| s.iter().map(|m| world.pkgs[*m].dir.clone()).collect::<Vec<_>>();
                return cx.fail(
                    "selected",
                    format!(
                        "{at}: these should be selected: {:?}{}, but {}",
                        n(&sure),
                        if sets.len() > 1 { format!(", or some of {:?} as well", open.iter().map(|m| &world.pkgs[*m].dir).collect::<Vec<_>>()) } else { String::new() },
                        first.unwrap_or_default()
                    ),
                );
            }
            cx.reached(&format!("{sure:?} {open:?} {:?}", seen.map(|s| s.order)));
        }
    }
    cx.count("outcome.exact", exact);
    cx.count("outcome.bounded", loose);
    if elsewhere {
        cx.count("fault.other-machine", 1);
    }
    cx.out.nontrivial = exact + loose > 0;
    cx.out.sample = format!("{exact} selections decided exactly, {loose} within bounds");
}
