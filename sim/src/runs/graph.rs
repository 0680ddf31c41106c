//! Users who acquire metadata and build graphs while others do the same and the workspace
//! changes: C04, C06, C07, C13, C14, C15.

use crate::cargo::{self, Peer, Resolved, pkg_id};
use crate::config::{self, Op};
use crate::json::{J, Style};
use crate::kernel::{self, Fs};
use crate::ledger::{self, Ed, Pk, Tab};
use crate::model::{self, Config, Expect};
use crate::observe::{self, Seen};
use crate::peer::{Host, Mood, Want};
use crate::rng::Rng;
use crate::sim::{Cx, faults};
use crate::world::{Shape, World};
use krates::cm::{self, MetadataCommand};
use krates::index::{BuildIndexCache, IndexKrate};
use krates::{Krates, Package};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::Read;
use std::sync::{Arc, Mutex};

pub type Graph = Krates<Pk, Ed>;

/// A stream that gives its bytes in pieces, at its own pace
pub struct Chunks {
    pub data: Vec<u8>,
    pub at: usize,
    pub rng: Rng,
    pub piece: usize,
    pub eintr: u32,
    /// reading fails here
    pub fail: Option<(usize, std::io::ErrorKind)>,
    pub reads: u64,
    pub interrupted: u64,
}

impl Chunks {
    pub fn new(data: Vec<u8>, mut rng: Rng) -> Self {
        let piece = *rng.pick(&[8192, 1 << 16, 1000, 17]);
        let eintr = *rng.pick(&[0, 3, 20]);
        Chunks { data, at: 0, rng, piece, eintr, fail: None, reads: 0, interrupted: 0 }
    }
}

impl Read for Chunks {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.reads += 1;
        if self.reads % 16 == 1 {
            kernel::step("read");
        }
        if self.eintr > 0 && self.rng.pct(self.eintr) {
            self.interrupted += 1;
            kernel::quiet(|| kernel::with(|k| k.count("fault.read-interrupted")));
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let end = self.fail.map_or(self.data.len(), |f| f.0);
        if self.at >= end
            && let Some((_, k)) = self.fail
        {
            return Err(k.into());
        }
        let n = buf.len().min(end - self.at);
        let n = if n > 1 { (1 + self.rng.below(self.piece.max(n / 400 + 1))).min(n) } else { n };
        if n < buf.len().min(end - self.at) {
            kernel::quiet(|| kernel::with(|k| k.count("fault.read-short")));
        }
        buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// How a user comes by the metadata
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Route {
    /// the builder runs the command
    Build,
    /// the builder runs a plain metadata command
    Plain,
    /// runs the command first, and builds later
    Exec,
    /// reads what a cargo left in a file, from a stream
    Stream,
    Text,
    Value,
}

#[derive(Clone, Debug)]
pub struct Job {
    pub cfg: Config,
    pub ops: Vec<Op>,
    pub want: Want,
    pub route: Route,
    pub style: Style,
    pub seed: u64,
    /// what the user does in the n-th callback
    pub deed: Option<(u64, Deed)>,
    pub index: Option<Index>,
    /// the contents of the packages are of interest
    pub keep: bool,
    /// the document says there are no packages at all
    pub hollow: bool,
}

#[derive(Clone, Debug)]
pub enum Deed {
    Panic,
    /// builds another graph
    Nest(Box<Job>),
}

/// What the user's index knows
#[derive(Clone)]
pub struct Index(pub Arc<BTreeMap<String, Option<IndexKrate>>>);

impl std::fmt::Debug for Index {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        for (n, k) in self.0.iter() {
            match k {
                None => write!(f, "{n}: none; ")?,
                Some(k) => {
                    for v in &k.versions {
                        write!(f, "{n} {}: {:?}; ", v.version, v.features)?;
                    }
                }
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug)]
pub enum Step {
    Build(Box<Job>),
    /// the workspace changes
    Work(u64),
    /// another cargo is installed
    Install(Peer),
    /// the user's link leads somewhere else
    Relink(String),
}

pub struct Done {
    pub step: usize,
    /// the state of the workspace the metadata is of
    pub state: Option<usize>,
    pub mood: Mood,
    /// calls of the system that failed
    pub injected: Vec<(&'static str, i32)>,
    pub pids: Vec<i32>,
    pub res: Result<Graph, krates::Error>,
    pub panicked: Option<String>,
    pub filtered: Vec<Package>,
    pub refused: bool,
    pub tab: Arc<Tab>,
    /// what cargo, in good health, said or would have said
    pub doc: Option<J>,
    /// builds made in a callback of this one
    pub nested: Vec<(Job, Done)>,
}

/// Where a client has a link of its own
pub fn link_of(client: usize) -> String {
    format!("/sim/links/c{client}")
}

pub fn job(w: &World, r: &mut Rng) -> Job {
    let cfg = config::draw(w, r);
    job_with(w, cfg, r)
}

pub fn job_with(w: &World, cfg: Config, r: &mut Rng) -> Job {
    Job {
        ops: config::ops(w, &cfg, r),
        cfg,
        want: Want::draw(w, r),
        route: *r.pick(&[Route::Build, Route::Build, Route::Plain, Route::Exec, Route::Stream, Route::Text, Route::Value]),
        style: Style { shuffle_keys: r.pct(15), escapes: r.pct(15), spaces: r.pct(15), newlines: r.pct(30) },
        seed: r.next(),
        deed: None,
        index: None,
        keep: false,
        hollow: false,
    }
}

/// Leaves no package in a document
pub fn hollow(doc: &mut J) {
    for k in ["packages", "workspace_members", "workspace_default_members"] {
        if let Some(v) = doc.get_mut(k) {
            *v = J::Arr(Vec::new());
        }
    }
    if let Some(r) = doc.get_mut("resolve") {
        if let Some(v) = r.get_mut("nodes") {
            *v = J::Arr(Vec::new());
        }
        if let Some(v) = r.get_mut("root") {
            *v = J::Null;
        }
    }
}

/// Acquires and builds, as the user of the job does
pub fn perform(client: usize, step: usize, j: &Job, host: &Arc<Mutex<Host>>) -> Done {
    let (inj, spawned, w) = kernel::quiet(|| {
        let (i, s) = kernel::with(|k| (k.injected.len(), k.spawns.len()));
        (i, s, host.lock().unwrap().states[0].clone())
    });
    let nested: Arc<Mutex<Vec<(Job, Done)>>> = Arc::default();
    let deed = j.deed.as_ref().map(|(at, d)| {
        let f: ledger::Deed = match d {
            Deed::Panic => Box::new(|| std::panic::panic_any(ledger::BOMB.to_owned())),
            Deed::Nest(job) => {
                let (job, host, nested) = (job.clone(), host.clone(), nested.clone());
                Box::new(move || {
                    let d = perform(client, step, &job, &host);
                    kernel::quiet(|| nested.lock().unwrap().push((*job, d)));
                })
            }
        };
        (*at, f)
    });
    let tab = Tab::new(j.keep, deed);
    let mut done = Done {
        step,
        state: None,
        mood: Mood::Fine,
        injected: Vec::new(),
        pids: Vec::new(),
        res: Err(krates::Error::InvalidPkgSpec("not run")),
        panicked: None,
        filtered: Vec::new(),
        refused: false,
        tab: tab.clone(),
        doc: None,
        nested: Vec::new(),
    };
    let mut filtered = Vec::new();
    let mut stored_doc = None;
    let mut refused = false;
    let mut state = None;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        tab.during(|| kernel::exposed(|| -> Result<Graph, krates::Error> {
            let mut builder = config::builder(&j.ops);
            if let Some(ix) = &j.index {
                let (ix, tab) = (ix.clone(), tab.clone());
                let f: BuildIndexCache = Box::new(move |names| {
                    tab.index(&names);
                    (*ix.0).clone()
                });
                builder.with_crates_io_index(f);
            }
            let on_filter = |p: Package| {
                tab.filtered(&p);
                filtered.push(p);
            };
            let stored = || {
                kernel::quiet(|| {
                    let fs = kernel::with(|k| k.fs.clone());
                    host.lock().unwrap().stored(&j.want, &fs).map(|(s, mut doc)| {
                        if j.hollow {
                            hollow(&mut doc);
                        }
                        let text = doc.print(j.style, &mut Rng::new(j.seed));
                        (s, doc, text)
                    })
                })
            };
            match j.route {
                Route::Build => builder.build(j.want.cmd(&w), on_filter),
                Route::Plain => builder.build(MetadataCommand::from(j.want.cmd(&w)), on_filter),
                Route::Exec => {
                    let md = MetadataCommand::from(j.want.cmd(&w)).exec();
                    kernel::step("metadata acquired");
                    match md {
                        Ok(md) => builder.build_with_metadata(md, on_filter),
                        Err(e) => Err(e.into()),
                    }
                }
                Route::Stream | Route::Text | Route::Value => match stored() {
                    Err(_) => {
                        refused = true;
                        Err(krates::Error::InvalidPkgSpec("refused"))
                    }
                    Ok((s, doc, text)) => {
                        state = Some(s);
                        let md: Result<cm::Metadata, serde_json::Error> = match j.route {
                            Route::Stream => serde_json::from_reader(Chunks::new(text.into_bytes(), Rng::new(j.seed))),
                            Route::Text => serde_json::from_str(&text),
                            _ => serde_json::from_value(doc.value()),
                        };
                        stored_doc = Some(doc);
                        kernel::step("metadata acquired");
                        match md {
                            Ok(md) => builder.build_with_metadata(md, on_filter),
                            Err(e) => Err(cm::Error::from(e).into()),
                        }
                    }
                },
            }
        }))
    }));
    match res {
        Ok(r) => done.res = r,
        Err(p) => done.panicked = Some(crate::sim::panic_text(&*p)),
    }
    tab.close();
    done.filtered = filtered;
    done.refused = refused;
    done.state = state;
    done.doc = stored_doc;
    kernel::quiet(|| {
        done.nested = std::mem::take(&mut *nested.lock().unwrap());
        let mut inner: Vec<i32> = Vec::new();
        for n in &done.nested {
            n.1.all_pids(&mut inner);
        }
        kernel::with(|k| {
            done.injected = k.injected[inj..].iter().filter(|v| v.0 == client).map(|v| (v.1, v.2)).collect();
            done.pids = k.spawns[spawned..].iter().filter(|s| s.client == client && !inner.contains(&s.pid)).map(|s| s.pid).collect();
            if let Some(pid) = done.pids.first() {
                let h = host.lock().unwrap();
                if let Some((_, st, m)) = h.found.iter().find(|f| f.0 == *pid) {
                    done.state = Some(*st);
                    done.mood = *m;
                }
                if let Some((_, doc)) = h.docs.iter().find(|d| d.0 == *pid) {
                    done.doc = Some(doc.clone());
                }
            }
        });
    });
    done
}

impl Done {
    /// the processes of it, and of the builds made in it
    fn all_pids(&self, to: &mut Vec<i32>) {
        to.extend(&self.pids);
        for n in &self.nested {
            n.1.all_pids(to);
        }
    }
}

pub fn work(host: &Arc<Mutex<Host>>, seed: u64) {
    kernel::step("the workspace changes");
    kernel::quiet(|| {
        let mut h = host.lock().unwrap();
        let w = h.world.evolve(&mut Rng::new(seed));
        h.change(w);
    });
}

pub fn install(host: &Arc<Mutex<Host>>, p: Peer) {
    kernel::step("another cargo is installed");
    kernel::quiet(|| host.lock().unwrap().peer = p);
}

/// The ids of the packages of a world, in either format
pub fn ids(w: &World) -> BTreeMap<String, usize> {
    (0..w.pkgs.len())
        .flat_map(|k| [(pkg_id(w, k, cargo::IdFormat::Stable), k), (pkg_id(w, k, cargo::IdFormat::Opaque), k)])
        .collect()
}

pub struct Expected {
    pub res: Resolved,
    pub e: Expect,
}

pub fn expected(w: &World, fs: &Fs, want: &Want, cfg: &Config) -> Option<Expected> {
    let req = want.understood(w, fs).ok()?;
    let res = cargo::resolve(w, &req);
    let e = model::expect(w, &res, cfg);
    Some(Expected { res, e })
}

fn names(w: &World, s: impl IntoIterator<Item = usize>) -> String {
    let v: Vec<String> = s.into_iter().map(|k| format!("{} {}", w.pkgs[k].name, w.pkgs[k].version)).collect();
    format!("[{}]", v.join(", "))
}

/// The crates and dependencies of a graph against those of the model
pub fn same_crates(w: &World, e: &Expect, s: &Seen) -> Result<(), (&'static str, String)> {
    let got: BTreeSet<usize> = s.order.iter().copied().collect();
    if got.len() != s.order.len() || s.len != s.order.len() {
        return Err(("crates", format!("{} crates are listed, {} are distinct, the length is {}", s.order.len(), got.len(), s.len)));
    }
    if got != e.present {
        return Err((
            "crates",
            format!(
                "the graph lacks {} and should not have {}",
                names(w, e.present.difference(&got).copied()),
                names(w, got.difference(&e.present).copied())
            ),
        ));
    }
    let want: BTreeSet<_> = e
        .present
        .iter()
        .flat_map(|k| model::dep_edges(w, e, *k).into_iter().map(|(t, kind, cfg)| (*k, t, kind, cfg)))
        .collect();
    if let Some(d) = want.difference(&s.deps).next() {
        return Err(("dependencies", format!("{} should depend on {} as {:?} {:?}", w.pkgs[d.0].name, w.pkgs[d.1].name, d.2, d.3)));
    }
    if let Some(d) = s.deps.difference(&want).next() {
        return Err(("dependencies", format!("{} should not depend on {} as {:?} {:?}", w.pkgs[d.0].name, w.pkgs[d.1].name, d.2, d.3)));
    }
    for ((k, d), got) in &s.resolved {
        let dep = &w.pkgs[*k].deps[*d];
        let want = e.decls[*k].contains(d).then_some(dep.to);
        if *got != want {
            return Err((
                "lookup",
                format!(
                    "dependency {d} ({}) of {} is {} instead of {}",
                    dep.key,
                    w.pkgs[*k].name,
                    names(w, *got),
                    names(w, want)
                ),
            ));
        }
    }
    Ok(())
}

/// The enabled features of a graph against those of the model; Ok has the number of implicit
/// features that are not listed though a `key/feature` keeps their dependency
pub fn same_features(w: &World, e: &Expect, s: &Seen) -> Result<u64, (&'static str, String)> {
    let mut implied = 0;
    for (k, got) in &s.feats {
        if !e.present.contains(k) {
            continue;
        }
        if let Some(f) = got.difference(&e.feats[*k]).next() {
            return Err(("features", format!("{} has the feature {f}, which nothing enables; enabled are {:?}", w.pkgs[*k].name, e.feats[*k])));
        }
        for f in e.feats[*k].difference(got) {
            if e.implied.contains(&(*k, f.clone())) {
                implied += 1;
                continue;
            }
            return Err(("features", format!("{} lacks the feature {f}; it has {got:?}", w.pkgs[*k].name)));
        }
    }
    Ok(implied)
}

pub fn observe(g: &Graph, w: &World) -> Seen {
    observe::observe(g, &ids(w), w)
}

pub struct Scene {
    pub host: Arc<Mutex<Host>>,
    pub plan: Vec<Vec<Step>>,
    pub peer: Peer,
    pub faults: kernel::Faults,
}

/// Users, their plans, and the machine
pub fn scene(cx: &mut Cx, most: usize) -> Scene {
    scene_with(cx, most, &mut |_, _, _| {})
}

pub fn scene_with(cx: &mut Cx, most: usize, tweak: &mut dyn FnMut(&World, &mut Job, &mut Rng)) -> Scene {
    let mut r = cx.rng("plan");
    let clients = (*r.pick(&[1, 1, 2, 3])).min(most);
    let hard = r.pct(15);
    let f = faults(&mut r, clients, hard);
    let mut wr = cx.rng("world");
    let shape = Shape::draw(&mut wr);
    let world = World::generate(&mut wr, &shape);
    let peer = super::process::any_peer(&mut r);
    if cx.tracing {
        cx.out.trace.extend(world.describe());
        cx.say(|| format!("{peer:?}; {f:?}"));
    }
    let mut host = Host::new(world.clone(), cx.rng("host"));
    host.peer = peer;
    host.noise = r.pct(30);
    if r.pct(50) {
        host.order = Some(cx.rng("order"));
    }
    host.style = Style { shuffle_keys: r.pct(20), escapes: r.pct(20), spaces: r.pct(20), newlines: false };
    let mut plan = Vec::new();
    for c in 0..clients {
        let mut jr = cx.rng(&format!("jobs{c}"));
        let n = *r.pick(&[1, 1, 2, 3]);
        let mut steps = Vec::new();
        for _ in 0..n {
            let mut j = job(&world, &mut jr);
            tweak(&world, &mut j, &mut jr);
            steps.push(Step::Build(Box::new(j)));
            if jr.pct(35) {
                steps.push(Step::Work(jr.next()));
                if jr.pct(40) {
                    // the same again
                    let prev = steps[steps.len() - 2].clone();
                    steps.push(prev);
                }
            }
        }
        let hurt = r.pct(12);
        host.moods.push(
            (0..4)
                .map(|_| {
                    if hurt && r.pct(40) {
                        *r.pick(&[Mood::Fails, Mood::Killed, Mood::Silent, Mood::Truncates, Mood::NoStart(libc::EAGAIN)])
                    } else {
                        Mood::Fine
                    }
                })
                .collect::<VecDeque<_>>(),
        );
        cx.say(|| format!("client {c}: {steps:?}"));
        plan.push(steps);
    }
    Scene { host: Arc::new(Mutex::new(host)), plan, peer, faults: f }
}

impl Scene {
    pub fn play(&self, cx: &mut Cx) -> Option<(kernel::Kernel, Vec<Vec<Done>>)> {
        let mut k = cx.kernel("sched", self.faults.clone());
        self.host.lock().unwrap().states[0].layout(&mut k.fs);
        k.spawner = Some(Host::spawner(&self.host));
        let jobs = self
            .plan
            .iter()
            .enumerate()
            .map(|(c, steps)| {
                let steps = steps.clone();
                let host = self.host.clone();
                let b: Box<dyn FnOnce() -> Vec<Done> + Send> = Box::new(move || {
                    let mut out = Vec::new();
                    for (i, s) in steps.iter().enumerate() {
                        match s {
                            Step::Build(j) => out.push(perform(c, i, j, &host)),
                            Step::Work(r) => work(&host, *r),
                            Step::Install(p) => install(&host, *p),
                            Step::Relink(to) => {
                                kernel::step("a link changes");
                                kernel::quiet(|| kernel::with(|k| k.fs.link(&link_of(c), to)));
                            }
                        }
                    }
                    out
                });
                b
            })
            .collect();
        let (k, res) = cx.run(k, jobs);
        let mut all = Vec::new();
        for (c, r) in res.into_iter().enumerate() {
            match r {
                Ok(v) => all.push(v),
                Err(p) => {
                    cx.fail("panic", format!("client {c} panicked: {p}"));
                    return None;
                }
            }
        }
        Some((k, all))
    }

    pub fn job(&self, c: usize, step: usize) -> &Job {
        match &self.plan[c][step] {
            Step::Build(j) => j,
            _ => unreachable!(),
        }
    }

    pub fn state(&self, s: usize) -> Arc<World> {
        self.host.lock().unwrap().states[s].clone()
    }
}

/// What is to come of a build, before anything is said about the graph
pub enum Fate {
    Graph(Box<Expected>, Arc<World>),
    NoRoots,
    NoResolve,
    /// the process, or the system, failed it
    Hurt,
    Refused,
}

pub fn fate(sc: &Scene, d: &Done, j: &Job, fs: &Fs) -> Fate {
    if !d.injected.is_empty() {
        return Fate::Hurt;
    }
    let Some(st) = d.state else { return if d.refused { Fate::Refused } else { Fate::Hurt } };
    let w = sc.state(st);
    match expected(&w, fs, &j.want, &j.cfg) {
        None => Fate::Refused,
        Some(_) if d.mood != Mood::Fine => Fate::Hurt,
        Some(_) if j.want.no_deps => Fate::NoResolve,
        Some(_) if j.hollow && d.pids.is_empty() => Fate::NoRoots,
        Some(x) if x.e.present.is_empty() => Fate::NoRoots,
        Some(x) => Fate::Graph(Box::new(x), w),
    }
}

pub fn short(e: &krates::Error) -> String {
    let s = format!("{e:?}");
    s.chars().take(200).collect()
}

/// The graph of a job as it is built from the plainest document there is of a workspace
pub fn plain(w: &World, fs: &Fs, j: &Job) -> Result<(Seen, BTreeSet<usize>), String> {
    let doc = doc_of(w, fs, &j.want, Peer::CURRENT, None).ok_or("harness: no document")?;
    let md: cm::Metadata = serde_json::from_str(&doc.plain()).map_err(|e| e.to_string())?;
    let ids = ids(w);
    let mut filtered = BTreeSet::new();
    let g: Graph = config::builder(&j.ops)
        .build_with_metadata(md, |p: Package| {
            filtered.insert(ids[&p.id.repr]);
        })
        .map_err(|e| short(&e))?;
    Ok((observe(&g, w), filtered))
}

/// Each build of a run that gives a graph, and what the graph is to be
pub fn graphs(cx: &mut Cx, sc: &Scene, k: &kernel::Kernel, all: &[Vec<Done>], mut judge: impl FnMut(&mut Cx, &Job, &World, &Expected, &Seen, &Done)) {
    let mut builds = 0;
    for (c, v) in all.iter().enumerate() {
        for d in v {
            let j = sc.job(c, d.step);
            cx.out.evals += 1;
            if let Some(p) = &d.panicked {
                return cx.fail("panic", format!("client {c} step {} ({:?}): {p}", d.step, j.route));
            }
            match (fate(sc, d, j, &k.fs), &d.res) {
                (Fate::Graph(x, w), Ok(g)) => {
                    builds += 1;
                    let seen = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| observe(g, &w))) {
                        Ok(s) => s,
                        Err(p) => return cx.fail("crates", format!("client {c} step {}: {}", d.step, crate::sim::panic_text(&*p))),
                    };
                    cx.reached(&format!("{:?} {:?}", x.e.present, x.e.feats));
                    judge(cx, j, &w, &x, &seen, d);
                    if cx.out.violation.is_some() {
                        if let Some(v) = &mut cx.out.violation {
                            v.1 = format!("client {c} step {} ({:?}): {}", d.step, j.route, v.1);
                        }
                        return;
                    }
                }
                (Fate::Graph(..), Err(e)) => {
                    return cx.fail("no-graph", format!("client {c} step {} ({:?}): {} instead of a graph", d.step, j.route, short(e)));
                }
                // the rest is for C14 and C01
                (_, Ok(_)) => cx.count("outcome.graph-in-spite", 1),
                (_, Err(_)) => cx.count("outcome.error", 1),
            }
        }
    }
    cx.count("outcome.graph", builds);
    cx.out.nontrivial = builds > 0;
    cx.out.sample = format!(
        "{} clients, {builds} graphs, of workspaces of {} packages in {} states",
        sc.plan.len(),
        sc.state(0).pkgs.len(),
        sc.host.lock().unwrap().states.len()
    );
}

pub fn c06(cx: &mut Cx) {
    let sc = scene(cx, 3);
    let Some((k, all)) = sc.play(cx) else { return };
    graphs(cx, &sc, &k, &all, |cx, _j, w, x, s, _| {
        if let Err((c, t)) = same_crates(w, &x.e, s) {
            cx.fail(c, t);
        }
        let e: usize = s.deps.len();
        cx.out.evals += (s.order.len() + e + s.resolved.len()) as u64;
    });
}

pub const IMPLIED: &str = "implicit-feature-by-slash";

pub fn c07(cx: &mut Cx) {
    let sc = scene(cx, 3);
    let Some((k, all)) = sc.play(cx) else { return };
    graphs(cx, &sc, &k, &all, |cx, _j, w, x, s, _| {
        // without the crates the features are of no use; that they are right is for C06
        if s.order.iter().copied().collect::<BTreeSet<_>>() != x.e.present {
            return cx.fail("crates", format!("the graph has {} instead of {}", names(w, s.order.iter().copied()), names(w, x.e.present.iter().copied())));
        }
        match same_features(w, &x.e, s) {
            Ok(n) => {
                if n > 0 {
                    *cx.out.known.entry(IMPLIED.to_owned()).or_default() += n;
                }
            }
            Err((c, t)) => cx.fail(c, t),
        }
        cx.out.evals += s.feats.values().map(|f| 1 + f.len() as u64).sum::<u64>();
    });
}

/// How crates and features are linked, against the model. Where a name that a feature uses stands for
/// several packages, krates takes one of them (pinned by the existing snapshot test
/// duplicate_versions), so nothing is said about what such a feature leads to outside of its crate.
pub fn same_links(w: &World, x: &Expected, s: &Seen) -> Result<u64, (&'static str, String)> {
    use crate::observe::At;
    use crate::world::Fv;
    let e = &x.e;
    let mut n = 0;
    let mut from: BTreeMap<&At, BTreeSet<(&At, &str)>> = BTreeMap::new();
    for (a, b, what) in s.edges.keys() {
        from.entry(a).or_default().insert((b, what));
    }
    let label = |a: &At| match a {
        At::Krate(k) => w.pkgs[*k].name.clone(),
        At::Feature(k, f) => format!("{}/{f}", w.pkgs[*k].name),
    };
    let leads = |a: &At, b: &At| from.get(a).is_some_and(|v| v.contains(&(b, "feature")));

    for (k, f) in s.fnodes.keys() {
        let me = At::Feature(*k, f.clone());
        if !s.feats[k].contains(f) && from.contains_key(&me) {
            return Err(("idle", format!("{} is not enabled, and leads somewhere", label(&me))));
        }
    }
    let norm = |x: &str| x.replace('-', "_");
    for (k, fs) in &s.feats {
        let p = &w.pkgs[*k];
        let clear = |key: &str| {
            let key = norm(key);
            let to: BTreeSet<usize> = p
                .deps
                .iter()
                .filter(|d| {
                    let t = &w.pkgs[d.to];
                    norm(&d.key) == key || norm(&t.name) == key || t.lib_name.as_ref().is_some_and(|l| norm(l) == key)
                })
                .map(|d| d.to)
                .collect();
            to.len() == 1
        };
        for f in fs {
            let me = At::Feature(*k, f.clone());
            if !s.fnodes.contains_key(&(*k, f.clone())) {
                return Err(("node", format!("{} is enabled, and not a node", label(&me))));
            }
            let mut must = vec![At::Krate(*k)];
            let mut may = BTreeSet::new();
            let mut all_clear = true;
            for v in &p.features[f] {
                let (key, df, weak) = match v {
                    Fv::Simple(g) => {
                        must.push(At::Feature(*k, g.clone()));
                        continue;
                    }
                    Fv::Dep(key) => (key, None, false),
                    Fv::Strong(key, df) => (key, Some(df), false),
                    Fv::Weak(key, df) => (key, Some(df), true),
                };
                let sure = clear(key);
                all_clear &= sure;
                for (i, d) in p.deps.iter().enumerate().filter(|(_, d)| d.key == *key) {
                    let kept = e.decls[*k].contains(&i);
                    let to = match df {
                        Some(df) => At::Feature(d.to, df.clone()),
                        None if w.pkgs[d.to].name != *key => At::Feature(*k, key.clone()),
                        None => At::Krate(d.to),
                    };
                    let on = df.is_none_or(|df| e.feats[d.to].contains(df));
                    // a feature of a dependency is only looked for by `dep?/feature` if there is a
                    // feature of the name of the dependency
                    if kept && on && sure && (!weak || x.res.feats[*k].contains(key)) {
                        must.push(to.clone());
                    }
                    if let Some(df) = df
                        && !(kept && on)
                    {
                        may.insert(At::Feature(*k, df.clone()));
                    }
                    may.insert(to);
                }
            }
            n += must.len() as u64;
            if let Some(to) = must.iter().find(|to| !leads(&me, to)) {
                return Err(("lacks", format!("{} does not lead to {}", label(&me), label(to))));
            }
            if all_clear && let Some((to, what)) = from[&me].iter().find(|to| !may.contains(to.0) && !must.contains(to.0)) {
                return Err(("astray", format!("{} leads to {} ({what})", label(&me), label(to))));
            }
            if let Some((to, what)) = from[&me].iter().find(|to| to.1 != "feature") {
                return Err(("astray", format!("{} leads to {} as {what}", label(&me), label(to))));
            }
        }
    }

    for k in &e.present {
        let p = &w.pkgs[*k];
        let mut want: BTreeSet<(At, String)> = BTreeSet::new();
        for i in &e.decls[*k] {
            let d = &p.deps[*i];
            let by_default = d.uses_default && w.pkgs[d.to].has_feature("default");
            let listed: Vec<&str> = d.features.iter().map(String::as_str).chain(by_default.then_some("default")).collect();
            for f in &listed {
                want.insert((At::Feature(d.to, (*f).to_owned()), format!("depfeature {:?} {:?}", d.kind, d.target)));
            }
            if listed.is_empty() {
                want.insert((At::Krate(d.to), format!("dep {:?} {:?}", d.kind, d.target)));
            }
            for v in s.feats[k].iter().flat_map(|g| &p.features[g]) {
                if let Fv::Strong(key, df) | Fv::Weak(key, df) = v
                    && *key == d.key
                    && e.feats[d.to].contains(df)
                {
                    want.insert((At::Feature(d.to, df.clone()), "feature".to_owned()));
                }
            }
        }
        n += want.len() as u64;
        let me = At::Krate(*k);
        let got: BTreeSet<(At, String)> = from.get(&me).into_iter().flatten().map(|(b, what)| ((*b).clone(), (*what).to_owned())).collect();
        if let Some((to, what)) = want.difference(&got).next() {
            return Err(("lacks", format!("{} does not lead to {} ({what})", label(&me), label(to))));
        }
        if let Some((to, what)) = got.difference(&want).next() {
            return Err(("astray", format!("{} leads to {} ({what})", label(&me), label(to))));
        }
    }
    Ok(n)
}

pub fn c16(cx: &mut Cx) {
    let sc = scene(cx, 3);
    let Some((k, all)) = sc.play(cx) else { return };
    graphs(cx, &sc, &k, &all, |cx, _j, w, x, s, _| {
        // what there is to link is for C06 and C07
        let present = s.order.iter().copied().collect::<BTreeSet<_>>() == x.e.present;
        if !present || same_features(w, &x.e, s).is_err() {
            return cx.count("outcome.other-crates", 1);
        }
        match same_links(w, x, s) {
            Ok(n) => cx.out.evals += n,
            Err((c, t)) => cx.fail(c, t),
        }
    });
}

/// The document of a request, for the harness's own use
pub fn doc_of(w: &World, fs: &Fs, want: &Want, peer: Peer, order: Option<&mut Rng>) -> Option<J> {
    let req = want.understood(w, fs).ok()?;
    let res = cargo::resolve(w, &req);
    Some(cargo::metadata(w, &res, peer, order))
}
