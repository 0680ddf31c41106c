//! The simulated cargo as a process: it reads the command line it was started with, looks
//! for the manifest in the simulated filesystem, and says and does what the run's plan has
//! in store for it.

use crate::cargo::{self, Peer};
use crate::json::{J, Style};
use crate::kernel::{Act, Fs, Spawn, Spawner, text};
use crate::rng::Rng;
use crate::world::{Request, World};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};

/// What a cargo was asked, as it understands its command line
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Asked {
    pub program: String,
    /// as resolved by the filesystem
    pub manifest: String,
    pub features: Vec<String>,
    pub all_features: bool,
    pub no_default: bool,
    pub no_deps: bool,
    pub frozen: bool,
    pub locked: bool,
    pub offline: bool,
    /// everything else, in order
    pub rest: Vec<String>,
}

pub fn understand(s: &Spawn, fs: &Fs) -> Result<Asked, String> {
    let mut a = Asked { program: text(&s.program), ..Default::default() };
    let argv: Vec<String> = s.argv.iter().map(|v| text(v)).collect();
    if argv.get(1).map(String::as_str) != Some("metadata") {
        return Err(format!("error: no such command: `{}`", argv.get(1).map_or("", String::as_str)));
    }
    let mut it = argv[2..].iter().cloned().collect::<VecDeque<_>>();
    let mut version = None;
    let mut manifest_path: Option<String> = None;
    while let Some(arg) = it.pop_front() {
        let (flag, inline) = match arg.split_once('=') {
            Some((f, v)) if f.starts_with("--") => (f.to_owned(), Some(v.to_owned())),
            _ => (arg.clone(), None),
        };
        let value = |it: &mut VecDeque<String>| {
            inline
                .clone()
                .or_else(|| it.pop_front())
                .ok_or_else(|| format!("error: a value is required for '{flag}'"))
        };
        match flag.as_str() {
            "--format-version" => version = Some(value(&mut it)?),
            "--features" | "-F" => {
                let v = value(&mut it)?;
                a.features.extend(v.split([',', ' ', '\t']).filter(|f| !f.is_empty()).map(str::to_owned));
            }
            "--all-features" => a.all_features = true,
            "--no-default-features" => a.no_default = true,
            "--no-deps" => a.no_deps = true,
            "--frozen" => a.frozen = true,
            "--locked" => a.locked = true,
            "--offline" => a.offline = true,
            "--manifest-path" => {
                if manifest_path.replace(value(&mut it)?).is_some() {
                    return Err("error: the argument '--manifest-path <PATH>' cannot be used multiple times".to_owned());
                }
            }
            "--config" | "--color" | "--filter-platform" | "-Z" => {
                a.rest.push(flag.clone());
                let v = value(&mut it)?;
                a.rest.push(v);
            }
            "-v" | "-q" | "--verbose" | "--quiet" => a.rest.push(flag.clone()),
            _ => return Err(format!("error: unexpected argument '{arg}' found")),
        }
    }
    if version.as_deref() != Some("1") {
        return Err("warning: please specify `--format-version` flag explicitly\nerror: bad version".to_owned());
    }
    let cwd = s.cwd.as_ref().map_or_else(|| fs.cwd.clone(), |c| text(c));
    let cwd = if cwd.starts_with('/') { cwd } else { format!("{}/{cwd}", fs.cwd) };
    let cwd = fs.resolve(&cwd).map_err(|e| format!("error: current directory is gone: {e}"))?;
    a.manifest = match manifest_path {
        Some(p) => {
            if !p.ends_with("Cargo.toml") {
                return Err("error: the manifest-path must be a path to a Cargo.toml file".to_owned());
            }
            let p = if p.starts_with('/') { p } else { format!("{cwd}/{p}") };
            fs.resolve(&p)
                .map_err(|_| format!("error: manifest path `{p}` does not exist"))?
        }
        None => {
            let mut at = cwd.clone();
            loop {
                if let Ok(p) = fs.resolve(&format!("{at}/Cargo.toml")) {
                    break p;
                }
                match at.rfind('/') {
                    Some(i) if !at.is_empty() => at.truncate(i),
                    _ => {
                        return Err(format!(
                            "error: could not find `Cargo.toml` in `{cwd}` or any parent directory"
                        ));
                    }
                }
            }
        }
    };
    Ok(a)
}

impl World {
    /// Puts the manifests of the workspace, and of what it has paths to, in a filesystem
    pub fn layout(&self, fs: &mut Fs) {
        fs.file(&format!("{}/Cargo.toml", self.ws_root));
        for p in &self.pkgs {
            if p.src == crate::world::Src::Path {
                fs.file(&format!("{}/Cargo.toml", p.dir));
            }
        }
    }

    /// The request for a manifest: of a member, or of the workspace
    pub fn request_for(&self, fs: &Fs, a: &Asked) -> Result<Request, String> {
        let same = |p: &str| fs.resolve(p).is_ok_and(|p| p == a.manifest);
        let at = self.members.iter().copied().find(|m| same(&format!("{}/Cargo.toml", self.pkgs[*m].dir)));
        if at.is_none() && !same(&format!("{}/Cargo.toml", self.ws_root)) {
            return Err(format!("error: `{}` is no package of this workspace", a.manifest));
        }
        if at.is_some() || !a.features.is_empty() {
            for f in &a.features {
                let known = self.members.iter().any(|m| self.pkgs[*m].has_feature(f));
                if !known {
                    return Err(format!("error: none of the selected packages contains this feature: {f}"));
                }
            }
        }
        Ok(Request {
            at,
            all_features: a.all_features,
            no_default: a.no_default,
            features: a.features.clone(),
        })
    }
}

/// What a user wants to know
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Want {
    pub at: Option<usize>,
    pub all_features: bool,
    pub no_default: bool,
    pub features: Vec<String>,
    pub no_deps: bool,
}

impl Want {
    pub fn draw(w: &World, r: &mut Rng) -> Want {
        let q = crate::config::request(w, r);
        Want { at: q.at, all_features: q.all_features, no_default: q.no_default, features: q.features, no_deps: false }
    }

    /// What a cargo makes of it, or that it has to refuse
    pub fn understood(&self, w: &World, fs: &Fs) -> Result<Request, String> {
        let m = format!("{}/Cargo.toml", self.at.map_or(&w.ws_root, |k| &w.pkgs[k].dir));
        let a = Asked {
            manifest: fs.resolve(&m).map_err(|e| format!("{m}: {e}"))?,
            features: self.features.clone(),
            all_features: self.all_features,
            no_default: self.no_default,
            ..Default::default()
        };
        w.request_for(fs, &a)
    }

    pub fn manifest(&self, w: &World) -> String {
        format!("{}/Cargo.toml", self.at.map_or(&w.ws_root, |k| &w.pkgs[k].dir))
    }

    pub fn cmd(&self, w: &World) -> krates::Cmd {
        let mut c = krates::Cmd::new();
        c.cargo_path("cargo").manifest_path(self.manifest(w));
        if self.all_features {
            c.all_features();
        }
        if self.no_default {
            c.no_default_features();
        }
        c.features(self.features.iter().cloned());
        if self.no_deps {
            c.other_options(["--no-deps".to_owned()]);
        }
        c
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
}

/// What a process is going to do, before it is cut into acts
#[derive(Clone, Debug)]
pub struct Script {
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub end: End,
}

/// How a process goes about it
#[derive(Clone, Copy, Debug)]
pub struct Manner {
    /// largest piece it writes at once
    pub piece: usize,
    /// percent of the pieces it waits before
    pub pause: u32,
    pub longest: u64,
    /// closes a stream before it ends
    pub close_early: bool,
    pub leave: bool,
}

impl Manner {
    pub fn draw(r: &mut Rng) -> Self {
        Manner {
            piece: *r.pick(&[1 << 20, 4096, 65536, 700, 64, 7]),
            pause: *r.pick(&[0, 10, 50]),
            longest: *r.pick(&[1_000, 1_000_000, 5_000_000_000]),
            close_early: r.pct(20),
            leave: r.pct(8),
        }
    }
}

impl Script {
    pub fn acts(self, m: Manner, r: &mut Rng) -> Vec<Act> {
        let mut q: [VecDeque<Vec<u8>>; 2] = Default::default();
        for (i, b) in [self.out, self.err].into_iter().enumerate() {
            // Never more than a few hundred pieces, however small
            let piece = m.piece.max(b.len() / 300 + 1);
            let mut at = 0;
            while at < b.len() {
                let n = (1 + r.below(piece)).min(b.len() - at);
                q[i].push_back(b[at..at + n].to_vec());
                at += n;
            }
        }
        let mut v = Vec::new();
        let bias = *r.pick(&[0, 50, 90, 10, 100]);
        while !q[0].is_empty() || !q[1].is_empty() {
            if m.pause > 0 && r.pct(m.pause) {
                v.push(Act::Wait(1 + r.below(m.longest as usize) as u64));
            }
            let o = usize::from(r.pct(bias));
            let o = if q[o].is_empty() { 1 - o } else { o };
            let b = q[o].pop_front().unwrap();
            v.push(Act::Write(o as u8 + 1, b));
            if m.close_early && q[o].is_empty() && r.pct(50) {
                v.push(Act::Close(o as u8 + 1));
            }
        }
        if m.close_early && r.pct(30) {
            v.push(Act::Close(1));
            v.push(Act::Close(2));
            v.push(Act::Wait(1 + r.below(m.longest as usize) as u64));
        }
        if m.leave {
            v.push(Act::Leave(1 + r.below(2) as u8, 1 + r.below(m.longest as usize) as u64));
        }
        if r.pct(30) {
            v.push(Act::Wait(1 + r.below(m.longest as usize) as u64));
        }
        v.push(match self.end {
            End::Exit(c) => Act::Exit(c),
            End::Signal(s) => Act::Die(s),
        });
        v
    }
}

const BEFORE: &[&str] = &[
    "    Updating crates.io index\n",
    "warning: unused manifest key: {workspace}\n",
    "\n",
    " Downloaded 3 crates (1.2 MB) in 0.3s\r\n",
    "[1, 2, 3]\n",
    "\"{\"\n",
    "null\n",
    "Zo\u{eb} \u{1F980} }{\n",
    "note: {} {\"packages\": []}\n",
    "  { is no object\n",
    "\t{]\r\n",
];

const AFTER: &[&str] = &[
    "{\"reason\":\"build-finished\",\"success\":true}\n",
    "{}\n",
    "{ not json\n",
    "done\n",
    "\n",
    "}\n",
    "\u{1F980}\n",
];

/// The lines around a document that a wrapper, or a chatty cargo, prints
pub fn surround(doc: &str, r: &mut Rng) -> String {
    let mut out = String::new();
    for _ in 0..r.below(4) {
        out.push_str(r.pick(BEFORE));
    }
    out.push_str(doc);
    if r.pct(10) {
        out.push('\r');
    }
    let tail = r.below(4);
    if tail > 0 || r.pct(80) {
        out.push('\n');
    }
    for _ in 0..tail {
        out.push_str(r.pick(AFTER));
    }
    if out.ends_with('\n') && r.pct(10) {
        out.push_str("no newline at the end");
    }
    out
}

pub fn chatter(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(8) {
        0 | 1 => 0,
        2 | 3 => r.below(80),
        4 | 5 => r.below(2_000),
        6 => r.below(20_000),
        _ => r.below(200_000),
    }
    .min(max);
    let lines = [
        "    Blocking waiting for file lock on package cache\n",
        "warning: some crates are on edition 2021\n",
        "\u{1b}[1;31merror\u{1b}[0m: failed to parse manifest at `/x/Cargo.toml`\r\n",
        "  Caused by:\n\n",
        "    key `f\u{fc}nf` is {odd} \u{1F980}\n\t",
        " ",
        "\0",
        "error: nothing of that kind\n",
        "\n{\"packages\":[],\"workspace_members\":[],\"resolve\":null,\"workspace_root\":\"/\",\"target_directory\":\"/\",\"version\":1}\n",
    ];
    let mut v = Vec::new();
    while v.len() < n {
        v.extend_from_slice(r.pick(&lines).as_bytes());
    }
    v
}

/// Damages some bytes
pub fn damage(b: &mut Vec<u8>, r: &mut Rng) {
    if b.is_empty() {
        return;
    }
    for _ in 0..r.range(1, 3) {
        let at = r.below(b.len());
        match r.below(6) {
            0 => b[at] ^= 1 << r.below(8),
            1 => b[at] = *r.pick(b"0\",:{}[]\\ntfx1-"),
            2 => {
                b.remove(at);
                if b.is_empty() {
                    return;
                }
            }
            3 => b.insert(at, *r.pick(b"0\",:{}[]\\a ")),
            4 => {
                let to = (at + 1 + r.below(64)).min(b.len());
                b.drain(at..to);
                if b.is_empty() {
                    return;
                }
            }
            _ => {
                let to = (at + 1 + r.below(64)).min(b.len());
                let c = b[at..to].to_vec();
                let i = r.below(b.len() + 1);
                b.splice(i..i, c);
            }
        }
    }
}

/// What becomes of one process
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mood {
    Fine,
    /// exits with a failure, after so much of its output
    Fails,
    Killed,
    Truncates,
    Garbles,
    Silent,
    NotUtf8,
    /// can not be started
    NoStart(i32),
}

pub const SIGNALS: &[i32] = &[libc::SIGKILL, libc::SIGTERM, libc::SIGSEGV, libc::SIGABRT | 0x80, libc::SIGINT, libc::SIGPIPE];

pub fn mood(r: &mut Rng) -> Mood {
    match r.below(12) {
        0..=4 => Mood::Fine,
        5 | 6 => Mood::Fails,
        7 => Mood::Killed,
        8 => Mood::Truncates,
        9 => Mood::Garbles,
        10 => *r.pick(&[Mood::Silent, Mood::NotUtf8]),
        _ => Mood::NoStart(*r.pick(&[libc::ENOENT, libc::EACCES, libc::EAGAIN, libc::ENOMEM, libc::E2BIG, libc::ETXTBSY])),
    }
}

/// `doc` is the output of a cargo in good health
pub fn script(doc: Vec<u8>, mood: Mood, err: Vec<u8>, r: &mut Rng) -> Result<Script, i32> {
    let mut s = Script { out: doc, err, end: End::Exit(0) };
    let cut = |b: &mut Vec<u8>, r: &mut Rng| {
        let n = match r.below(4) {
            0 => b.len(),
            1 => 0,
            2 => b.len().saturating_sub(1 + r.below(6)),
            _ => r.below(b.len() + 1),
        };
        b.truncate(n);
    };
    match mood {
        Mood::Fine => {}
        Mood::Fails => {
            cut(&mut s.out, r);
            s.end = End::Exit(*r.pick(&[101, 1, 2, 127, 255]));
            if r.pct(12) && !s.err.is_empty() {
                let at = r.below(s.err.len());
                s.err[at] = 0xff;
            }
        }
        Mood::Killed => {
            cut(&mut s.out, r);
            if r.pct(50) {
                cut(&mut s.err, r);
            }
            s.end = End::Signal(*r.pick(SIGNALS));
        }
        Mood::Truncates => {
            let n = if r.pct(50) { s.out.len().saturating_sub(1 + r.below(8)) } else { r.below(s.out.len() + 1) };
            s.out.truncate(n);
        }
        Mood::Garbles => damage(&mut s.out, r),
        Mood::Silent => {
            // on the wrong stream, or not at all
            let d = std::mem::take(&mut s.out);
            if r.pct(40) {
                s.err = if r.pct(50) { d } else { [s.err, d].concat() };
            }
        }
        Mood::NotUtf8 => {
            if s.out.is_empty() {
                s.out.push(0xc0);
            } else {
                let at = r.below(s.out.len());
                let b = *r.pick(&[0xffu8, 0xc0, 0x80, 0xed]);
                if r.pct(50) {
                    s.out[at] = b;
                } else if r.pct(50) {
                    s.out.push(b);
                } else {
                    s.out.insert(at, b);
                }
            }
        }
        Mood::NoStart(e) => return Err(e),
    }
    Ok(s)
}

/// The machine the simulated cargos run on
pub struct Host {
    pub world: World,
    pub peer: Peer,
    /// emission order; cargo's own if not set
    pub order: Option<Rng>,
    pub style: Style,
    pub rng: Rng,
    /// moods of the processes to come, per client; in good health when there are no more
    pub moods: Vec<VecDeque<Mood>>,
    /// changes of the document, for cargos with defects
    pub edit: Option<Box<dyn FnMut(&mut J, &World) + Send>>,
    pub asked: Vec<(usize, Result<Asked, String>)>,
    /// the document of each process that is to succeed
    pub docs: Vec<(i32, J)>,
    pub noise: bool,
    /// every state the workspace was in, the current one last
    pub states: Vec<Arc<World>>,
    /// what each process found: its pid, the state of the workspace, its mood
    pub found: Vec<(i32, usize, Mood)>,
}

impl Host {
    pub fn new(world: World, rng: Rng) -> Self {
        Host {
            states: vec![Arc::new(world.clone())],
            found: Vec::new(),
            world,
            peer: Peer::CURRENT,
            order: None,
            style: Style::default(),
            rng,
            moods: Vec::new(),
            edit: None,
            asked: Vec::new(),
            docs: Vec::new(),
            noise: true,
        }
    }

    fn process(&mut self, s: &Spawn, fs: &Fs) -> Result<Vec<Act>, i32> {
        let asked = understand(s, fs);
        self.asked.push((s.client, asked.clone()));
        let manner = Manner::draw(&mut self.rng);
        let err = if self.noise { chatter(&mut self.rng, 3_000) } else { Vec::new() };
        let mood = self.moods.get_mut(s.client).and_then(VecDeque::pop_front).unwrap_or(Mood::Fine);
        self.found.push((s.pid, self.states.len() - 1, mood));
        let req = asked.and_then(|a| self.world.request_for(fs, &a).map(|r| (a, r)));
        let (a, req) = match req {
            Ok(v) => v,
            Err(e) => {
                let s = Script { out: Vec::new(), err: format!("{e}\n").into_bytes(), end: End::Exit(101) };
                return Ok(s.acts(manner, &mut self.rng));
            }
        };
        let doc = self.document(&req, a.no_deps);
        self.docs.push((s.pid, doc.clone()));
        let text = doc.print(self.style, &mut self.rng);
        let text = if self.noise { surround(&text, &mut self.rng) } else { text + "\n" };
        let sc = script(text.into_bytes(), mood, err, &mut self.rng)?;
        Ok(sc.acts(manner, &mut self.rng))
    }

    pub fn document(&mut self, req: &Request, no_deps: bool) -> J {
        let res = cargo::resolve(&self.world, req);
        let mut doc = cargo::metadata(&self.world, &res, self.peer, self.order.as_mut());
        if no_deps {
            cargo::forget_deps(&mut doc);
        }
        if let Some(e) = &mut self.edit {
            e(&mut doc, &self.world);
        }
        doc
    }

    /// Somebody works on the workspace
    pub fn change(&mut self, w: World) {
        self.states.push(Arc::new(w.clone()));
        self.world = w;
    }

    /// The document for a request, as a cargo that ran earlier left it; and the state it is of
    pub fn stored(&mut self, want: &Want, fs: &Fs) -> Result<(usize, J), String> {
        let req = want.understood(&self.world, fs)?;
        Ok((self.states.len() - 1, self.document(&req, want.no_deps)))
    }

    pub fn spawner(host: &Arc<Mutex<Host>>) -> Spawner {
        let host = host.clone();
        Box::new(move |s, fs| host.lock().unwrap().process(s, fs))
    }
}
