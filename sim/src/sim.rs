//! What a run has at hand, and what it leaves behind.

use crate::kernel::{self, Faults, Kernel};
use crate::rng::{Rng, Source};
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct Out {
    pub violation: Option<(String, String)>,
    /// identity of the interleaving
    pub hash: u64,
    /// identity of what was reached
    pub state: u64,
    pub counts: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub steps: u64,
    pub switches: u64,
    pub trace: Vec<String>,
    /// listed findings that showed
    pub known: BTreeMap<String, u64>,
    /// comparisons the oracle made
    pub evals: u64,
    pub nontrivial: bool,
    pub sample: String,
}

pub struct Cx {
    pub src: Source,
    pub tracing: bool,
    pub out: Out,
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    let m = e
        .downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_owned()))
        .unwrap_or_else(|| "a panic without a message".to_owned());
    m.chars().take(300).collect()
}

pub fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(31)
}

impl Cx {
    pub fn new(src: Source, tracing: bool) -> Self {
        Cx { src, tracing, out: Out { hash: 1, state: 1, ..Default::default() } }
    }

    pub fn rng(&mut self, label: &str) -> Rng {
        self.src.stream(label)
    }

    pub fn fail(&mut self, class: &str, text: impl Into<String>) {
        if self.out.violation.is_none() {
            self.out.violation = Some((class.to_owned(), text.into()));
        }
    }

    pub fn check(&mut self, ok: bool, class: &str, text: impl FnOnce() -> String) {
        self.out.evals += 1;
        if !ok {
            let t = text();
            self.fail(class, t);
        }
    }

    pub fn count(&mut self, what: &str, n: u64) {
        *self.out.counts.entry(what.to_owned()).or_default() += n;
    }

    pub fn say(&mut self, text: impl FnOnce() -> String) {
        if self.tracing {
            let t = text();
            self.out.trace.push(t);
        }
    }

    pub fn reached(&mut self, what: &str) {
        self.out.state = mix(self.out.state, crate::rng::hash_str(what));
    }

    pub fn kernel(&mut self, label: &str, faults: Faults) -> Kernel {
        let mut k = Kernel::new(self.src.stream(label), faults);
        k.tracing = self.tracing;
        k.random = self.src.seed ^ 0x5eed;
        k
    }

    /// Runs clients under a kernel, to the end
    pub fn run<T: Send + 'static>(
        &mut self,
        k: Kernel,
        clients: Vec<Box<dyn FnOnce() -> T + Send>>,
    ) -> (Kernel, Vec<Result<T, String>>) {
        let (tx, rx) = std::sync::mpsc::channel();
        let n = clients.len();
        let wrapped: Vec<kernel::Client> = clients
            .into_iter()
            .enumerate()
            .map(|(i, c)| {
                let tx = tx.clone();
                let c: kernel::Client = Box::new(move || {
                    let v = c();
                    kernel::quiet(|| tx.send((i, v)).unwrap());
                });
                c
            })
            .collect();
        drop(tx);
        let (mut k, ends) = kernel::run(k, wrapped);
        let mut got: Vec<Option<T>> = (0..n).map(|_| None).collect();
        for (i, v) in rx.try_iter() {
            got[i] = Some(v);
        }
        let res = got
            .into_iter()
            .zip(ends)
            .map(|(v, e)| match (v, e) {
                (Some(v), _) => Ok(v),
                (None, Err(e)) => Err(panic_text(&*e)),
                (None, Ok(())) => Err("no result".to_owned()),
            })
            .collect();
        self.out.hash = mix(self.out.hash, k.hash);
        for (w, c) in &k.counts {
            *self.out.counts.entry((*w).to_owned()).or_default() += c;
        }
        self.out.sim_ns += k.now;
        self.out.steps += k.steps;
        self.out.switches += k.switches;
        let mut t = std::mem::take(&mut k.trace);
        self.out.trace.append(&mut t);
        if let Some((c, t)) = k.wrong.first() {
            let (c, t) = ((*c).to_owned(), t.clone());
            self.fail(&c, t);
        }
        (k, res)
    }
}

/// The faults of a run, swarm style: each run has its own subset and rates
pub fn faults(r: &mut Rng, clients: usize, hard: bool) -> Faults {
    let mut f = Faults {
        eintr: *r.pick(&[0, 5, 30]),
        short_read: *r.pick(&[0, 10, 60]),
        latency: *r.pick(&[0, 50, 100_000]),
        pipe_cap: *r.pick(&[65536, 4096, 512, 16, 1 << 20]),
        preempt: *r.pick(&[30, 5, 100]),
        alloc: if clients > 1 { *r.pick(&[0, 5_000, 500, 50]) } else { 0 },
        ..Default::default()
    };
    if hard {
        let at = |r: &mut Rng, n: usize| 1 + r.below(n) as u32;
        if r.pct(8) {
            f.pipe = Some((at(r, 4), *r.pick(&[libc::EMFILE, libc::ENFILE, libc::ENOMEM])));
        }
        if r.pct(5) {
            f.open = Some((at(r, 2), *r.pick(&[libc::EMFILE, libc::ENOENT, libc::EACCES])));
        }
        if r.pct(6) {
            f.spawn = Some((at(r, 3), *r.pick(&[libc::ENOMEM, libc::EAGAIN])));
        }
        if r.pct(6) {
            f.wait = Some((at(r, 3), libc::ECHILD));
        }
    }
    f
}
