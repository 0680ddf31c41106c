//! The values a build makes and hands out, each accounted for; and what users do inside the
//! callbacks a build makes.

use crate::doc;
use crate::kernel;
use crate::observe::{AsEdge, Ident};
use krates::{Edge, Package};
use serde_json::Value;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex};

/// One thing that happened to a build
#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    /// the index was asked for these names
    Index(BTreeSet<String>),
    /// a package was handed over to become a node, and whether it did
    Node { serial: u64, id: String, made: bool },
    Edge { serial: u64, made: bool },
    Filtered { id: String },
    Dropped { node: bool, serial: u64 },
}

/// What a user does in a callback
pub type Deed = Box<dyn FnOnce() + Send>;

#[derive(Default)]
struct Inner {
    events: Vec<Ev>,
    /// contents of the packages that were handed over, if they are kept
    contents: Vec<(String, Value)>,
    callbacks: u64,
    serial: u64,
    deed: Option<(u64, Deed)>,
    done: bool,
    late: u64,
    bombed: bool,
}

/// The account of one build
pub struct Tab {
    inner: Mutex<Inner>,
    keep: bool,
}

thread_local! {
    /// the builds that run on this thread, the innermost last
    static NOW: RefCell<Vec<Arc<Tab>>> = const { RefCell::new(Vec::new()) };
}

pub const BOMB: &str = "the user's code gave up";

impl Tab {
    pub fn new(keep: bool, deed: Option<(u64, Deed)>) -> Arc<Tab> {
        Arc::new(Tab { inner: Mutex::new(Inner { deed, ..Default::default() }), keep })
    }

    fn with<R>(&self, f: impl FnOnce(&mut Inner) -> R) -> R {
        kernel::quiet(|| f(&mut self.inner.lock().unwrap_or_else(|p| p.into_inner())))
    }

    pub fn current() -> Option<Arc<Tab>> {
        NOW.with(|n| n.borrow().last().cloned())
    }

    /// Runs a build on its account
    pub fn during<R>(self: &Arc<Tab>, f: impl FnOnce() -> R) -> R {
        struct Pop;
        impl Drop for Pop {
            fn drop(&mut self) {
                NOW.with(|n| n.borrow_mut().pop());
            }
        }
        NOW.with(|n| n.borrow_mut().push(self.clone()));
        let _pop = Pop;
        f()
    }

    pub fn close(&self) {
        self.with(|i| {
            i.done = true;
            i.deed = None;
        });
    }

    pub fn events(&self) -> Vec<Ev> {
        self.with(|i| i.events.clone())
    }

    pub fn contents(&self) -> Vec<(String, Value)> {
        self.with(|i| i.contents.clone())
    }

    /// callbacks that were made after the build had ended
    pub fn late(&self) -> u64 {
        self.with(|i| i.late)
    }

    pub fn callbacks(&self) -> u64 {
        self.with(|i| i.callbacks)
    }

    /// whether the deed was done
    pub fn struck(&self) -> bool {
        self.with(|i| i.bombed)
    }

    /// A callback of the build: somebody else may run, and the user may do something
    fn tick(&self, label: &'static str) {
        kernel::step(label);
        let deed = self.with(|i| {
            i.callbacks += 1;
            if i.done {
                i.late += 1;
            }
            match &i.deed {
                Some((at, _)) if i.callbacks >= *at => {
                    i.bombed = true;
                    i.deed.take()
                }
                _ => None,
            }
        });
        if let Some((_, d)) = deed {
            d();
        }
    }

    fn keep(&self, p: &Package) {
        if self.keep {
            let v = kernel::quiet(|| doc::expose_package(p));
            self.with(|i| i.contents.push((p.id.repr.clone(), v)));
        }
    }

    pub fn index(&self, names: &BTreeSet<String>) {
        self.with(|i| i.events.push(Ev::Index(names.clone())));
        self.tick("index");
    }

    pub fn filtered(&self, p: &Package) {
        self.with(|i| i.events.push(Ev::Filtered { id: p.id.repr.clone() }));
        self.keep(p);
        self.tick("filtered");
    }

    fn made(&self, node: bool, serial: u64) {
        self.with(|i| {
            for e in i.events.iter_mut().rev() {
                match e {
                    Ev::Node { serial: s, made, .. } if node && *s == serial => {
                        *made = true;
                        return;
                    }
                    Ev::Edge { serial: s, made } if !node && *s == serial => {
                        *made = true;
                        return;
                    }
                    _ => {}
                }
            }
        });
    }

    fn begin(&self, node: Option<&Package>) -> u64 {
        let serial = self.with(|i| {
            i.serial += 1;
            let serial = i.serial;
            i.events.push(match node {
                Some(p) => Ev::Node { serial, id: p.id.repr.clone(), made: false },
                None => Ev::Edge { serial, made: false },
            });
            serial
        });
        if let Some(p) = node {
            self.keep(p);
        }
        serial
    }

    fn dropped(&self, node: bool, serial: u64) {
        self.with(|i| i.events.push(Ev::Dropped { node, serial }));
    }
}

/// What users make of packages
pub struct Pk {
    pub pkg: Package,
    serial: u64,
    tab: Option<Arc<Tab>>,
}

impl From<Package> for Pk {
    fn from(pkg: Package) -> Self {
        let tab = Tab::current();
        let mut serial = 0;
        if let Some(t) = &tab {
            serial = t.begin(Some(&pkg));
            t.tick("node");
            t.made(true, serial);
        }
        Pk { pkg, serial, tab }
    }
}

impl Drop for Pk {
    fn drop(&mut self) {
        if let Some(t) = &self.tab {
            t.dropped(true, self.serial);
        }
    }
}

impl std::fmt::Debug for Pk {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.pkg.id.repr)
    }
}

impl Ident for Pk {
    fn id(&self) -> &str {
        &self.pkg.id.repr
    }
}

impl krates::KrateDetails for Pk {
    fn name(&self) -> &str {
        &self.pkg.name
    }
    fn version(&self) -> &krates::semver::Version {
        &self.pkg.version
    }
}

/// What users make of edges
pub struct Ed {
    pub edge: Edge,
    serial: u64,
    tab: Option<Arc<Tab>>,
}

impl From<Edge> for Ed {
    fn from(edge: Edge) -> Self {
        let tab = Tab::current();
        let mut serial = 0;
        if let Some(t) = &tab {
            serial = t.begin(None);
            t.tick("edge");
            t.made(false, serial);
        }
        Ed { edge, serial, tab }
    }
}

impl Drop for Ed {
    fn drop(&mut self) {
        if let Some(t) = &self.tab {
            t.dropped(false, self.serial);
        }
    }
}

impl AsEdge for Ed {
    fn edge(&self) -> &Edge {
        &self.edge
    }
}
