//! The one source of randomness. Every choice of a run (world, schedule, faults) is drawn
//! from a stream of the run's `Source`, which is made from the run's seed alone; nothing else
//! in the simulator draws entropy. A source can record its choices and play edited ones back,
//! which is how a violation is minimised and replayed. A choice of 0 is always the simplest.

use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

pub type Choices = BTreeMap<String, Vec<u64>>;

#[derive(Default)]
struct Tape {
    play: Option<Vec<u64>>,
    pos: usize,
    rec: Vec<u64>,
}

pub struct Rng {
    s: [u64; 4],
    tape: Option<Arc<Mutex<Tape>>>,
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

/// The seed of run `i` of a check
pub fn run_seed(base: u64, property: &str, i: u64) -> u64 {
    let mut x = base ^ hash_str(property).rotate_left(23) ^ i.wrapping_mul(0xd134_2543_de82_ef95);
    splitmix(&mut x)
}

enum Mode {
    Live,
    Record,
    Play(Choices),
}

/// Where a run draws its choices from
pub struct Source {
    pub seed: u64,
    mode: Mode,
    tapes: BTreeMap<String, Arc<Mutex<Tape>>>,
}

impl Source {
    pub fn live(seed: u64) -> Self {
        Self { seed, mode: Mode::Live, tapes: BTreeMap::new() }
    }

    pub fn record(seed: u64) -> Self {
        Self { seed, mode: Mode::Record, tapes: BTreeMap::new() }
    }

    pub fn play(seed: u64, choices: Choices) -> Self {
        Self { seed, mode: Mode::Play(choices), tapes: BTreeMap::new() }
    }

    /// An independent stream: the draws of one part of a run do not shift those of another
    pub fn stream(&mut self, label: &str) -> Rng {
        let mut r = Rng::new(self.seed ^ hash_str(label).rotate_left(17));
        let play = match &self.mode {
            Mode::Live => return r,
            Mode::Record => None,
            Mode::Play(c) => Some(c.get(label).cloned().unwrap_or_default()),
        };
        let tape = Arc::new(Mutex::new(Tape { play, pos: 0, rec: Vec::new() }));
        assert!(
            self.tapes.insert(label.to_owned(), tape.clone()).is_none(),
            "stream {label} is taken twice"
        );
        r.tape = Some(tape);
        r
    }

    /// The choices made so far, if they are recorded or played
    pub fn choices(&self) -> Choices {
        self.tapes
            .iter()
            .map(|(k, t)| (k.clone(), t.lock().unwrap().rec.clone()))
            .collect()
    }
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let s = [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)];
        Self { s, tape: None }
    }

    fn raw(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    fn draw(&mut self, n: Option<u64>) -> u64 {
        let mut v = self.raw();
        let red = |v: u64| n.map_or(v, |n| v % n);
        if let Some(t) = &self.tape {
            let mut t = t.lock().unwrap();
            if let Some(p) = &t.play {
                v = p.get(t.pos).copied().unwrap_or(0);
                t.pos += 1;
            }
            v = red(v);
            t.rec.push(v);
            return v;
        }
        red(v)
    }

    pub fn next(&mut self) -> u64 {
        self.draw(None)
    }

    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        self.draw(Some(n as u64)) as usize
    }

    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// true with probability p/100; the choice 0 is false unless p is 100
    pub fn pct(&mut self, p: u32) -> bool {
        self.below(100) as u32 >= 100 - p
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }

    /// 0..len cut into pieces of up to `max`: sizes that add up to `len`
    pub fn cuts(&mut self, len: usize, max: usize) -> Vec<usize> {
        let mut out = Vec::new();
        let mut left = len;
        while left > 0 {
            let c = self.below(max + 1);
            let n = if c == 0 || out.len() > 400 { left } else { c.min(left) };
            out.push(n);
            left -= n;
        }
        out
    }
}
