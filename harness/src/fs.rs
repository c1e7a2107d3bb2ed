//! Instrumented transcripts: the repository's own transcript wrapped so that
//! every absorption and every drawn challenge is recorded, and challenges can
//! be forced to chosen values.

use std::cell::RefCell;
use std::collections::BTreeMap;

use ark_ff::{ToBytes, UniformRand};
use ark_std::rand::{Error, RngCore};
use blake2::Blake2s;
use rand_chacha::ChaChaRng;
use zero_over_k::rng::{FiatShamirRng, SimpleHashFiatShamirRng};

use crate::F;

pub type PlainFs = SimpleHashFiatShamirRng<Blake2s, ChaChaRng>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Init(Vec<u8>),
    Absorb(Vec<u8>),
    /// a drawn challenge
    Squeeze(F),
    /// raw bytes drawn in some other way
    Raw(Vec<u8>),
}

#[derive(Default)]
struct State {
    log: Vec<Ev>,
    squeezed: usize,
    force: BTreeMap<usize, F>,
}
thread_local! {
    static ST: RefCell<State> = RefCell::new(State::default());
}

pub fn reset() {
    ST.with(|s| *s.borrow_mut() = State::default());
}
/// Forces the i-th drawn challenge (of every transcript until `reset`).
pub fn force(i: usize, v: F) {
    ST.with(|s| {
        s.borrow_mut().force.insert(i, v);
    });
}
pub fn force_all(m: &BTreeMap<usize, F>) {
    ST.with(|s| s.borrow_mut().force = m.clone());
}
pub fn take_log() -> Vec<Ev> {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.squeezed = 0;
        std::mem::take(&mut s.log)
    })
}
pub fn challenges(log: &[Ev]) -> Vec<F> {
    log.iter().filter_map(|e| if let Ev::Squeeze(f) = e { Some(*f) } else { None }).collect()
}
/// (bytes absorbed before the i-th challenge) for every challenge
pub fn absorbed_before(log: &[Ev]) -> Vec<Vec<u8>> {
    let mut acc = vec![];
    let mut out = vec![];
    for e in log {
        match e {
            Ev::Init(b) | Ev::Absorb(b) => acc.extend_from_slice(b),
            Ev::Squeeze(_) => out.push(acc.clone()),
            Ev::Raw(_) => {}
        }
    }
    out
}

// ---------------------------------------------------------------- schedules

thread_local! {
    static JITTER: std::cell::Cell<u64> = std::cell::Cell::new(0);
}
/// From now on this thread pauses now and then while it draws or absorbs
/// (0: never), so that proofs made on several threads interleave in many ways.
pub fn set_jitter(seed: u64) {
    JITTER.with(|j| j.set(seed));
}
fn jitter() {
    JITTER.with(|j| {
        let x = j.get();
        if x == 0 {
            return;
        }
        let x = crate::util::mix(x, 1) | 1;
        j.set(x);
        match (x >> 8) % 40 {
            0 => std::thread::sleep(std::time::Duration::from_micros((x >> 20) % 120)),
            1..=6 => std::thread::yield_now(),
            _ => {}
        }
    });
}

/// `PlainFs` with pauses.
pub struct JitFs(PlainFs);
impl RngCore for JitFs {
    fn next_u32(&mut self) -> u32 {
        jitter();
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        jitter();
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        jitter();
        self.0.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.0.try_fill_bytes(dest)
    }
}
impl FiatShamirRng for JitFs {
    fn initialize<'a, T: 'a + ToBytes>(x: &'a T) -> Self {
        jitter();
        Self(PlainFs::initialize(x))
    }
    fn absorb<'a, T: 'a + ToBytes>(&mut self, x: &'a T) {
        jitter();
        self.0.absorb(x);
        jitter();
    }
}

pub struct RecFs {
    inner: PlainFs,
    pending: Vec<u64>,
}

impl RngCore for RecFs {
    fn next_u32(&mut self) -> u32 {
        let v = self.inner.next_u32();
        ST.with(|s| s.borrow_mut().log.push(Ev::Raw(v.to_le_bytes().to_vec())));
        v
    }
    fn next_u64(&mut self) -> u64 {
        // Field elements are sampled from four words: draw the element from
        // the wrapped transcript exactly as the code under test would and
        // hand out its limbs.
        if self.pending.is_empty() {
            let mut f = F::rand(&mut self.inner);
            ST.with(|s| {
                let mut s = s.borrow_mut();
                let i = s.squeezed;
                s.squeezed += 1;
                if let Some(x) = s.force.get(&i) {
                    f = *x;
                }
                s.log.push(Ev::Squeeze(f));
            });
            self.pending = f.0 .0.iter().rev().cloned().collect();
        }
        self.pending.pop().unwrap()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.inner.fill_bytes(dest);
        ST.with(|s| s.borrow_mut().log.push(Ev::Raw(dest.to_vec())));
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

impl FiatShamirRng for RecFs {
    fn initialize<'a, T: 'a + ToBytes>(x: &'a T) -> Self {
        let mut b = vec![];
        x.write(&mut b).unwrap();
        ST.with(|s| {
            let mut s = s.borrow_mut();
            s.squeezed = 0;
            s.log.push(Ev::Init(b));
        });
        Self { inner: PlainFs::initialize(x), pending: vec![] }
    }
    fn absorb<'a, T: 'a + ToBytes>(&mut self, x: &'a T) {
        let mut b = vec![];
        x.write(&mut b).unwrap();
        ST.with(|s| s.borrow_mut().log.push(Ev::Absorb(b)));
        self.pending.clear();
        self.inner.absorb(x);
    }
}

/// Prover randomness whose next field elements can be dictated, and that
/// counts what was drawn.
pub struct ZkRng {
    inner: ChaChaRng,
    pending: Vec<u64>,
    pub drawn: u64,
}
thread_local! {
    static FORCED: RefCell<std::collections::VecDeque<F>> = RefCell::new(Default::default());
}
pub fn force_zk(v: impl IntoIterator<Item = F>) {
    FORCED.with(|f| f.borrow_mut().extend(v));
}
pub fn clear_zk() {
    FORCED.with(|f| f.borrow_mut().clear());
}
impl ZkRng {
    pub fn new(seed: u64) -> Self {
        use ark_std::rand::SeedableRng;
        Self { inner: ChaChaRng::seed_from_u64(seed), pending: vec![], drawn: 0 }
    }
}
impl RngCore for ZkRng {
    fn next_u32(&mut self) -> u32 {
        self.drawn += 1;
        self.inner.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        jitter();
        self.drawn += 1;
        if self.pending.is_empty() {
            if let Some(f) = FORCED.with(|f| f.borrow_mut().pop_front()) {
                self.pending = f.0 .0.iter().rev().cloned().collect();
            }
        }
        match self.pending.pop() {
            Some(v) => v,
            None => self.inner.next_u64(),
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.drawn += 1;
        self.inner.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
