//! Entropy seam. `rand`'s thread-local generator seeds itself from `rand_os`;
//! in the simulator that seed comes from here: a per-thread stream derived from
//! the run's seed, so that every "random" masking key and handshake key is a
//! pure function of the run's seed. Nothing in /repo is changed for this.
pub extern crate rand_core;
use rand_core::{impls, CryptoRng, Error, RngCore};
use std::cell::Cell;

thread_local! {
    static SEED: Cell<Option<u64>> = const { Cell::new(None) };
    static DRAWN: Cell<u64> = const { Cell::new(0) };
}

/// Sets the entropy this thread's "operating system" will hand out.
pub fn set_thread_seed(seed: u64) {
    SEED.with(|s| s.set(Some(seed)));
}

/// Bytes of entropy drawn by this thread so far.
pub fn drawn() -> u64 {
    DRAWN.with(|d| d.get())
}

fn next() -> u64 {
    SEED.with(|s| {
        let v = s
            .get()
            .expect("entropy drawn on a thread the simulator does not control")
            .wrapping_add(0x9E37_79B9_7F4A_7C15);
        s.set(Some(v));
        let mut z = v;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    })
}

#[derive(Clone, Debug)]
pub struct OsRng;

impl OsRng {
    pub fn new() -> Result<OsRng, Error> {
        Ok(OsRng)
    }
}

impl CryptoRng for OsRng {}

impl RngCore for OsRng {
    fn next_u32(&mut self) -> u32 {
        impls::next_u32_via_fill(self)
    }
    fn next_u64(&mut self) -> u64 {
        impls::next_u64_via_fill(self)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        DRAWN.with(|d| d.set(d.get() + dest.len() as u64));
        for c in dest.chunks_mut(8) {
            let v = next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
