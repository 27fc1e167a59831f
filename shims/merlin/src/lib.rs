//! Model transcript: same interface as merlin 1.3; a challenge is an answer of
//! the random oracle in `mcrt` to the complete (framed) transcript history.
#[derive(Clone)]
pub struct Transcript {
    h: (u64, u64),
}

fn up(h: &mut (u64, u64), b: &[u8]) {
    // length-framed, position dependent, two independent 64-bit lanes
    let mut step = |x: u64| {
        h.0 = mcrt::mix(h.0 ^ x);
        h.1 = mcrt::mix(h.1.rotate_left(17) ^ x.wrapping_mul(0xff51afd7ed558ccd)).wrapping_add(h.0);
    };
    step(b.len() as u64 ^ 0xa5a5_0000_0000_0000);
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        step(u64::from_le_bytes(w));
    }
}

impl Transcript {
    pub fn new(label: &'static [u8]) -> Transcript {
        let mut t = Transcript { h: (1, 2) };
        t.append_message(b"dom-sep", label);
        t
    }
    pub fn append_message(&mut self, label: &'static [u8], message: &[u8]) {
        up(&mut self.h, b"append");
        up(&mut self.h, label);
        up(&mut self.h, message);
        mcrt::note_absorb();
    }
    pub fn commit_bytes(&mut self, label: &'static [u8], message: &[u8]) {
        self.append_message(label, message);
    }
    pub fn append_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_message(label, &x.to_le_bytes());
    }
    pub fn commit_u64(&mut self, label: &'static [u8], x: u64) {
        self.append_u64(label, x);
    }
    pub fn challenge_bytes(&mut self, label: &'static [u8], dest: &mut [u8]) {
        up(&mut self.h, b"challenge");
        up(&mut self.h, label);
        up(&mut self.h, &(dest.len() as u32).to_le_bytes());
        let key = ((self.h.0 as u128) << 64) | self.h.1 as u128;
        mcrt::challenge_fill(key, dest);
    }
    pub fn build_rng(&self) -> TranscriptRngBuilder {
        TranscriptRngBuilder {}
    }
}

pub struct TranscriptRngBuilder {}

impl TranscriptRngBuilder {
    pub fn rekey_with_witness_bytes(self, _label: &'static [u8], _witness: &[u8]) -> TranscriptRngBuilder {
        self
    }
    pub fn commit_witness_bytes(self, label: &'static [u8], witness: &[u8]) -> TranscriptRngBuilder {
        self.rekey_with_witness_bytes(label, witness)
    }
    pub fn finalize<R>(self, rng: &mut R) -> TranscriptRng
    where
        R: rand_core::RngCore + rand_core::CryptoRng,
    {
        let mut b = [0u8; 32];
        rng.fill_bytes(&mut b);
        TranscriptRng {}
    }
}

/// keyed by an external coin: ideal fresh randomness
pub struct TranscriptRng {}

impl rand_core::RngCore for TranscriptRng {
    fn next_u32(&mut self) -> u32 {
        rand_core::impls::next_u32_via_fill(self)
    }
    fn next_u64(&mut self) -> u64 {
        rand_core::impls::next_u64_via_fill(self)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        mcrt::coin_fill(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl rand_core::CryptoRng for TranscriptRng {}
