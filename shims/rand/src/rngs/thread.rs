//! Model thread-local generator: every request is one choice point.
use crate::{CryptoRng, Error, RngCore};

#[derive(Copy, Clone, Debug)]
pub struct ThreadRng {
    _not_send: std::marker::PhantomData<*const ()>,
}

pub fn thread_rng() -> ThreadRng {
    ThreadRng { _not_send: std::marker::PhantomData }
}

impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        mcrt::coin_fill(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        mcrt::coin_fill(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        mcrt::coin_fill(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        mcrt::coin_fill(dest);
        Ok(())
    }
}

impl CryptoRng for ThreadRng {}
