//! Thread-local generator without entropy: every value comes from the model-checking explorer.
use rand_core::{CryptoRng, Error, RngCore};
use std::marker::PhantomData;
use std::rc::Rc;

/// handle (neither Send nor Sync, as the original)
#[derive(Clone, Debug)]
pub struct ThreadRng {
    p: PhantomData<Rc<()>>,
}
/// see the original crate
pub fn thread_rng() -> ThreadRng {
    ThreadRng { p: PhantomData }
}
impl Default for ThreadRng {
    fn default() -> ThreadRng {
        thread_rng()
    }
}
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        (crate::mc::raw() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        crate::mc::raw()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = crate::mc::raw().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for ThreadRng {}
