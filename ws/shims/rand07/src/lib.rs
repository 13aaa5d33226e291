//! The real rand 0.7, except that the thread's generator can be driven by a check, which then
//! explores every value of it out of a menu.
pub use real::*;
use std::cell::RefCell;

thread_local! {
    static SOURCE: RefCell<Option<Box<dyn FnMut() -> u64>>> = const { RefCell::new(None) };
}

/// Takes the values of this thread's generator from `f` (or from the real one again).
pub fn drive(f: Option<Box<dyn FnMut() -> u64>>) {
    SOURCE.with(|s| *s.borrow_mut() = f);
}

#[derive(Clone, Copy, Debug, Default)]
pub struct ThreadRng;

pub fn thread_rng() -> ThreadRng {
    ThreadRng
}

pub fn random<T>() -> T
where
    distributions::Standard: distributions::Distribution<T>,
{
    thread_rng().gen()
}

impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        SOURCE.with(|s| match s.borrow_mut().as_mut() {
            Some(f) => f(),
            None => real::thread_rng().next_u64(),
        })
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for ThreadRng {}

pub mod prelude {
    pub use real::prelude::*;
    #[doc(no_inline)]
    pub use super::{random, thread_rng, ThreadRng};
}
pub mod rngs {
    pub use super::ThreadRng;
    pub use real::rngs::*;
}
