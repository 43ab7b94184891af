//! Deterministic stand-in for getrandom 0.2: makes every "entropy" seeded generator of the code
//! under test a pure function of the seed the harness chose for the case being run.
use std::cell::Cell;
use std::num::NonZeroU32;
use std::sync::atomic::{AtomicU64, Ordering};

static GLOBAL: AtomicU64 = AtomicU64::new(0x1234_5678_9abc_def1);
thread_local! {
    static STATE: Cell<Option<u64>> = const { Cell::new(None) };
}

/// sets the seed for the calling thread (and the default for threads that never set one)
pub fn set_seed(seed: u64) {
    GLOBAL.store(seed ^ 0xA5A5_5A5A_1357_9BDF, Ordering::SeqCst);
    STATE.with(|s| s.set(Some(seed)));
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    let mut st = match STATE.try_with(|s| s.get()) {
        Ok(Some(s)) => s,
        _ => GLOBAL.fetch_add(0x9E37_79B9_7F4A_7C15, Ordering::SeqCst),
    };
    for chunk in dest.chunks_mut(8) {
        let b = splitmix(&mut st).to_le_bytes();
        chunk.copy_from_slice(&b[..chunk.len()]);
    }
    let _ = STATE.try_with(|s| {
        if s.get().is_some() {
            s.set(Some(st))
        }
    });
    Ok(())
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Error(NonZeroU32);
impl Error {
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "getrandom shim error {}", self.0)
    }
}
impl std::error::Error for Error {}
