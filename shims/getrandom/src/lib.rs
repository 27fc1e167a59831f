//! getrandom 0.1 interface; the system's entropy is a choice point of the model-checking runtime.
mod error;
pub use crate::error::Error;

pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    if !dest.is_empty() {
        mcrt::coin_fill(dest);
    }
    Ok(())
}
