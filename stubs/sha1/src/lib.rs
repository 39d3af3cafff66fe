//! SHA-1 as an uninterpreted function: the bytes fed to the hasher are handed to the symbolic
//! executor, which returns one array of 20 unconstrained bytes per distinct message.
#![no_std]
pub use digest::{self, Digest};
use digest::{typenum::U20, FixedOutput, FixedOutputReset, HashMarker, Output, OutputSizeUser, Reset, Update};

extern "C" {
    fn sv_sha1_new() -> u64;
    fn sv_sha1_update(h: u64, p: *const u8, n: u64);
    fn sv_sha1_clone(h: u64) -> u64;
    fn sv_sha1_final(h: u64, out: *mut u8);
}

pub struct Sha1(u64);

impl Default for Sha1 {
    fn default() -> Self {
        Sha1(unsafe { sv_sha1_new() })
    }
}
impl Clone for Sha1 {
    fn clone(&self) -> Self {
        Sha1(unsafe { sv_sha1_clone(self.0) })
    }
}
impl core::fmt::Debug for Sha1 {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("Sha1 { ... }")
    }
}
impl HashMarker for Sha1 {}
impl OutputSizeUser for Sha1 {
    type OutputSize = U20;
}
impl Update for Sha1 {
    fn update(&mut self, data: &[u8]) {
        unsafe { sv_sha1_update(self.0, data.as_ptr(), data.len() as u64) }
    }
}
impl FixedOutput for Sha1 {
    fn finalize_into(self, out: &mut Output<Self>) {
        unsafe { sv_sha1_final(self.0, out.as_mut_ptr()) }
    }
}
impl Reset for Sha1 {
    fn reset(&mut self) {
        *self = Default::default();
    }
}
impl FixedOutputReset for Sha1 {
    fn finalize_into_reset(&mut self, out: &mut Output<Self>) {
        unsafe { sv_sha1_final(self.0, out.as_mut_ptr()) }
        *self = Default::default();
    }
}
