//! Controls the keys of `ahash::RandomState::new()`: a function of a per-thread salt and counter.
/// All `RandomState::new()` keys of this thread from here on are a function of `salt`.
pub fn salt(salt: u64) {
    ahash::mc::salt(Some(salt));
}
