//! What the generated client programs of `client.py` start with.
pub use goggles;
pub use rayon;
