pub mod alloc;
pub mod clock;
pub mod core;
pub mod eng;
pub mod faults;
pub mod hash;
pub mod inst;
pub mod oracle;
pub mod refm;
