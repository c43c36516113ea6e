pub mod alloc;
pub mod blob;
pub mod engine;
pub mod io;
pub mod model;
pub mod props;
pub mod pyworker;
pub mod refimage;
pub mod sut;
pub mod wiiref;
