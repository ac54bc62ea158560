pub use futures_util as _;
pub use xtra as _;
pub use xtra_macros as _;
