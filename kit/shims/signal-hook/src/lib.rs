pub mod consts { pub mod signal { pub const SIGALRM: i32 = 14; pub const SIGTERM: i32 = 15; pub const SIGVTALRM: i32 = 26; pub const SIGPROF: i32 = 27; } pub use signal::*; }
pub mod iterator { pub mod exfiltrator { pub mod raw { #[derive(Default, Clone, Copy)] pub struct WithRawSiginfo; } } }
