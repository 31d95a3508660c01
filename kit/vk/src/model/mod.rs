pub mod string;
pub mod vbytes;
pub mod arc;
pub mod flag;
pub mod io;
pub mod deque;
pub mod map;
pub mod std_mpsc;
pub mod sync;
pub mod tls;
pub mod thread;
pub mod time;
pub mod task;
pub mod slab;
pub mod svec;
pub mod text;
