pub mod big;
pub mod blk;
pub mod cap;
pub mod diff;
pub mod eng;
pub mod ev;
pub mod fault;
pub mod galloc;
pub mod ham;
pub mod hist;
pub mod mt;
pub mod prog;
pub mod prot;
pub mod reject;
pub mod rng;
pub mod tm;
pub mod util;
