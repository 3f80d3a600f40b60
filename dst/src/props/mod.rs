pub mod worker;
pub mod math;
pub mod testcs;
pub mod serial;
pub mod groth;
pub mod codec;
pub mod deploy;
pub mod gadgets;
pub mod release;
