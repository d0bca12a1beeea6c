pub mod relay_chain { pub const MAX_POV_SIZE: u32 = 5 * 1024 * 1024; }
