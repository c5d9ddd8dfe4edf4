//! Stand-in: the guest programs by name (the executor runs the native build of the same sources).
pub const MAINNET_ELF: &[u8] = b"mainnet";
pub const SEPOLIA_ELF: &[u8] = b"sepolia";
pub const MAINNET_ID: [u32; 8] = [1; 8];
pub const SEPOLIA_ID: [u32; 8] = [2; 8];
