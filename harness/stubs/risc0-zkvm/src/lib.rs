//! Stand-in for the zkVM: a guest is an ordinary process. Frames come in on stdin
//! (u32 little-endian length + bytes), the journal leaves on stdout, a panic is exit code 101
//! with an invalid receipt (whatever it wrote to the journal before is void).
pub mod guest {
    pub mod env {
        use std::io::{Read, Write};
        pub fn read_frame() -> Vec<u8> {
            let mut l = [0u8; 4];
            std::io::stdin().read_exact(&mut l).expect("frame length");
            let mut v = vec![0u8; u32::from_le_bytes(l) as usize];
            std::io::stdin().read_exact(&mut v).expect("frame");
            v
        }
        pub fn read<T: serde::de::DeserializeOwned>() -> T {
            bincode::deserialize(&read_frame()).expect("env::read")
        }
        pub fn log(_m: &str) {}
        pub fn commit_slice<T: AsJournal>(b: &[T]) {
            let mut o = std::io::stdout().lock();
            o.write_all(&T::bytes(b)).unwrap();
            o.flush().unwrap();
        }
        pub trait AsJournal: Sized {
            fn bytes(b: &[Self]) -> Vec<u8>;
        }
        impl AsJournal for u8 {
            fn bytes(b: &[u8]) -> Vec<u8> { b.to_vec() }
        }
        pub fn cycle_count() -> u64 { 0 }
    }
    #[macro_export]
    macro_rules! __entry {
        ($p:path) => {
            const __ENTRY: fn() = $p;
            const _: () = {
                #[unsafe(no_mangle)]
                extern "C" fn main(_argc: i32, _argv: *const *const u8) -> i32 {
                    match std::panic::catch_unwind(__ENTRY) {
                        Ok(()) => 0,
                        Err(_) => 101,
                    }
                }
            };
        };
    }
    pub use crate::__entry as entry;
}
/// The host side: executing a guest runs its native build, found in `$GUEST_DIR/<name>`.
pub struct ExecutorEnv {
    stdin: Vec<u8>,
}
#[derive(Default)]
pub struct ExecutorEnvBuilder {
    stdin: Vec<u8>,
}
impl ExecutorEnv {
    pub fn builder() -> ExecutorEnvBuilder { ExecutorEnvBuilder::default() }
}
impl ExecutorEnvBuilder {
    pub fn write_frame(&mut self, b: &[u8]) -> &mut Self {
        self.stdin.extend_from_slice(&(b.len() as u32).to_le_bytes());
        self.stdin.extend_from_slice(b);
        self
    }
    pub fn write_slice(&mut self, b: &[u8]) -> &mut Self {
        self.stdin.extend_from_slice(b);
        self
    }
    pub fn build(&mut self) -> Result<ExecutorEnv, std::io::Error> { Ok(ExecutorEnv { stdin: std::mem::take(&mut self.stdin) }) }
}
pub struct Journal {
    pub bytes: Vec<u8>,
}
pub struct SessionInfo {
    pub journal: Journal,
}
impl SessionInfo {
    pub fn cycles(&self) -> u64 { 0 }
}
pub struct LocalExecutor;
pub fn default_executor() -> LocalExecutor { LocalExecutor }
impl LocalExecutor {
    pub fn execute(&self, env: ExecutorEnv, elf: &[u8]) -> Result<SessionInfo, std::io::Error> {
        use std::io::{Error, Write};
        use std::process::{Command, Stdio};
        let dir = std::env::var("GUEST_DIR").map_err(Error::other)?;
        let mut c = Command::new(std::path::Path::new(&dir).join(String::from_utf8_lossy(elf).as_ref())).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
        let mut i = c.stdin.take().unwrap();
        let t = std::thread::spawn(move || { let _ = i.write_all(&env.stdin); });
        let out = c.wait_with_output()?;
        let _ = t.join();
        if !out.status.success() {
            return Err(Error::other("guest panicked"));
        }
        Ok(SessionInfo { journal: Journal { bytes: out.stdout } })
    }
}
