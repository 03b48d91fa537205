//! What the harness needs of the system it runs on: a Unix, or a WebAssembly engine (see ../../wasm/run.mjs)

#[cfg(not(target_family = "wasm"))]
mod imp {
    use std::{
        fs::{self, File},
        io::Write,
        os::unix::fs::FileExt,
        sync::OnceLock,
        time::Instant,
    };

    pub fn args() -> Vec<String> {
        std::env::args().collect()
    }

    pub fn env(name: &str) -> bool {
        std::env::var_os(name).is_some()
    }

    /// Seconds since the first call
    pub fn now() -> f64 {
        static START: OnceLock<Instant> = OnceLock::new();
        START.get_or_init(Instant::now).elapsed().as_secs_f64()
    }

    pub fn write(path: &str, bytes: &[u8]) {
        let tmp = format!("{}.tmp", path);
        let mut f = File::create(&tmp).unwrap();
        f.write_all(bytes).unwrap();
        drop(f);
        fs::rename(tmp, path).unwrap();
    }

    /// A file which always says which case is running
    pub struct State(File);

    impl State {
        pub fn new(path: &str) -> Self {
            Self(File::create(path).expect("can't create state file"))
        }

        pub fn set(&self, probe: usize, idx: u64) {
            let _ = self.0.write_at(format!("{:>4} {:>20}\n", probe, idx).as_bytes(), 0);
        }
    }

    pub fn print(line: &str) {
        println!("{}", line);
    }

    pub fn exit(code: i32) -> ! {
        std::process::exit(code)
    }
}

#[cfg(target_family = "wasm")]
mod imp {
    mod js {
        extern "C" {
            pub fn arg(i: usize, to: *mut u8, room: usize) -> usize;
            pub fn now() -> f64;
            pub fn write(path: *const u8, path_len: usize, data: *const u8, len: usize);
            pub fn state(path: *const u8, path_len: usize, probe: usize, idx: f64);
            pub fn print(data: *const u8, len: usize);
            pub fn exit(code: i32);
        }
    }

    pub fn args() -> Vec<String> {
        let mut buffer = vec![0u8; 4096];
        let mut all = Vec::new();
        loop {
            // (One more than its length; 0 after the last one)
            let len = unsafe { js::arg(all.len(), buffer.as_mut_ptr(), buffer.len()) };
            if len == 0 {
                return all;
            }
            all.push(String::from_utf8_lossy(&buffer[..len - 1]).into_owned());
        }
    }

    pub fn env(_name: &str) -> bool {
        false
    }

    pub fn now() -> f64 {
        unsafe { js::now() }
    }

    pub fn write(path: &str, bytes: &[u8]) {
        unsafe { js::write(path.as_ptr(), path.len(), bytes.as_ptr(), bytes.len()) }
    }

    pub struct State(String);

    impl State {
        pub fn new(path: &str) -> Self {
            Self(path.to_owned())
        }

        pub fn set(&self, probe: usize, idx: u64) {
            unsafe { js::state(self.0.as_ptr(), self.0.len(), probe, idx as f64) }
        }
    }

    pub fn print(line: &str) {
        unsafe { js::print(line.as_ptr(), line.len()) }
    }

    pub fn exit(code: i32) -> ! {
        unsafe { js::exit(code) }
        unreachable!()
    }
}

pub use imp::*;
