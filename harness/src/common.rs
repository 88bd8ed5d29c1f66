//! Common parts of the replay harness: a small random generator and the runner of the cases.
use std::fmt::Write as _;

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn flip(&mut self) -> bool { self.next() & 1 == 1 }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn bytes(&mut self, max: usize) -> Vec<u8> { let n = self.below(max + 1); (0..n).map(|_| self.next() as u8).collect() }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
    pub fn subset<T: Clone>(&mut self, v: &[T]) -> Vec<T> { v.iter().filter(|_| self.flip()).cloned().collect() }
}

/// One case: its random source, its number and the log of what was done (the failing input, if it fails).
pub struct Case {
    pub rng: Rng,
    pub index: u64,
    pub log: String,
}
impl Case {
    pub fn note(&mut self, s: impl AsRef<str>) { if self.log.len() < 20_000 { let _ = writeln!(self.log, "{}", s.as_ref()); } }
}
pub type Check = Result<(), String>;

/// Fails the case with a message
#[macro_export]
macro_rules! vx_check { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub struct Prop {
    pub id: &'static str,
    pub name: &'static str,
    /// cases in the quick tier
    pub quick: u64,
    pub run: fn(&mut Case) -> Check,
}

/// Runs a future on a fresh single-threaded runtime with a virtual clock; a case that does not end within an hour
/// of virtual time is a failure.
pub fn block<F: std::future::Future<Output = Check>>(f: F) -> Check {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().map_err(|e| format!("runtime: {e}"))?;
    let r = rt.block_on(async { match tokio::time::timeout(std::time::Duration::from_secs(3600), f).await { Ok(r) => r, Err(_) => Err("the operation never finished".into()) } });
    rt.shutdown_background();
    r
}
/// Lets every runnable task run until all are idle (virtual clock).
pub async fn settle() { for _ in 0..4 { tokio::task::yield_now().await; } tokio::time::sleep(std::time::Duration::from_millis(1)).await; for _ in 0..4 { tokio::task::yield_now().await; } }
