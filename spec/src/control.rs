// Examples for the purity rule: every `impure_` function must be reported.
use std::cell::Cell;
use std::collections::{HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Mutex, LazyLock, OnceLock};

static COUNT: AtomicU64 = AtomicU64::new(0);
static LOCK: Mutex<u64> = Mutex::new(0);
static ONCE: OnceLock<u64> = OnceLock::new();
static LAZY: LazyLock<Vec<u64>> = LazyLock::new(|| (0..9).map(|x| x * x).collect());
thread_local! { static LAST: Cell<u64> = Cell::new(0); }

pub fn impure_count(x: u64) -> u64 { x + COUNT.fetch_add(1, Ordering::Relaxed) }
pub fn impure_lock(x: u64) -> u64 { let mut g = LOCK.lock().unwrap(); *g += x; *g }
pub fn impure_once(x: u64) -> u64 { *ONCE.get_or_init(|| x) }
pub fn impure_local(x: u64) -> u64 { LAST.with(|l| { let o = l.get(); l.set(x); o }) }
pub fn impure_clock() -> u64 { std::time::SystemTime::now().elapsed().map_or(0, |d| d.as_secs()) }
pub fn impure_env() -> bool { std::env::var("H3").is_ok() }
pub fn impure_order(x: u64) -> Vec<u64> { let mut m = HashMap::new(); m.insert(x, 1); m.insert(x + 1, 2); m.keys().cloned().collect() }
pub fn impure_for(x: u64) -> u64 { let mut m = HashSet::new(); m.insert(x); m.insert(x + 1); for k in &m { return *k; } 0 }
pub fn impure_address(x: &u64) -> usize { x as *const u64 as usize }
pub fn impure_print(x: u64) -> u64 { println!("{}", x); x }
/// used as a set only: fine
pub fn pure_set(x: u64) -> bool { let mut m = HashSet::new(); m.insert(x); m.contains(&(x + 1)) }
pub fn pure_vec(x: u64) -> Vec<u64> { let mut v: Vec<u64> = (0..x).map(|y| y * y).collect(); v.sort(); v }
pub fn pure_text(x: u64) -> String { format!("{:?}", x) }
pub fn pure_lazy(x: usize) -> u64 { LAZY[x] }
pub fn pure_panic(x: u64) -> u64 { assert!(x > 3, "too small: {}", x); let _ = std::hint::black_box(x); debug_assert_ne!(x, 9); x - 3 }
pub fn pure_text_order(x: &[u64]) -> Option<String> { x.iter().max().map(|y| y.to_string() + "a").filter(|y| y.len() > 2) }
