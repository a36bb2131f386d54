//! Element types. `Tracked` accounts for every construction, clone and drop of an instance.
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicU8, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;

pub trait Elem: Clone + Debug + Ord + Hash + Send + Sync + 'static {
    fn mk(v: u64) -> Self;
    fn val(&self) -> u64;
    /// What `mk(v).val()` yields.
    fn norm(v: u64) -> u64 {
        v
    }
}

impl Elem for u64 {
    fn mk(v: u64) -> Self {
        v
    }
    fn val(&self) -> u64 {
        *self
    }
}

impl Elem for () {
    fn mk(_: u64) -> Self {}
    fn val(&self) -> u64 {
        0
    }
    fn norm(_: u64) -> u64 {
        0
    }
}

/// A small, oddly aligned element.
impl Elem for u8 {
    fn mk(v: u64) -> Self {
        v as u8
    }
    fn val(&self) -> u64 {
        *self as u64
    }
    fn norm(v: u64) -> u64 {
        v as u8 as u64
    }
}

/// An element that owns heap memory.
impl Elem for Box<u64> {
    fn mk(v: u64) -> Self {
        Box::new(v)
    }
    fn val(&self) -> u64 {
        **self
    }
}

const MAX_IDS: usize = 1 << 23;
const CANARY: u64 = 0x5AFE_C0DE_D00D_FEED;
static NEXT_ID: AtomicUsize = AtomicUsize::new(0);
static LIVE: AtomicI64 = AtomicI64::new(0);
static CLONES: AtomicU64 = AtomicU64::new(0);
static OVERFLOW: AtomicUsize = AtomicUsize::new(0);
/// 0 = never made, 1 = live, 2 = dropped
static STATE: [AtomicU8; MAX_IDS] = [const { AtomicU8::new(0) }; MAX_IDS];
static PROBLEM: Mutex<Option<String>> = Mutex::new(None);
/// The number of clones until an injected panic; negative = none
static FAULT_CLONE: AtomicI64 = AtomicI64::new(-1);

fn problem(s: String) {
    let mut p = PROBLEM.lock().unwrap_or_else(|e| e.into_inner());
    if p.is_none() {
        *p = Some(s);
    }
}

pub struct Tracked {
    id: usize,
    val: u64,
    canary: u64,
}

impl Tracked {
    fn fresh(val: u64) -> Self {
        let id = NEXT_ID.fetch_add(1, Relaxed);
        if id < MAX_IDS {
            STATE[id].store(1, Relaxed);
        } else {
            OVERFLOW.fetch_add(1, Relaxed);
        }
        LIVE.fetch_add(1, Relaxed);
        Tracked {
            id,
            val,
            canary: CANARY ^ id as u64,
        }
    }
    fn check(&self, what: &str) -> bool {
        if self.canary != CANARY ^ self.id as u64 {
            problem(format!("{} of something that is not an element", what));
            return false;
        }
        if self.id < MAX_IDS {
            let s = STATE[self.id].load(Relaxed);
            if s != 1 {
                problem(format!(
                    "{} of an element that was already dropped (value {})",
                    what, self.val
                ));
                return false;
            }
        }
        true
    }
    /// Forgets everything about earlier instances.
    pub fn reset() {
        let n = NEXT_ID.swap(0, Relaxed).min(MAX_IDS);
        for s in &STATE[..n] {
            s.store(0, Relaxed);
        }
        LIVE.store(0, Relaxed);
        CLONES.store(0, Relaxed);
        OVERFLOW.store(0, Relaxed);
        FAULT_CLONE.store(-1, Relaxed);
        *PROBLEM.lock().unwrap_or_else(|e| e.into_inner()) = None;
    }
    pub fn live() -> i64 {
        LIVE.load(Relaxed)
    }
    pub fn clones() -> u64 {
        CLONES.load(Relaxed)
    }
    pub fn problem() -> Option<String> {
        PROBLEM.lock().unwrap_or_else(|e| e.into_inner()).clone()
    }
    /// The `n`-th clone from now (counting from 0) panics.
    pub fn arm(n: i64) {
        FAULT_CLONE.store(n, Relaxed);
    }
    pub fn disarm() -> bool {
        // Whether it was still armed
        FAULT_CLONE.swap(-1, Relaxed) >= 0
    }
    pub fn ok() -> Result<(), String> {
        match Self::problem() {
            Some(p) => Err(p),
            None => Ok(()),
        }
    }
}

impl Drop for Tracked {
    fn drop(&mut self) {
        if self.check("drop") {
            if self.id < MAX_IDS {
                STATE[self.id].store(2, Relaxed);
            }
            LIVE.fetch_sub(1, Relaxed);
            self.canary = 0xDEAD;
        }
    }
}

impl Clone for Tracked {
    fn clone(&self) -> Self {
        self.check("clone");
        CLONES.fetch_add(1, Relaxed);
        if FAULT_CLONE.load(Relaxed) >= 0 && FAULT_CLONE.fetch_sub(1, Relaxed) == 0 {
            panic!("INJECTED clone panic");
        }
        Tracked::fresh(self.val)
    }
}
impl Elem for Tracked {
    fn mk(v: u64) -> Self {
        Tracked::fresh(v)
    }
    fn val(&self) -> u64 {
        if self.check("read") {
            self.val
        } else {
            u64::MAX - 1
        }
    }
}
impl Debug for Tracked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.val())
    }
}
impl PartialEq for Tracked {
    fn eq(&self, o: &Self) -> bool {
        self.val() == o.val()
    }
}
impl Eq for Tracked {}
impl PartialOrd for Tracked {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Tracked {
    fn cmp(&self, o: &Self) -> Ordering {
        self.val().cmp(&o.val())
    }
}
impl Hash for Tracked {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.val().hash(h)
    }
}

thread_local! {
    static FUEL: Cell<u64> = const { Cell::new(u64::MAX) };
    static USED: Cell<u64> = const { Cell::new(0) };
    static FAULT_CB: Cell<i64> = const { Cell::new(-1) };
}
/// Sets the number of comparator calls that may be made before the case fails.
pub fn set_fuel(n: u64) {
    FUEL.with(|f| f.set(n));
    USED.with(|f| f.set(0));
}
pub fn used() -> u64 {
    USED.with(|f| f.get())
}
/// Called by every comparator and key function.
pub fn tick() {
    USED.with(|f| {
        let n = f.get() + 1;
        f.set(n);
        if n > FUEL.with(|x| x.get()) {
            set_fuel(u64::MAX);
            panic!("BUDGET: more than {} comparator calls", n - 1);
        }
    });
    FAULT_CB.with(|f| {
        let n = f.get();
        if n >= 0 {
            f.set(n - 1);
            if n == 0 {
                panic!("INJECTED comparator panic");
            }
        }
    });
}
pub fn arm_callback(n: i64) {
    FAULT_CB.with(|f| f.set(n));
}
pub fn disarm_callback() -> bool {
    FAULT_CB.with(|f| f.replace(-1)) >= 0
}
