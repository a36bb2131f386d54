//! Generated-input checks of librrb. Run by ../check.py; see ../DESIGN.md.
//!
//!   rrb-harness worker PROP SEED FIRST STEP END OUTDIR   run the cases FIRST, FIRST+STEP, .. < END
//!   rrb-harness eval PROP FILE [REPEAT]                  run the case in a file
//!   rrb-harness show PROP FILE                           as eval, and print the decoded operations
//!   rrb-harness gen PROP SEED INDEX                      print a case
#![allow(clippy::all)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::mem::ManuallyDrop;
use std::ops::{Bound, Range};
use std::sync::Mutex;

mod case;
mod elem;
mod gen;
use case::*;
use elem::*;

// ---------------------------------------------------------------- allocation counting

struct Counting;
thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
fn note(n: usize) {
    let _ = BYTES.try_with(|b| b.set(b.get() + n as u64));
    note_live(n as i64);
}
fn note_live(n: i64) {
    let _ = LIVE.try_with(|b| b.set(b.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note_live(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        note_live(-(l.size() as i64));
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

pub struct Mem {
    pub bytes: u64,
}
impl Mem {
    pub fn since(&self, earlier: &Mem) -> Mem {
        Mem {
            bytes: self.bytes - earlier.bytes,
        }
    }
}
/// What this thread has allocated and not freed; only differences mean something.
pub fn alloc_live() -> i64 {
    LIVE.with(|b| b.get())
}
/// What this thread has allocated so far.
pub fn alloc_now() -> Mem {
    Mem {
        bytes: BYTES.with(|b| b.get()),
    }
}

// ---------------------------------------------------------------- panics

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{} ({})", msg.replace('\n', " "), at);
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}
/// Runs the closure; a panic becomes an error.
pub fn guard<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", last_panic())),
    }
}

// ---------------------------------------------------------------- what a case covered

#[derive(Default)]
pub struct Stats {
    pub nontrivial: bool,
    pub logging: bool,
    lines: Vec<String>,
    hits: BTreeMap<String, u64>,
    maxes: BTreeMap<String, u64>,
}
impl Stats {
    pub fn log(&mut self, s: &str) {
        if self.logging && self.lines.len() < 60 {
            self.lines.push(s.to_string());
        }
    }
    pub fn hit(&mut self, s: &str) {
        *self.hits.entry(s.to_string()).or_insert(0) += 1;
    }
    pub fn hit_if(&mut self, b: bool, s: &str) {
        if b {
            self.hit(s)
        }
    }
    pub fn max(&mut self, s: &str, n: u64) {
        let e = self.maxes.entry(s.to_string()).or_insert(0);
        *e = n.max(*e);
    }
}

// ---------------------------------------------------------------- operations

macro_rules! ops {
    ($($n:ident)*) => { ops!(@ 0u32; $($n)*; []); };
    (@ $i:expr; $n:ident $($rest:ident)*; [$($names:tt)*]) => {
        pub const $n: u32 = $i;
        ops!(@ $i + 1; $($rest)*; [$($names)* $n]);
    };
    (@ $i:expr; ; [$($names:ident)*]) => {
        pub const OP_NAMES: &[&str] = &[$(stringify!($names)),*];
    };
}
ops!(OP_PUSH_BACK OP_PUSH_FRONT OP_POP_BACK OP_POP_FRONT OP_COLLECT OP_SLICE_FROM_START OP_SLICE_TO_END OP_SPLIT_OFF
    OP_APPEND OP_PREPEND OP_CLONE OP_APPEND_CLONE OP_PREPEND_CLONE OP_EXTRACT OP_INSERT OP_REMOVE OP_REVERSE
    OP_REVERSE_RANGE OP_SET OP_SWEEP OP_SORT OP_CONSTANT OP_CLEAR OP_PIECES OP_CUT_REJOIN OP_CONSUME OP_SAW);

pub const ACCESSORS: [&str; 6] = [
    "get_mut",
    "index_mut",
    "get_mut_guarded",
    "focus_mut",
    "front_mut",
    "back_mut",
];

#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct ShapeInfo {
    /// Whether the hook was compiled in; nothing else is meaningful otherwise.
    pub known: bool,
    pub height: usize,
    pub partial: usize,
    pub empty_root: bool,
    pub empty_spine_nodes: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Edits,
    Clones,
    Shape,
}

/// A range of positions of a list of `len`, written in one of the possible ways.
pub fn pick_range(len: usize, b: u32, c: u32) -> ((Bound<usize>, Bound<usize>), Range<usize>) {
    let form = mix((b as u64) << 32 | c as u64) >> 20;
    let (mut p, mut q) = (idx(b, len), idx(c, len));
    match form % 8 {
        0 => p = 0,
        1 => q = len,
        2 => {
            p = 0;
            q = len
        }
        _ => {}
    }
    let (p, q) = (p.min(q), p.max(q));
    let lo = match (form / 8) % 4 {
        0 if p == 0 => Bound::Unbounded,
        1 if p > 0 => Bound::Excluded(p - 1),
        _ => Bound::Included(p),
    };
    let hi = match (form / 32) % 4 {
        0 if q == len => Bound::Unbounded,
        1 if q > 0 => Bound::Included(q - 1),
        _ => Bound::Excluded(q),
    };
    ((lo, hi), p..q)
}

const CAPS: [usize; 9] = if NARROW {
    [40, 150, 400, 800, 1500, 3000, 7000, 12_000, 20_000]
} else {
    [140, 700, 2500, 5000, 9000, 20_000, 70_000, 140_000, 300_000]
};

/// The most elements a vector of the case may have.
pub fn case_cap(case: &Case) -> usize {
    CAPS[case.h(2) as usize % CAPS.len()]
}

pub fn contents_len(case: &Case, cap: usize) -> usize {
    let (how, sel) = (case.h(5) % 4, case.h(5) / 4);
    match how {
        0 => small_count(sel).min(cap),
        1 => count(sel).min(cap),
        _ => sel as usize % (cap + 1),
    }
}

/// Contents with a key (upper bits) and a serial number (lower 20 bits).
pub fn contents(case: &Case, cap: usize) -> Vec<u64> {
    let n = contents_len(case, cap);
    let mut r = Mix(case.h(4) as u64);
    let pattern = case.h(3) % 12;
    let k = 1 + case.h(3) as u64 / 12 % 70;
    (0..n as u64)
        .map(|i| {
            let u = r.next();
            let n = n as u64;
            let key = match pattern {
                0 | 1 => u & ((1 << 40) - 1),
                2 => u % k,
                3 => 5,
                4 => i,
                5 => n - i,
                6 => i.min(n - i),
                7 => i % k,
                8 => {
                    if u % 50 == 0 {
                        u % (n + 1)
                    } else {
                        i
                    }
                }
                9 => i / k,
                10 => (n - i) / k,
                _ => u % 2,
            };
            key << 20 | i
        })
        .collect()
}

mod rc {
    use super::*;
    use librrb::{Focus, RegularFocus as Foc, RegularFocusMut as FocMut};
    pub type V<T> = librrb::Vector<T>;
    include!("engine.rs");
    include!("props.rs");
}
mod arc {
    use super::*;
    use librrb::{Focus, ThreadSafeFocus as Foc, ThreadSafeFocusMut as FocMut};
    pub type V<T> = librrb::ThreadSafeVector<T>;
    include!("engine.rs");
    include!("props.rs");
    include!("threads.rs");
}
mod dual;

// ---------------------------------------------------------------- running a case

fn run_case(prop: &str, case: &Case, st: &mut Stats) -> Result<(), String> {
    Tracked::reset();
    set_fuel(u64::MAX);
    disarm_callback();
    let arc_side = case.h(0) % 3 == 2;
    st.hit(if arc_side || prop == "C13" {
        "thread_safe_flavour"
    } else {
        "single_threaded_flavour"
    });
    macro_rules! flavour {
        ($f:ident $(::<$t:ty>)? ( $($a:expr),* )) => {
            if arc_side { arc::$f$(::<$t>)?($($a),*) } else { rc::$f$(::<$t>)?($($a),*) }
        };
    }
    // The thread-safe flavour differs in the pointer type only, and takes fewer element types
    macro_rules! any_elem {
        ($f:ident ( $($a:expr),* )) => {
            match (case.h(1) % 8, arc_side) {
                (0..=3, false) => rc::$f::<u64>($($a),*),
                (4, false) => rc::$f::<Box<u64>>($($a),*),
                (5, false) => rc::$f::<u8>($($a),*),
                (6, false) => rc::$f::<Tracked>($($a),*),
                (_, false) => rc::$f::<()>($($a),*),
                (0..=4, true) => arc::$f::<u64>($($a),*),
                (_, true) => arc::$f::<Tracked>($($a),*),
            }
        };
    }
    macro_rules! full_elem {
        ($f:ident ( $($a:expr),* )) => {
            match (case.h(1) % 8, arc_side) {
                (0..=4, false) => rc::$f::<u64>($($a),*),
                (5, false) => rc::$f::<Box<u64>>($($a),*),
                (_, false) => rc::$f::<Tracked>($($a),*),
                (_, true) => arc::$f::<u64>($($a),*),
            }
        };
    }
    match prop {
        "C01" => any_elem!(history(case, st, Mode::Edits)),
        "C02" => any_elem!(history(case, st, Mode::Clones)),
        "C03" => any_elem!(reads(case, st)),
        "C04" => any_elem!(focus_window(case, st)),
        "C05" => any_elem!(mutable_access(case, st)),
        "C06" => full_elem!(sorting(case, st)),
        "C07" => dual::run(case, st),
        "C08" => full_elem!(searching(case, st)),
        "C09" => any_elem!(comparing(case, st)),
        "C10" => flavour!(ownership(case, st)),
        "C11" => any_elem!(history(case, st, Mode::Shape)),
        "C12" => flavour!(sharing(case, st)),
        "C13" => arc::threads(case, st),
        "C14" => flavour!(faults(case, st)),
        "C15" => any_elem!(out_of_range(case, st)),
        "C16" => any_elem!(iterators(case, st)),
        "C17" => flavour!(costs(case, st)),
        _ => panic!("no property {}", prop),
    }
}

fn on_small_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    // The default of a spawned thread
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or_else(|_| {
            eprintln!("harness thread failed: {}", last_panic());
            std::process::exit(70)
        })
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn worker(args: &[String]) -> i32 {
    use std::io::{Seek, Write};
    let prop = args[0].clone();
    let num = |i: usize| args[i].parse::<u64>().unwrap();
    let (seed, first, step, end) = (num(1), num(2), num(3), num(4));
    let dir = std::path::PathBuf::from(&args[5]);
    let budget = std::time::Duration::from_secs(num(6));
    let started = std::time::Instant::now();
    let mut state = std::fs::File::create(dir.join("state")).unwrap();
    let strategy = gen::strategy(&prop);
    let (mut evals, mut hits, mut maxes) = (0u64, BTreeMap::<String, u64>::new(), BTreeMap::<String, u64>::new());
    let mut hashes: Vec<u64> = vec![];
    let mut samples: Vec<String> = vec![];
    let mut failure: Option<(u64, Case, String)> = None;
    let mut i = first;
    let mut truncated = false;
    while i < end {
        if started.elapsed() > budget {
            truncated = true;
            break;
        }
        let case = gen::generate(&strategy, seed, &prop, i);
        let text = format!("index {}\n{}", i, case.to_text());
        state.rewind().unwrap();
        state.write_all(text.as_bytes()).unwrap();
        state.set_len(text.len() as u64).unwrap();
        let mut st = Stats::default();
        st.logging = samples.len() < 3 && evals % 7 == 0;
        let r = run_case(&prop, &case, &mut st);
        evals += 1;
        for (k, v) in &st.hits {
            *hits.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &st.maxes {
            let e = maxes.entry(k.clone()).or_insert(0);
            *e = (*e).max(*v);
        }
        if st.nontrivial {
            hashes.push(case.hash64());
            if st.logging {
                samples.push(format!("case {}: {}", i, st.lines.join("; ")));
            }
        }
        if let Err(e) = r {
            failure = Some((i, case, e));
            break;
        }
        i += step;
    }
    let mut bin = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        bin.extend_from_slice(&h.to_le_bytes());
    }
    std::fs::write(dir.join("hashes"), bin).unwrap();
    let map = |m: &BTreeMap<String, u64>| {
        m.iter()
            .map(|(k, v)| format!("{}:{}", json_str(k), v))
            .collect::<Vec<_>>()
            .join(",")
    };
    let fail = match &failure {
        None => "null".to_string(),
        Some((i, c, e)) => format!(
            "{{\"index\":{},\"case\":{},\"message\":{}}}",
            i,
            json_str(&c.to_text()),
            json_str(e)
        ),
    };
    let out = format!(
        "{{\"evaluations\":{},\"truncated\":{},\"hits\":{{{}}},\"maxes\":{{{}}},\"samples\":[{}],\"failure\":{}}}",
        evals,
        truncated,
        map(&hits),
        map(&maxes),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        fail
    );
    std::fs::write(dir.join("result.tmp"), out).unwrap();
    std::fs::rename(dir.join("result.tmp"), dir.join("result")).unwrap();
    failure.is_some() as i32
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("worker") => {
            let rest = args[1..].to_vec();
            on_small_stack(move || worker(&rest))
        }
        Some(cmd @ ("eval" | "show")) => {
            let show = cmd == "show";
            let prop = args[1].clone();
            let text = std::fs::read_to_string(&args[2]).expect("cannot read the case");
            let repeat: u32 = args.get(3).map_or(1, |s| s.parse().unwrap());
            let case = Case::from_text(&text).expect("not a case");
            on_small_stack(move || {
                for _ in 0..repeat {
                    let mut st = Stats {
                        logging: show,
                        ..Stats::default()
                    };
                    let r = run_case(&prop, &case, &mut st);
                    for l in &st.lines {
                        println!("# {}", l);
                    }
                    if let Err(e) = r {
                        println!("FAILED {}", e);
                        return 1;
                    }
                }
                println!("passed");
                0
            })
        }
        Some("gen") => {
            let strategy = gen::strategy(&args[1]);
            print!(
                "{}",
                gen::generate(&strategy, args[2].parse().unwrap(), &args[1], args[3].parse().unwrap()).to_text()
            );
            0
        }
        _ => 64,
    };
    // Without destructors of whatever a failed case has left behind
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
