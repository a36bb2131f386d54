//! Cases: what the generators produce, what is shrunk and what a replay file holds.
use std::fmt::Write;

/// The node width of the build under test: 64, or 8 in the narrow build.
pub const W: usize = librrb::RRB_WIDTH;
pub const NARROW: bool = W < 64;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Op {
    pub k: u32,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    /// Parameters of the case: pointer flavour, element type, content pattern, ...
    pub head: Vec<u32>,
    /// How the vectors are built (history or construction plan).
    pub ops: Vec<Op>,
    /// What is then done with them (property specific).
    pub probe: Vec<Op>,
}

impl Case {
    pub fn h(&self, i: usize) -> u32 {
        self.head.get(i).copied().unwrap_or(0)
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        s.push_str("head");
        for h in &self.head {
            let _ = write!(s, " {}", h);
        }
        s.push('\n');
        for (tag, list) in [("op", &self.ops), ("probe", &self.probe)] {
            for o in list {
                let _ = writeln!(s, "{} {} {} {} {}", tag, o.k, o.a, o.b, o.c);
            }
        }
        s
    }
    pub fn from_text(text: &str) -> Option<Case> {
        let mut case = Case {
            head: vec![],
            ops: vec![],
            probe: vec![],
        };
        let mut seen = false;
        for line in text.lines() {
            let line = line.split('#').next().unwrap().trim();
            let mut it = line.split_whitespace();
            let tag = match it.next() {
                Some(t) => t,
                None => continue,
            };
            if tag != "head" && tag != "op" && tag != "probe" {
                continue;
            }
            let nums: Vec<u32> = it.map(|x| x.parse().ok()).collect::<Option<_>>()?;
            match tag {
                "head" => {
                    seen = true;
                    case.head = nums
                }
                t => {
                    if nums.len() != 4 {
                        return None;
                    }
                    let o = Op {
                        k: nums[0],
                        a: nums[1],
                        b: nums[2],
                        c: nums[3],
                    };
                    if t == "op" {
                        case.ops.push(o)
                    } else {
                        case.probe.push(o)
                    }
                }
            }
        }
        if seen {
            Some(case)
        } else {
            None
        }
    }
    pub fn hash64(&self) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        self.hash(&mut h);
        h.finish()
    }
}

/// A position in `0..=n`: uniform, near either end, or at and around a multiple of the node width.
pub fn idx(sel: u32, n: usize) -> usize {
    let r = (sel / 8) as usize;
    match sel % 8 {
        1 => (r % (W + 6)).min(n),
        2 => n - (r % (W + 6)).min(n),
        3 => ((r % (n / W + 1)) * W).min(n),
        4 => ((r % (n / W + 1)) * W + 1).min(n),
        5 => ((r % (n / W + 1)) * W).saturating_sub(1).min(n),
        _ => r % (n + 1),
    }
}

/// A position in `0..n`, `n > 0`.
pub fn idx_lt(sel: u32, n: usize) -> usize {
    idx(sel, n - 1)
}

const COUNTS: [usize; 34] = [
    1, 1, 1, 2, 2, 3, 4, 5, 7, 12, 20, 31, 32, 33, 45, 62, 63, 64, 65, 66, 90, 100, 127, 128, 129, 190, 256, 400, 700, 1100,
    2048, 4032, 4097, 6200,
];
const NARROW_COUNTS: [usize; 34] = [
    1, 1, 1, 2, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 48, 56, 63, 64, 65, 90, 130, 200, 280, 420,
    513, 900,
];
const fn counts() -> &'static [usize; 34] {
    if NARROW {
        &NARROW_COUNTS
    } else {
        &COUNTS
    }
}

pub fn count(sel: u32) -> usize {
    let t = counts()[(sel % 34) as usize];
    if (sel / 34) % 4 == 0 {
        // Anything up to the next size
        t + (sel as usize / 136) % (t + 1)
    } else {
        t
    }
}

/// As `count`, but at most 130.
pub fn small_count(sel: u32) -> usize {
    counts()[(sel % 23) as usize].min(130)
}

pub struct Mix(pub u64);
impl Mix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
}
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
