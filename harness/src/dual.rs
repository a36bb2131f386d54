//! C07: dual sorting.
use crate::*;

fn tag(x: u64) -> u64 {
    // Determined by the serial number of the primary element, and unique
    (x & 0xFFFFF) * 7 + 3
}

macro_rules! dual_check {
    ($name:ident, $p:ident, $tp:ty, $s:ident, $ts:ty) => {
        fn $name(case: &Case, st: &mut Stats) -> Result<(), String> {
            let vals = contents(case, case_cap(case).min(1 << 20));
            let n = vals.len();
            let half = case.ops.len() / 2;
            let extra = [0usize, 0, 1, W - 1, W, 200, if NARROW { 800 } else { 5000 }][(case.h(6) % 7) as usize];
            let mut tags: Vec<u64> = vals.iter().map(|x| tag(*x)).collect();
            tags.extend((0..extra as u64).map(|i| tag(0xFFFFF) + 1 + i));
            let (v, keep) = guard(|| Ok($p::build::<$tp>(&vals, &case.ops[..half])))?;
            let (w, keep2) = guard(|| Ok($s::build::<$ts>(&tags, &case.ops[half..])))?;
            let (mut v, mut w, keep, keep2) = (
                ManuallyDrop::new(v),
                ManuallyDrop::new(w),
                ManuallyDrop::new(keep),
                ManuallyDrop::new(keep2),
            );
            guard(|| {
                $p::same(&v, &vals)?;
                $s::same(&w, &tags)
            })
            .map_err(|e| format!("building the input: {}", e))?;
            let mut m = vals;
            for (step, p) in case.probe.iter().enumerate() {
                let (range, pos) = pick_range(n, p.a, p.b);
                let kind = p.k % 6;
                let coarse = [0u32, 8, 30, 31, 34, 40, 63][(p.c % 7) as usize];
                let keyf = |x: u64| ((x >> 20) >> coarse) as i64 * if (p.c / 7) % 2 == 1 { -1 } else { 1 };
                let by = |a: &$tp, b: &$tp| {
                    tick();
                    keyf(a.val()).cmp(&keyf(b.val()))
                };
                let rev = |a: &$tp, b: &$tp| {
                    tick();
                    b.val().cmp(&a.val())
                };
                let key = |a: &$tp| {
                    tick();
                    keyf(a.val())
                };
                let whole = matches!(kind, 0 | 1 | 5);
                let region = if whole { 0..n } else { pos.clone() };
                let desc = format!(
                    "{} on {:?} of {}, secondary {}",
                    [
                        "dual_sort",
                        "dual_sort_by",
                        "dual_sort_range",
                        "dual_sort_range_by",
                        "dual_sort_range_by_key",
                        "dual_sort_by reversed"
                    ][kind as usize],
                    region,
                    n,
                    n + extra
                );
                st.log(&desc);
                set_fuel($p::sort_fuel(region.len()));
                let r = guard(|| {
                    match kind {
                        0 => v.dual_sort(&mut *w),
                        1 => v.dual_sort_by(&by, &mut *w),
                        2 => v.dual_sort_range(range, &mut *w),
                        3 => v.dual_sort_range_by(&by, range, &mut *w),
                        4 => v.dual_sort_range_by_key(&key, range, &mut *w),
                        _ => v.dual_sort_by(&rev, &mut *w),
                    }
                    Ok(())
                });
                set_fuel(u64::MAX);
                r.map_err(|e| format!("step {} ({}): {}", step, desc, e))?;
                st.nontrivial |= region.len() > W;
                st.hit_if(extra > 0, "longer_secondary");
                guard(|| {
                    let got: Vec<u64> = v.iter().take(n + 1).map(|x| x.val()).collect();
                    let gtag: Vec<u64> = w.iter().take(n + extra + 1).map(|x| x.val()).collect();
                    if got.len() != n || gtag.len() != n + extra {
                        return Err(format!("the lengths are {} and {}", got.len(), gtag.len()));
                    }
                    for i in 0..n + extra {
                        if i < n && !region.contains(&i) && got[i] != m[i] {
                            return Err(format!(
                                "element {} outside the range changed from {} to {}",
                                i, m[i], got[i]
                            ));
                        }
                        let want = if i < n { tag(got[i]) } else { tags[i] };
                        if gtag[i] != want {
                            return Err(format!(
                                "secondary element {} is {}, but {} belongs to the primary one",
                                i, gtag[i], want
                            ));
                        }
                    }
                    for i in region.start + 1..region.end.max(region.start + 1) {
                        let (a, b) = (got[i - 1], got[i]);
                        let ok = match kind {
                            0 | 2 => a <= b,
                            5 => a >= b,
                            _ => keyf(a) <= keyf(b),
                        };
                        if !ok {
                            return Err(format!(
                                "positions {} and {} hold {} and {}, out of order",
                                i - 1,
                                i,
                                a,
                                b
                            ));
                        }
                    }
                    let mut x = got[region.clone()].to_vec();
                    let mut y = m[region.clone()].to_vec();
                    x.sort_unstable();
                    y.sort_unstable();
                    if x != y {
                        return Err("the range does not hold the elements it held before".into());
                    }
                    m = got;
                    $p::check_keep(&keep)?;
                    $s::check_keep(&keep2)
                })
                .map_err(|e| format!("step {} ({}): {}", step, desc, e))?;
            }
            guard(|| {
                drop(ManuallyDrop::into_inner(v));
                drop(ManuallyDrop::into_inner(w));
                drop(ManuallyDrop::into_inner(keep));
                drop(ManuallyDrop::into_inner(keep2));
                Ok(())
            })?;
            Tracked::ok()?;
            if Tracked::live() != 0 {
                return Err(format!("{} elements were leaked", Tracked::live()));
            }
            Ok(())
        }
    };
}
dual_check!(rc_rc, rc, u64, rc, u64);
dual_check!(rc_arc, rc, u64, arc, Box<u64>);
dual_check!(arc_rc, arc, Box<u64>, rc, u64);
dual_check!(arc_arc, arc, u64, arc, u64);
dual_check!(rc_tracked, rc, Tracked, rc, Tracked);
dual_check!(rc_mixed, rc, u64, rc, Tracked);

pub fn run(case: &Case, st: &mut Stats) -> Result<(), String> {
    match case.h(1) % 8 {
        0..=2 => rc_rc(case, st),
        3 => rc_arc(case, st),
        4 => arc_rc(case, st),
        5 => arc_arc(case, st),
        6 => rc_tracked(case, st),
        _ => rc_mixed(case, st),
    }
}
