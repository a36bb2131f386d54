// Included once per pointer flavour (see main.rs): `V<T>` is the vector type.

/// Compares a vector with the list it should be equal to, by its length and its iterator.
pub fn same<T: Elem>(v: &V<T>, m: &[u64]) -> Result<(), String> {
    if v.len() != m.len() {
        return Err(format!("len() is {} but should be {}", v.len(), m.len()));
    }
    if v.is_empty() != m.is_empty() {
        return Err(format!("is_empty() is {} at length {}", v.is_empty(), m.len()));
    }
    let mut n = 0;
    for x in v.iter() {
        if n == m.len() {
            return Err(format!("the iterator yields more than {} elements", n));
        }
        if x.val() != m[n] {
            return Err(format!("element {} of {} is {} but should be {}", n, m.len(), x.val(), m[n]));
        }
        n += 1;
    }
    if n != m.len() {
        return Err(format!("the iterator yields {} of {} elements", n, m.len()));
    }
    Ok(())
}

pub fn shape_of<T: Elem>(_v: &V<T>) -> Result<ShapeInfo, String> {
    #[cfg(librrb_verif)]
    {
        let s = _v.verif_shape()?;
        return Ok(ShapeInfo {
            known: true,
            height: s.height,
            partial: s.partial,
            empty_root: s.empty_root,
            empty_spine_nodes: s.empty_spine_nodes,
        });
    }
    #[cfg(not(librrb_verif))]
    Ok(ShapeInfo::default())
}

pub fn from_vals<T: Elem>(vals: &[u64]) -> V<T> {
    let mut v = V::new();
    for &x in vals {
        v.push_back(T::mk(x));
    }
    v
}

pub const SLOTS: usize = 4;

/// Some vectors, and the lists they should be equal to.
pub struct World<T: Elem> {
    pub v: Vec<V<T>>,
    pub m: Vec<Vec<u64>>,
    next: u64,
    cap: usize,
    /// The slots that the last operation may change.
    pub touched: [bool; SLOTS],
    pub desc: String,
}

fn eq_val<T: Elem>(what: &str, got: Option<&T>, want: Option<u64>) -> Result<(), String> {
    let got = got.map(|x| x.val());
    if got != want {
        Err(format!("{} yields {:?} but should yield {:?}", what, got, want))
    } else {
        Ok(())
    }
}

impl<T: Elem> World<T> {
    pub fn new(cap: usize) -> Self {
        World {
            v: (0..SLOTS).map(|_| V::new()).collect(),
            m: vec![vec![]; SLOTS],
            next: 0,
            cap,
            touched: [false; SLOTS],
            desc: String::new(),
        }
    }
    /// Makes the values used from now on start at `from`.
    pub fn skip_values(&mut self, from: u64) {
        self.next = from;
    }
    fn fresh(&mut self) -> u64 {
        self.next += 1;
        T::norm(self.next)
    }
    /// How many elements may still be added to the slot, at most `n`.
    fn room(&self, s: usize, n: usize) -> usize {
        n.min(self.cap.saturating_sub(self.m[s].len()))
    }
    pub fn total(&self) -> usize {
        self.m.iter().map(|m| m.len()).sum()
    }
    pub fn longest(&self) -> usize {
        (0..SLOTS).max_by_key(|&i| (self.m[i].len(), SLOTS - i)).unwrap()
    }
    pub fn check_touched(&self) -> Result<(), String> {
        for s in 0..SLOTS {
            if self.touched[s] {
                same(&self.v[s], &self.m[s]).map_err(|e| format!("slot {}: {}", s, e))?;
            } else if self.v[s].len() != self.m[s].len() {
                return Err(format!("slot {}: len() is {} but should be {}", s, self.v[s].len(), self.m[s].len()));
            }
        }
        Ok(())
    }
    pub fn check_all(&self) -> Result<(), String> {
        for s in 0..SLOTS {
            same(&self.v[s], &self.m[s]).map_err(|e| {
                format!("slot {}{}: {}", s, if self.touched[s] { "" } else { " (not operated on)" }, e)
            })?;
        }
        Ok(())
    }
    pub fn shape(&self, s: usize) -> Result<ShapeInfo, String> {
        shape_of(&self.v[s])
    }

    /// A range of `0..=len` in one of the ways to write one, with the list positions it denotes.
    fn range_of(&self, s: usize, b: u32, c: u32) -> ((Bound<usize>, Bound<usize>), Range<usize>) {
        pick_range(self.m[s].len(), b, c)
    }

    pub fn apply(&mut self, op: &Op) -> Result<(), String> {
        self.touched = [false; SLOTS];
        let s = (op.a % SLOTS as u32) as usize;
        let t = ((op.a / 4) % SLOTS as u32) as usize;
        let extra = op.a / 16;
        self.touched[s] = true;
        let len = self.m[s].len();
        match op.k {
            OP_PUSH_BACK => {
                let n = self.room(s, count(op.b));
                self.desc = format!("push_back x{} on {} (len {})", n, s, len);
                for _ in 0..n {
                    let x = self.fresh();
                    self.v[s].push_back(T::mk(x));
                    self.m[s].push(x);
                }
            }
            OP_PUSH_FRONT => {
                let n = self.room(s, count(op.b));
                self.desc = format!("push_front x{} on {} (len {})", n, s, len);
                let mut add = vec![];
                for _ in 0..n {
                    let x = self.fresh();
                    self.v[s].push_front(T::mk(x));
                    add.push(x);
                }
                add.reverse();
                add.extend_from_slice(&self.m[s]);
                self.m[s] = add;
            }
            OP_POP_BACK => {
                let n = count(op.b);
                self.desc = format!("pop_back x{} on {} (len {})", n, s, len);
                for _ in 0..n {
                    let got = self.v[s].pop_back();
                    let want = self.m[s].pop();
                    eq_val("pop_back", got.as_ref(), want)?;
                    if want.is_none() {
                        break;
                    }
                }
            }
            OP_POP_FRONT => {
                let n = count(op.b);
                self.desc = format!("pop_front x{} on {} (len {})", n, s, len);
                let mut done = 0;
                for _ in 0..n {
                    let got = self.v[s].pop_front();
                    let want = self.m[s].get(done).copied();
                    eq_val("pop_front", got.as_ref(), want)?;
                    if want.is_none() {
                        break;
                    }
                    done += 1;
                }
                self.m[s].drain(..done);
            }
            OP_APPEND | OP_PREPEND => {
                let t = if t == s { (s + 1) % SLOTS } else { t };
                self.touched[t] = true;
                let back = op.k == OP_APPEND;
                self.desc = format!(
                    "{} {} (len {}) to {} (len {})",
                    if back { "append" } else { "prepend" },
                    t,
                    self.m[t].len(),
                    s,
                    len
                );
                if len + self.m[t].len() <= self.cap {
                    let other = std::mem::replace(&mut self.v[t], V::new());
                    let om = std::mem::take(&mut self.m[t]);
                    self.join(s, other, om, back);
                }
            }
            OP_APPEND_CLONE | OP_PREPEND_CLONE => {
                let back = op.k == OP_APPEND_CLONE;
                self.desc = format!(
                    "{} clone of {} (len {}) to {} (len {})",
                    if back { "append" } else { "prepend" },
                    t,
                    self.m[t].len(),
                    s,
                    len
                );
                if len + self.m[t].len() <= self.cap {
                    let other = self.v[t].clone();
                    let om = self.m[t].clone();
                    self.join(s, other, om, back);
                }
            }
            OP_SLICE_FROM_START => {
                let i = idx(op.b, len);
                self.desc = format!("slice_from_start({}) of {} (len {})", i, s, len);
                self.v[s].slice_from_start(i);
                self.m[s].truncate(i);
            }
            OP_SLICE_TO_END => {
                let i = idx(op.b, len);
                self.desc = format!("slice_to_end({}) of {} (len {})", i, s, len);
                self.v[s].slice_to_end(i);
                self.m[s].drain(..i);
            }
            OP_SPLIT_OFF => {
                let i = idx(op.b, len);
                self.desc = format!("split_off({}) of {} (len {}) into {}", i, s, len, t);
                let rest = self.v[s].split_off(i);
                let mrest = self.m[s].split_off(i);
                if t != s {
                    self.touched[t] = true;
                    self.v[t] = rest;
                    self.m[t] = mrest;
                } else {
                    same(&rest, &mrest).map_err(|e| format!("the split off part: {}", e))?;
                }
            }
            OP_EXTRACT => {
                let (r, p) = self.range_of(s, op.b, op.c);
                self.desc = format!("extract_slice({:?}) of {} (len {}) into {}", r, s, len, t);
                let mid = self.v[s].extract_slice(r);
                let mmid: Vec<u64> = self.m[s].drain(p).collect();
                if t != s {
                    self.touched[t] = true;
                    self.v[t] = mid;
                    self.m[t] = mmid;
                } else {
                    same(&mid, &mmid).map_err(|e| format!("the extracted part: {}", e))?;
                }
            }
            OP_INSERT => {
                let n = self.room(s, [1, 1, 2, 5, 30, 70, 150, 400][(extra % 8) as usize]);
                let n = if self.longest_work() > 4_000_000 { n.min(2) } else { n };
                let mut i = idx(op.b, len);
                // 0: at one place, 1: after one another, 2: scattered
                let mode = op.c % 3;
                self.desc = format!("insert x{} from {} (mode {}) into {} (len {})", n, i, mode, s, len);
                let mut mixer = Mix(op.c as u64);
                for _ in 0..n {
                    let x = self.fresh();
                    self.v[s].insert(i, T::mk(x));
                    self.m[s].insert(i, x);
                    match mode {
                        0 => {}
                        1 => i += 1,
                        _ => i = (mixer.next() % (self.m[s].len() as u64 + 1)) as usize,
                    }
                }
            }
            OP_REMOVE => {
                let n = [1, 1, 2, 5, 30, 70, 150, 400][(extra % 8) as usize];
                let mut i = idx(op.b, len.saturating_sub(1));
                let mode = op.c % 2;
                self.desc = format!("remove x{} from {} (mode {}) of {} (len {})", n, i, mode, s, len);
                let mut mixer = Mix(op.c as u64);
                for _ in 0..n {
                    let got = self.v[s].remove(i);
                    let want = if i < self.m[s].len() { Some(self.m[s].remove(i)) } else { None };
                    eq_val("remove", got.as_ref(), want)?;
                    if want.is_none() {
                        break;
                    }
                    if mode == 1 && !self.m[s].is_empty() {
                        i = (mixer.next() % self.m[s].len() as u64) as usize;
                    }
                }
            }
            OP_REVERSE => {
                self.desc = format!("reverse {} (len {})", s, len);
                self.v[s].reverse();
                self.m[s].reverse();
            }
            OP_REVERSE_RANGE => {
                let (r, p) = self.range_of(s, op.b, op.c);
                self.desc = format!("reverse_range({:?}) of {} (len {})", r, s, len);
                self.v[s].reverse_range(r);
                self.m[s][p].reverse();
            }
            OP_CLONE => {
                if t != s {
                    self.touched[t] = true;
                }
                self.desc = format!("clone {} (len {}) into {}", s, len, t);
                let c = self.v[s].clone();
                self.v[t] = c;
                self.m[t] = self.m[s].clone();
            }
            OP_SET => {
                let how = extra % 6;
                if len == 0 {
                    self.desc = "nothing to set".into();
                    return Ok(());
                }
                let i = match how {
                    4 => 0,
                    5 => len - 1,
                    _ => idx_lt(op.b, len),
                };
                let x = self.fresh();
                self.desc = format!("set {} of {} (len {}) via {}", i, s, len, ACCESSORS[how as usize]);
                let v = &mut self.v[s];
                let miss = || format!("no element {} of {}", i, len);
                match how {
                    0 => *v.get_mut(i).ok_or_else(miss)? = T::mk(x),
                    1 => v[i] = T::mk(x),
                    2 => *v.get_mut_guarded(i).ok_or_else(miss)? = T::mk(x),
                    3 => *v.focus_mut().get(i).ok_or_else(miss)? = T::mk(x),
                    4 => *v.front_mut().ok_or_else(miss)? = T::mk(x),
                    _ => *v.back_mut().ok_or_else(miss)? = T::mk(x),
                }
                self.m[s][i] = x;
            }
            OP_SWEEP => {
                // Overwrites every step-th element through an iterator or a focus
                let step = 1 + (op.b % 97) as usize;
                let how = extra % 4;
                self.desc = format!("overwrite every {}th of {} (len {}), way {}", step, s, len, how);
                let xs: Vec<u64> = (0..len).map(|_| self.fresh()).collect();
                let v = &mut self.v[s];
                match how {
                    0 => {
                        for (i, x) in v.iter_mut().enumerate() {
                            if i >= len {
                                return Err("iter_mut yields too many elements".into());
                            }
                            if i % step == 0 {
                                *x = T::mk(xs[i]);
                            }
                        }
                    }
                    1 => {
                        for (i, x) in v.iter_mut().rev().enumerate() {
                            if i >= len {
                                return Err("iter_mut().rev() yields too many elements".into());
                            }
                            let i = len - 1 - i;
                            if i % step == 0 {
                                *x = T::mk(xs[i]);
                            }
                        }
                    }
                    2 => {
                        let mut f = v.focus_mut();
                        let mut i = 0;
                        while i < len {
                            *f.get(i).ok_or("focus_mut misses an element")? = T::mk(xs[i]);
                            i += step;
                        }
                    }
                    _ => {
                        let at = idx(op.c, len);
                        let mut f = v.focus_mut();
                        let (mut l, mut r) = f.split_at(at);
                        let mut i = (len.saturating_sub(1) / step) * step;
                        while i < len {
                            if i >= at {
                                *r.get(i - at).ok_or("the right part misses an element")? = T::mk(xs[i]);
                            } else {
                                *l.get(i).ok_or("the left part misses an element")? = T::mk(xs[i]);
                            }
                            if i < step {
                                break;
                            }
                            i -= step;
                        }
                    }
                }
                for i in (0..len).step_by(step) {
                    self.m[s][i] = xs[i];
                }
            }
            OP_SORT => {
                let (r, p) = self.range_of(s, op.b, op.c);
                let key = |x: u64| mix(x) % 1000;
                let desc = extra % 2 == 1;
                self.desc = format!("sort_range_by({:?}) of {} (len {})", r, s, len);
                set_fuel(2000 * (p.len() as u64 + 10));
                let f = |a: &T, b: &T| {
                    tick();
                    let (a, b) = (a.val(), b.val());
                    let o = (key(a), a).cmp(&(key(b), b));
                    if desc {
                        o.reverse()
                    } else {
                        o
                    }
                };
                self.v[s].sort_range_by(&f, r);
                set_fuel(u64::MAX);
                self.m[s][p].sort_by(|a, b| {
                    let o = (key(*a), *a).cmp(&(key(*b), *b));
                    if desc {
                        o.reverse()
                    } else {
                        o
                    }
                });
            }
            OP_CONSTANT => {
                let n = self.room(s, count(op.b));
                let n = if op.c % 8 == 0 { 0 } else { n };
                let x = self.fresh();
                self.desc = format!("constant_vec_of_length({}) into {}", n, s);
                self.v[s] = V::constant_vec_of_length(T::mk(x), n);
                self.m[s] = vec![x; n];
            }
            OP_COLLECT => {
                let n = self.room(s, count(op.b)).min(self.cap);
                self.desc = format!("collect {} into {}", n, s);
                let xs: Vec<u64> = (0..n).map(|_| self.fresh()).collect();
                self.v[s] = match extra % 4 {
                    // An iterator that knows little about its length
                    1 => xs.iter().filter(|_| true).map(|x| T::mk(*x)).collect(),
                    // and ones that must not be asked again after their end
                    2 => {
                        let mut at = 0;
                        std::iter::from_fn(|| {
                            at += 1;
                            assert!(at <= n + 1, "the iterator was asked again after its end");
                            xs.get(at - 1).map(|x| T::mk(*x))
                        })
                        .collect()
                    }
                    3 => {
                        let mut at = 0;
                        let once_more = std::iter::from_fn(|| {
                            at += 1;
                            if at == n + 1 { None } else { Some(T::mk(*xs.get(at - 1).unwrap_or(&77))) }
                        });
                        V::from_iter(once_more)
                    }
                    _ => xs.iter().map(|x| T::mk(*x)).collect(),
                };
                self.m[s] = xs;
            }
            OP_CLEAR => {
                self.desc = format!("replace {} (len {}) by new/default/singleton", s, len);
                match extra % 3 {
                    0 => {
                        self.v[s] = V::new();
                        self.m[s] = vec![];
                    }
                    1 => {
                        self.v[s] = V::default();
                        self.m[s] = vec![];
                    }
                    _ => {
                        let x = self.fresh();
                        self.v[s] = V::singleton(T::mk(x));
                        self.m[s] = vec![x];
                    }
                }
            }
            OP_PIECES => {
                // Concatenates many small pieces, which gives sparse nodes
                let n = [2, 3, 5, 9, 20, 70][(extra % 6) as usize];
                let size = small_count(op.b);
                let front = op.c % 2 == 1;
                let vary = (op.c / 2) % 2 == 1;
                self.desc = format!(
                    "{} {} pieces of about {} to {} (len {})",
                    if front { "prepend" } else { "append" },
                    n,
                    size,
                    s,
                    len
                );
                for j in 0..n {
                    let k = if vary { 1 + (size * (j % 5)) / 4 } else { size };
                    if self.room(s, k) < k {
                        break;
                    }
                    let mut piece = V::new();
                    let mut pm = vec![];
                    for _ in 0..k {
                        let x = self.fresh();
                        if (op.c / 4) % 2 == 1 {
                            piece.push_front(T::mk(x));
                            pm.insert(0, x);
                        } else {
                            piece.push_back(T::mk(x));
                            pm.push(x);
                        }
                    }
                    self.join(s, piece, pm, !front);
                }
            }
            OP_CUT_REJOIN => {
                // Splits and rejoins, also with the parts exchanged
                let i = idx(op.b, len);
                let swap = op.c % 2 == 1;
                self.desc = format!("split {} (len {}) at {} and rejoin, exchanged: {}", s, len, i, swap);
                let rest = self.v[s].split_off(i);
                let mrest = self.m[s].split_off(i);
                self.join(s, rest, mrest, !swap);
            }
            OP_CONSUME => {
                // Takes elements from both ends of the consuming iterator, then drops it
                let n = idx(op.b, len);
                self.desc = format!("consume {} of {} (len {}) through into_iter", n, s, len);
                let mut it = std::mem::replace(&mut self.v[s], V::new()).into_iter();
                let m = std::mem::take(&mut self.m[s]);
                let mut mixer = Mix(op.c as u64);
                let (mut lo, mut hi) = (0, m.len());
                for _ in 0..n {
                    if it.len() != hi - lo {
                        return Err(format!("into_iter reports {} remaining of {}", it.len(), hi - lo));
                    }
                    if mixer.next() % 2 == 0 {
                        eq_val("into_iter.next", it.next().as_ref(), Some(m[lo]))?;
                        lo += 1;
                    } else {
                        eq_val("into_iter.next_back", it.next_back().as_ref(), Some(m[hi - 1]))?;
                        hi -= 1;
                    }
                }
                if n == m.len() {
                    eq_val("exhausted into_iter", it.next().as_ref(), None)?;
                    eq_val("exhausted into_iter", it.next_back().as_ref(), None)?;
                }
            }
            OP_SAW => {
                // Pushes and pops across node boundaries, many times
                let n = 1 + (op.b % 90) as usize;
                let rounds = 1 + (op.c % 6) as usize;
                let mode = extra % 4;
                self.desc = format!("push/pop {} x{} on {} (len {}), ends {}", n, rounds, s, len, mode);
                let mut dq: std::collections::VecDeque<u64> = std::mem::take(&mut self.m[s]).into();
                for _ in 0..rounds {
                    for _ in 0..n {
                        if dq.len() >= self.cap {
                            break;
                        }
                        let x = self.fresh();
                        if mode & 1 == 0 {
                            self.v[s].push_back(T::mk(x));
                            dq.push_back(x);
                        } else {
                            self.v[s].push_front(T::mk(x));
                            dq.push_front(x);
                        }
                    }
                    for _ in 0..n + 1 {
                        let (got, want) = if mode & 2 == 0 {
                            (self.v[s].pop_back(), dq.pop_back())
                        } else {
                            (self.v[s].pop_front(), dq.pop_front())
                        };
                        if got.as_ref().map(|x| x.val()) != want {
                            return Err(format!("pop yields {:?} but should yield {:?}", got, want));
                        }
                    }
                }
                self.m[s] = dq.into();
            }
            _ => unreachable!("operation {}", op.k),
        }
        Ok(())
    }

    fn longest_work(&self) -> usize {
        let n = self.m.iter().map(|m| m.len()).max().unwrap();
        n * 400
    }

    fn join(&mut self, s: usize, other: V<T>, om: Vec<u64>, back: bool) {
        if back {
            self.v[s].append(other);
            self.m[s].extend(om);
        } else {
            self.v[s].prepend(other);
            let old = std::mem::replace(&mut self.m[s], om);
            self.m[s].extend(old);
        }
    }
}

/// Builds a vector of the given contents in a way that depends on the plan. Also returns vectors
/// that share nodes with it.
pub fn build<T: Elem>(vals: &[u64], plan: &[Op]) -> (V<T>, Vec<(V<T>, Vec<u64>)>) {
    let n = vals.len();
    let start = plan.first().map_or(0, |o| idx(o.c, n));
    let (mut lo, mut hi) = (start, start);
    let mut v: V<T> = V::new();
    let mut keep = vec![];
    let piece = |r: Range<usize>, front: bool| -> V<T> {
        let mut p = V::new();
        if front {
            for &x in vals[r].iter().rev() {
                p.push_front(T::mk(x));
            }
        } else {
            for &x in &vals[r] {
                p.push_back(T::mk(x));
            }
        }
        p
    };
    for op in plan {
        let len = hi - lo;
        match op.k % 13 {
            0 => {
                let k = count(op.a).min(n - hi);
                for &x in &vals[hi..hi + k] {
                    v.push_back(T::mk(x));
                }
                hi += k;
            }
            1 => {
                let k = count(op.a).min(lo);
                for &x in vals[lo - k..lo].iter().rev() {
                    v.push_front(T::mk(x));
                }
                lo -= k;
            }
            2 => {
                let k = count(op.a).min(n - hi);
                v.append(piece(hi..hi + k, op.b % 2 == 1));
                hi += k;
            }
            3 => {
                let k = count(op.a).min(lo);
                v.prepend(piece(lo - k..lo, op.b % 2 == 1));
                lo -= k;
            }
            4 => {
                let rest = v.split_off(idx(op.a, len));
                v.append(rest);
            }
            5 => {
                for j in 0..1 + op.b % 40 {
                    if len > 0 {
                        let i = idx_lt(op.a.wrapping_add(j.wrapping_mul(op.c)), len);
                        if let Some(x) = v.remove(i) {
                            v.insert(i, x);
                        }
                    }
                }
            }
            6 => {
                let k = count(op.a).min(len);
                let back = op.b % 2 == 0;
                let mut out = vec![];
                for _ in 0..k {
                    out.extend(if back { v.pop_back() } else { v.pop_front() });
                }
                for x in out.into_iter().rev() {
                    if back {
                        v.push_back(x)
                    } else {
                        v.push_front(x)
                    }
                }
            }
            7 => {
                let (r, p) = pick_range(len, op.a, op.b);
                let mid = v.extract_slice(r);
                let tail = v.split_off(p.start);
                v.append(mid);
                v.append(tail);
            }
            8 => {
                let k = count(op.a).min(3000);
                for j in 0..k {
                    v.push_back(T::mk(j as u64));
                }
                v.slice_from_start(len);
            }
            9 => {
                let k = count(op.a).min(3000);
                for j in 0..k {
                    v.push_front(T::mk(j as u64));
                }
                v.slice_to_end(k);
            }
            10 => keep.push((v.clone(), vals[lo..hi].to_vec())),
            11 => {
                // Many small pieces
                for j in 0..2 + op.b % 40 {
                    let k = (small_count(op.a) * (1 + j as usize % 3) / 2).max(1);
                    if op.c % 2 == 0 {
                        let k = k.min(n - hi);
                        v.append(piece(hi..hi + k, false));
                        hi += k;
                    } else {
                        let k = k.min(lo);
                        v.prepend(piece(lo - k..lo, true));
                        lo -= k;
                    }
                }
            }
            _ => {
                // Junk on both sides, cut away again by splitting
                let k = count(op.a).min(2000);
                let mut junk: V<T> = (0..k).map(|j| T::mk(j as u64)).collect();
                v.append(junk.clone());
                junk.append(v);
                v = junk.split_off(k);
                v.slice_from_start(len);
            }
        }
    }
    if plan.first().map_or(0, |o| o.b % 2) == 1 {
        for &x in vals[..lo].iter().rev() {
            v.push_front(T::mk(x));
        }
        for &x in &vals[hi..] {
            v.push_back(T::mk(x));
        }
    } else {
        if hi < n {
            v.append(piece(hi..n, false));
        }
        if lo > 0 {
            v.prepend(piece(0..lo, true));
        }
    }
    (v, keep)
}

pub fn check_keep<T: Elem>(keep: &[(V<T>, Vec<u64>)]) -> Result<(), String> {
    for (i, (v, m)) in keep.iter().enumerate() {
        same(v, m).map_err(|e| format!("earlier clone {}: {}", i, e))?;
    }
    Ok(())
}
