// Included once per pointer flavour, after engine.rs: the checks of the properties.

// ---------------------------------------------------------------- C01, C02, C11: histories

pub fn history<T: Elem>(case: &Case, st: &mut Stats, mode: Mode) -> Result<(), String> {
    let cap = case_cap(case);
    let mut w: ManuallyDrop<World<T>> = ManuallyDrop::new(World::new(cap));
    let mut max_height = 0;
    let mut kinds = 0u32;
    let mut longest = 0;
    let mut sharing = false;
    for (i, op) in case.ops.iter().enumerate() {
        let r = guard(|| w.apply(op)).and_then(|_| {
            kinds |= 1 << op.k;
            let len = (0..SLOTS).filter(|s| w.touched[*s]).map(|s| w.m[s].len()).max().unwrap();
            longest = longest.max(len);
            let clones = matches!(op.k, OP_CLONE | OP_APPEND_CLONE | OP_PREPEND_CLONE | OP_CONSTANT);
            st.nontrivial |= match mode {
                Mode::Clones => sharing && !clones && len > W,
                _ => kinds.count_ones() >= 3 && longest > 2 * W,
            };
            sharing |= clones && len > W;
            guard(|| match mode {
                Mode::Edits => w.check_touched(),
                Mode::Clones => w.check_all(),
                Mode::Shape => {
                    for s in 0..SLOTS {
                        if w.touched[s] || i % 8 == 7 {
                            let sh = w.shape(s).map_err(|e| format!("slot {} (len {}): {}", s, w.v[s].len(), e))?;
                            max_height = max_height.max(sh.height);
                            st.max("max_height", sh.height as u64);
                            st.hit_if(sh.partial > 0, "op_on_relaxed_tree");
                            st.hit_if(sh.empty_root, "op_with_empty_root");
                            st.hit_if(sh.empty_spine_nodes > 0, "op_with_empty_spine_node");
                            st.hit_if(sh.height >= 2, "op_at_height_2_or_more");
                        }
                    }
                    Ok(())
                }
            })
        });
        st.log(&w.desc);
        st.hit(OP_NAMES[op.k as usize]);
        r.map_err(|e| format!("step {} ({}): {}", i, w.desc, e))?;
    }
    let last = guard(|| w.check_all());
    last.map_err(|e| format!("at the end: {}", e))?;
    for s in 0..SLOTS {
        if mode != Mode::Shape {
            if let Ok(sh) = w.shape(s) {
                max_height = max_height.max(sh.height);
                st.max("max_height", sh.height as u64);
                st.hit_if(sh.partial > 0, "end_with_relaxed_tree");
                st.hit_if(sh.empty_root, "end_with_empty_root");
                st.hit_if(sh.height >= 2, "end_at_height_2_or_more");
            }
        }
    }
    if mode == Mode::Edits {
        // Read everything back by consuming
        for s in 0..SLOTS {
            let v = std::mem::replace(&mut w.v[s], V::new());
            let n = w.m[s].len();
            let got: Vec<u64> = v.into_iter().take(n + 1).map(|x| x.val()).collect();
            if got != w.m[s] {
                return Err(format!("slot {}: into_iter yields a different sequence of {} for {}", s, got.len(), n));
            }
        }
    }
    guard(|| {
        drop(ManuallyDrop::into_inner(w));
        Ok(())
    })
    .map_err(|e| format!("dropping everything: {}", e))?;
    Tracked::ok()?;
    Ok(())
}

/// Builds vectors through a history, for the checks that need interesting trees.
fn prepared<T: Elem>(case: &Case, st: &mut Stats, cap: usize) -> Result<ManuallyDrop<World<T>>, String> {
    let mut w: ManuallyDrop<World<T>> = ManuallyDrop::new(World::new(cap));
    for (i, op) in case.ops.iter().enumerate() {
        let r = guard(|| w.apply(op)).and_then(|_| guard(|| w.check_touched()));
        st.log(&w.desc);
        r.map_err(|e| format!("preparation step {} ({}): {}", i, w.desc, e))?;
    }
    Ok(w)
}

fn note_shape<T: Elem>(v: &V<T>, st: &mut Stats) {
    if let Ok(sh) = shape_of(v) {
        st.max("max_height", sh.height as u64);
        st.hit_if(sh.partial > 0, "relaxed_tree");
        st.hit_if(sh.empty_root, "empty_root");
        st.hit_if(sh.height >= 1, "height_1_or_more");
        st.hit_if(sh.height >= 2, "height_2_or_more");
    }
}

fn finish<T: Elem>(w: ManuallyDrop<World<T>>) -> Result<(), String> {
    guard(|| {
        drop(ManuallyDrop::into_inner(w));
        Ok(())
    })
    .map_err(|e| format!("dropping everything: {}", e))?;
    Tracked::ok()
}

// ---------------------------------------------------------------- C03: reads

pub fn reads<T: Elem>(case: &Case, st: &mut Stats) -> Result<(), String> {
    let mut w = prepared::<T>(case, st, case_cap(case))?;
    let mut nt = false;
    guard(|| {
        for s in 0..SLOTS {
            let m = w.m[s].clone();
            let n = m.len();
            note_shape(&w.v[s], st);
            let before = shape_of(&w.v[s])?;
            {
                let v = &w.v[s];
                for (i, x) in m.iter().enumerate() {
                    match v.get(i) {
                        Some(y) if y.val() == *x => {}
                        y => return Err(format!("slot {}: get({}) of {} is {:?}, not {}", s, i, n, y.map(|y| y.val()), x)),
                    }
                    if v[i].val() != *x {
                        return Err(format!("slot {}: [{}] of {} is {}, not {}", s, i, n, v[i].val(), x));
                    }
                }
                for i in [n, n + 1, n + W - 1, n + W, n + W * W, usize::MAX / 2, usize::MAX] {
                    if v.get(i).is_some() {
                        return Err(format!("slot {}: get({}) of {} yields something", s, i, n));
                    }
                }
                eq_val("front", v.front(), m.first().copied())?;
                eq_val("back", v.back(), m.last().copied())?;
            }
            let mut f = w.v[s].focus();
            if f.len() != n || f.is_empty() != (n == 0) {
                return Err(format!("slot {}: focus length {} of {}", s, f.len(), n));
            }
            for p in &case.probe {
                if n == 0 {
                    continue;
                }
                nt = nt || n > W;
                let i = idx_lt(p.a, n);
                // a stretch of accesses with some stride and direction
                let stride = [1, 1, 2, 7, W - 1, W, W + 1, 10 * W][(p.b % 8) as usize];
                let steps = 1 + (p.c % 40) as usize;
                let down = (p.b / 8) % 2 == 1;
                for j in 0..steps {
                    let i = if down { i as i64 - (j * stride) as i64 } else { (i + j * stride) as i64 };
                    if i < 0 {
                        break;
                    }
                    let i = i as usize;
                    let want = m.get(i).copied();
                    let got = f.get(i).map(|x| x.val());
                    if got != want {
                        return Err(format!("slot {}: focus.get({}) of {} is {:?}, not {:?}", s, i, n, got, want));
                    }
                    if want.is_some() && f.index(i).val() != m[i] {
                        return Err(format!("slot {}: focus.index({}) of {} is wrong", s, i, n));
                    }
                }
            }
            drop(f);
            // The mutable getters, without writing
            let v = &mut w.v[s];
            for p in &case.probe {
                if n == 0 {
                    continue;
                }
                let i = idx_lt(p.c, n);
                eq_val("get_mut", v.get_mut(i).map(|x| &*x), Some(m[i]))?;
                eq_val("get_mut_guarded", v.get_mut_guarded(i).as_deref(), Some(m[i]))?;
                let j = idx_lt(p.a, n);
                if (&mut v[j]).val() != m[j] {
                    return Err(format!("slot {}: index_mut({}) of {} is wrong", s, j, n));
                }
            }
            eq_val("front_mut", v.front_mut().map(|x| &*x), m.first().copied())?;
            eq_val("back_mut", v.back_mut().map(|x| &*x), m.last().copied())?;
            if v.get_mut(n).is_some() || v.get_mut_guarded(n).is_some() || v.get_mut(usize::MAX).is_some() {
                return Err(format!("slot {}: a mutable getter yields something past {}", s, n));
            }
            let after = shape_of(&w.v[s])?;
            if before != after {
                return Err(format!("slot {}: reading changed the tree from {:?} to {:?}", s, before, after));
            }
        }
        w.check_all().map_err(|e| format!("after reading: {}", e))
    })?;
    st.nontrivial = nt;
    finish(w)
}

// ---------------------------------------------------------------- C04: read focus

pub fn focus_window<T: Elem>(case: &Case, st: &mut Stats) -> Result<(), String> {
    let w = prepared::<T>(case, st, case_cap(case))?;
    let s = w.longest();
    let v = &w.v[s];
    let m = &w.m[s];
    note_shape(v, st);
    let mut narrowed_twice = false;
    let r = guard(|| {
        // Each focus with the part of the list it denotes and how often it was narrowed
        let mut pool: Vec<(Foc<T>, Range<usize>, usize)> = vec![(v.focus(), 0..m.len(), 0)];
        for (step, p) in case.probe.iter().enumerate() {
            let j = (p.a as usize) % pool.len();
            let (r, depth) = (pool[j].1.clone(), pool[j].2);
            let n = r.len();
            let what: String;
            match p.k % 10 {
                0 | 1 => {
                    let i = if p.c % 16 == 0 { usize::MAX - (p.c as usize / 16) % 300 } else { idx(p.b, n + 1) };
                    what = format!("get({})", i);
                    let want = if i < n { Some(m[r.start + i]) } else { None };
                    let got = pool[j].0.get(i).map(|x| x.val());
                    if got != want {
                        return Err(format!("step {}: get({}) of a focus on {:?} is {:?}, not {:?}", step, i, r, got, want));
                    }
                }
                2 => {
                    what = "sweep".into();
                    let stride = [1, 1, 3, W, W + 1][(p.b % 5) as usize];
                    let at = idx(p.c, n);
                    for q in 0..60 {
                        let i = if p.b % 2 == 0 { at + q * stride } else { (at + 60 * stride) - q * stride };
                        let want = if i < n { Some(m[r.start + i]) } else { None };
                        let got = pool[j].0.get(i).map(|x| x.val());
                        if got != want {
                            return Err(format!("step {}: get({}) of a focus on {:?} is {:?}, not {:?}", step, i, r, got, want));
                        }
                    }
                }
                3 | 4 => {
                    let (range, pos) = pick_range(n, p.b, p.c);
                    what = format!("narrow({:?})", range);
                    pool[j].0.narrow(range);
                    pool[j].1 = r.start + pos.start..r.start + pos.end;
                    pool[j].2 = depth + 1;
                    narrowed_twice |= depth > 0;
                }
                5 => {
                    if n == 0 {
                        continue;
                    }
                    let i = idx_lt(p.b, n);
                    what = format!("split_at({})", i);
                    let (f, _, d) = pool.remove(j);
                    let (left, right) = f.split_at(i);
                    pool.push((left, r.start..r.start + i, d + 1));
                    pool.push((right, r.start + i..r.end, d + 1));
                    narrowed_twice |= d > 0;
                }
                6 => {
                    what = "clone".into();
                    let f = pool[j].0.clone();
                    pool.push((f, r.clone(), depth));
                }
                7 => {
                    let (_, pos) = pick_range(m.len(), p.b, p.c);
                    what = format!("narrowed_tree({:?})", pos);
                    pool.push((Focus::narrowed_tree(v, pos.clone()), pos, 1));
                }
                8 => {
                    what = "index".into();
                    if n > 0 {
                        let i = idx_lt(p.b, n);
                        if pool[j].0.index(i).val() != m[r.start + i] {
                            return Err(format!("step {}: index({}) of a focus on {:?} is wrong", step, i, r));
                        }
                    }
                }
                _ => {
                    // Reaching out of the window, which must not succeed
                    let over = n + 1 + idx(p.b, m.len() + W);
                    let from = idx(p.c, n);
                    what = format!("clone, then narrow({}..{}) or split_at({})", from, over, over);
                    let mut f = pool[j].0.clone();
                    let g = f.clone();
                    let (len, none) = match guard(|| {
                        f.narrow(from..over);
                        Ok(())
                    }) {
                        Ok(_) => (f.len(), f.get(n - from).is_none() && f.get(over - from - 1).is_none()),
                        Err(_) => (0, true),
                    };
                    if len > n - from || !none {
                        return Err(format!("step {}: a focus on {:?} was narrowed to {}..{}, with len() {}", step, r, from, over, len));
                    }
                    let none = guard(|| {
                        let (mut a, mut b) = g.split_at(over);
                        Ok(a.get(n).is_none() && b.get(0).is_none())
                    });
                    if none == Ok(false) {
                        return Err(format!("step {}: a focus on {:?} was split at {}", step, r, over));
                    }
                }
            }
            if st.logging {
                st.log(&format!("focus on {:?}: {}", r, what));
            }
            if pool.len() > 6 {
                pool.remove(0);
            }
            for (f, r, _) in &pool {
                if f.len() != r.len() || f.is_empty() != r.is_empty() {
                    return Err(format!("step {} ({}): the focus on {:?} has len() {}", step, what, r, f.len()));
                }
            }
            // The ends of the changed focus, and past them; not always, and in varying order, since
            // looking moves the focus
            let q = pool.len() - 1;
            let h = mix((p.a as u64) << 40 ^ (p.b as u64) << 20 ^ p.c as u64 ^ step as u64) >> 8;
            if h % 3 == 0 {
                continue;
            }
            for j in [j.min(q), q] {
                let (f, r, _) = &mut pool[j];
                let looks = [0, r.len() / 2, r.len().wrapping_sub(1), r.len(), r.len() + 1, r.len() + 70];
                let (from, count) = ((h / 3) as usize % 6, 1 + (h / 18) as usize % 6);
                for t in 0..count {
                    let i = looks[(from + t) % 6];
                    let want = if i < r.len() { Some(m[r.start + i]) } else { None };
                    let got = if i == usize::MAX { None } else { f.get(i).map(|x| x.val()) };
                    if got != want {
                        return Err(format!(
                            "step {} ({}): position {} of the focus on {:?} is {:?}, not {:?}",
                            step, what, i, r, got, want
                        ));
                    }
                }
            }
        }
        Ok(())
    });
    r?;
    st.hit_if(narrowed_twice, "nested_narrowing");
    st.nontrivial = narrowed_twice && m.len() > W;
    finish(w)
}

// ---------------------------------------------------------------- C05: mutable focus

struct Script<'p> {
    ops: std::slice::Iter<'p, Op>,
    next: u64,
    splits: usize,
    depth: usize,
    misses: usize,
}

trait Part<T: Elem> {
    fn get(&mut self, i: usize) -> Option<&mut T>;
    fn idx(&mut self, i: usize) -> &mut T;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn split<'s>(&'s mut self, i: usize) -> (FocMut<'s, T>, FocMut<'s, T>);
}
impl<'x, T: Elem> Part<T> for FocMut<'x, T> {
    fn get(&mut self, i: usize) -> Option<&mut T> {
        FocMut::get(self, i)
    }
    fn idx(&mut self, i: usize) -> &mut T {
        FocMut::index(self, i)
    }
    fn len(&self) -> usize {
        FocMut::len(self)
    }
    fn is_empty(&self) -> bool {
        FocMut::is_empty(self)
    }
    fn split<'s>(&'s mut self, i: usize) -> (FocMut<'s, T>, FocMut<'s, T>) {
        self.split_at(i)
    }
}

fn play<T: Elem>(
    parts: &mut Vec<(&mut dyn Part<T>, &mut [u64])>,
    sc: &mut Script,
    st: &mut Stats,
    depth: usize,
) -> Result<(), String> {
    sc.depth = sc.depth.max(depth);
    while let Some(op) = sc.ops.next() {
        let j = (op.a as usize) % parts.len();
        let n = parts[j].1.len();
        if parts[j].0.len() != n || parts[j].0.is_empty() != (n == 0) {
            return Err(format!("depth {}: part {} has len() {}, not {}", depth, j, parts[j].0.len(), n));
        }
        match op.k % 8 {
            0 | 1 | 2 => {
                let i = idx(op.b, n + 1);
                let (f, m) = &mut parts[j];
                if i >= n {
                    sc.misses += 1;
                }
                if st.logging {
                    st.log(&format!("depth {}: write {} of part {} (len {})", depth, i, j, n));
                }
                match (f.get(i), m.get_mut(i)) {
                    (None, None) => {}
                    (Some(x), Some(y)) => {
                        if x.val() != *y {
                            return Err(format!("depth {}: element {} of part {} (len {}) is {}, not {}", depth, i, j, n, x.val(), y));
                        }
                        sc.next += 1;
                        *x = T::mk(sc.next);
                        *y = T::norm(sc.next);
                    }
                    (x, y) => {
                        return Err(format!("depth {}: get({}) of part {} (len {}) is {:?}, not {:?}", depth, i, j, n, x.map(|x| x.val()), y))
                    }
                }
            }
            3 => {
                let stride = [1usize, 1, 5, W, W - 1][(op.b % 5) as usize];
                let down = (op.b / 5) % 2 == 1;
                let at = idx(op.c, n);
                let (f, m) = &mut parts[j];
                if st.logging {
                    st.log(&format!("depth {}: sweep part {} (len {}) from {} by {} down {}", depth, j, n, at, stride, down));
                }
                for q in 0..50 {
                    let i = if down { at.wrapping_sub(q * stride) } else { at + q * stride };
                    if i > n + 3 {
                        break;
                    }
                    match (f.get(i), m.get_mut(i)) {
                        (None, None) => sc.misses += 1,
                        (Some(x), Some(y)) if x.val() == *y => {
                            sc.next += 1;
                            *x = T::mk(sc.next);
                            *y = T::norm(sc.next);
                        }
                        (x, y) => {
                            return Err(format!("depth {}: get({}) of part {} (len {}) is {:?}, not {:?}", depth, i, j, n, x.map(|x| x.val()), y))
                        }
                    }
                }
            }
            4 => {
                if n > 0 {
                    let i = idx_lt(op.b, n);
                    let (f, m) = &mut parts[j];
                    let x = f.idx(i);
                    if x.val() != m[i] {
                        return Err(format!("depth {}: index({}) of part {} (len {}) is {}, not {}", depth, i, j, n, x.val(), m[i]));
                    }
                    sc.next += 1;
                    *x = T::mk(sc.next);
                    m[i] = T::norm(sc.next);
                }
            }
            5 | 6 => {
                if depth >= 12 {
                    continue;
                }
                let i = idx(op.b, n);
                if st.logging {
                    st.log(&format!("depth {}: split part {} (len {}) at {}", depth, j, n, i));
                }
                sc.splits += 1;
                let (f, m) = parts.remove(j);
                {
                    let (mut l, mut r) = f.split(i);
                    let (ml, mr) = m.split_at_mut(i);
                    let mut sub: Vec<(&mut dyn Part<T>, &mut [u64])> = Vec::new();
                    for (f, m) in parts.iter_mut() {
                        sub.push((&mut **f, &mut **m));
                    }
                    sub.push((&mut l, ml));
                    sub.push((&mut r, mr));
                    play(&mut sub, sc, st, depth + 1)?;
                }
                parts.insert(j, (f, m));
            }
            _ => {
                if depth > 0 {
                    return Ok(());
                }
            }
        }
    }
    Ok(())
}

pub fn mutable_access<T: Elem>(case: &Case, st: &mut Stats) -> Result<(), String> {
    let mut w = prepared::<T>(case, st, case_cap(case))?;
    let s = w.longest();
    note_shape(&w.v[s], st);
    let n = w.m[s].len();
    let mut sc = Script { ops: case.probe.iter(), next: 1 << 40, splits: 0, depth: 0, misses: 0 };
    guard(|| {
        {
            let w = &mut *w;
            let (v, m) = (&mut w.v[s], &mut w.m[s]);
            let mut f = v.focus_mut();
            let mut parts: Vec<(&mut dyn Part<T>, &mut [u64])> = vec![(&mut f, &mut m[..])];
            play(&mut parts, &mut sc, st, 0)?;
            // After the parts are gone
            for i in [0, n / 2, n.wrapping_sub(1), n] {
                let want = m.get(i).copied();
                let got = f.get(i).map(|x| x.val());
                if got != want {
                    return Err(format!("afterwards, get({}) of {} is {:?}, not {:?}", i, n, got, want));
                }
            }
        }
        w.check_all().map_err(|e| format!("after the focus: {}", e))?;
        // The other mutable paths
        let w = &mut *w;
        let (v, m) = (&mut w.v[s], &mut w.m[s]);
        let mut next = 1u64 << 41;
        if let Some(p) = case.probe.first() {
            let mut it = v.iter_mut();
            let mut mixer = Mix(p.c as u64);
            let (mut lo, mut hi) = (0, n);
            let steps = idx(p.b, n);
            let mut held: Vec<&mut T> = vec![];
            for _ in 0..steps {
                if it.len() != hi - lo {
                    return Err(format!("iter_mut reports {} remaining of {}", it.len(), hi - lo));
                }
                let front = mixer.next() % 2 == 0;
                let x = if front { it.next() } else { it.next_back() };
                let pos = if front {
                    lo += 1;
                    lo - 1
                } else {
                    hi -= 1;
                    hi
                };
                match x {
                    Some(x) if x.val() == m[pos] => {
                        next += 1;
                        *x = T::mk(next);
                        m[pos] = T::norm(next);
                        if held.len() < 50 {
                            held.push(x);
                        }
                    }
                    x => return Err(format!("iter_mut yields {:?} at {} of {}", x.map(|x| x.val()), pos, n)),
                }
            }
            if steps == n && (it.next().is_some() || it.next_back().is_some()) {
                return Err("iter_mut yields something after its end".into());
            }
            drop(it);
            // The references handed out are still usable, and distinct
            let vals: Vec<u64> = held.iter().map(|x| x.val()).collect();
            let mut sorted = vals.clone();
            sorted.sort();
            sorted.dedup();
            if T::norm(1 << 20) == 1 << 20 && sorted.len() != vals.len() {
                return Err("iter_mut yields the same element twice".into());
            }
        }
        for p in case.probe.iter().take(12) {
            if n == 0 {
                break;
            }
            let i = idx_lt(p.c, n);
            next += 1;
            match p.b % 5 {
                0 => *v.get_mut(i).ok_or("get_mut")? = T::mk(next),
                1 => v[i] = T::mk(next),
                2 => *v.get_mut_guarded(i).ok_or("get_mut_guarded")? = T::mk(next),
                3 => {
                    *v.front_mut().ok_or("front_mut")? = T::mk(next);
                    m[0] = T::norm(next);
                    continue;
                }
                _ => {
                    *v.back_mut().ok_or("back_mut")? = T::mk(next);
                    m[n - 1] = T::norm(next);
                    continue;
                }
            }
            m[i] = T::norm(next);
        }
        w.check_all().map_err(|e| format!("after the other mutable accessors: {}", e))
    })?;
    st.hit_if(sc.depth >= 2, "nested_split");
    st.hit_if(sc.misses > 0, "failed_access");
    st.max("max_split_depth", sc.depth as u64);
    st.nontrivial = sc.splits > 0 && n > W;
    finish(w)
}

// ---------------------------------------------------------------- C06, C07: sorting

pub fn sort_fuel(n: usize) -> u64 {
    let n = n as u64;
    let log = 64 - n.leading_zeros() as u64;
    20_000 + 40 * n * (log + 2)
}

pub fn sorting<T: Elem>(case: &Case, st: &mut Stats) -> Result<(), String> {
    let vals = contents(case, case_cap(case));
    let n = vals.len();
    let (v, keep) = guard(|| Ok(build::<T>(&vals, &case.ops)))?;
    let (mut v, keep) = (ManuallyDrop::new(v), ManuallyDrop::new(keep));
    guard(|| same(&v, &vals)).map_err(|e| format!("building the input: {}", e))?;
    note_shape(&v, st);
    let mut m = vals.clone();
    for (step, p) in case.probe.iter().enumerate() {
        let (range, pos) = pick_range(n, p.a, p.b);
        let kind = p.k % 6;
        let fuel = sort_fuel(if matches!(kind, 2 | 3 | 4) { pos.len() } else { n });
        // keys: the contents are (key, serial); comparators may look at a coarser key only
        let coarse = [0u32, 8, 30, 31, 34, 40, 63][(p.c % 7) as usize];
        let neg = (p.c / 7) % 2 == 1;
        let keyf = |x: u64| -> i64 {
            let k = ((x >> 20) >> coarse) as i64;
            if neg {
                -k
            } else {
                k
            }
        };
        set_fuel(fuel);
        let part = if matches!(kind, 2 | 3 | 4) { pos.clone() } else { 0..n };
        let desc = format!("{} on {:?} of {}", ["sort", "sort_by", "sort_range", "sort_range_by", "sort_range_by_key", "sort_by reversed"][kind as usize], part, n);
        st.log(&desc);
        let by = |a: &T, b: &T| {
            tick();
            keyf(a.val()).cmp(&keyf(b.val()))
        };
        let rev = |a: &T, b: &T| {
            tick();
            b.val().cmp(&a.val())
        };
        let mut region = 0..n;
        let r = guard(|| {
            match kind {
                0 => v.sort(),
                1 => v.sort_by(&by),
                2 => {
                    region = pos.clone();
                    v.sort_range(range)
                }
                3 => {
                    region = pos.clone();
                    v.sort_range_by(&by, range)
                }
                4 => {
                    region = pos.clone();
                    let kf = |a: &T| {
                        tick();
                        keyf(a.val())
                    };
                    v.sort_range_by_key(&kf, range)
                }
                _ => v.sort_by(&rev),
            }
            Ok(())
        });
        set_fuel(u64::MAX);
        r.map_err(|e| format!("step {} ({}): {}", step, desc, e))?;
        st.hit_if(region.len() > W, "sorted_more_than_a_leaf");
        st.nontrivial |= region.len() > W;
        guard(|| {
            let got: Vec<u64> = v.iter().take(n + 1).map(|x| x.val()).collect();
            if got.len() != n || v.len() != n {
                return Err(format!("the length changed from {} to {}", n, got.len()));
            }
            for i in (0..region.start).chain(region.end..n) {
                if got[i] != m[i] {
                    return Err(format!("element {} outside the range changed from {} to {}", i, m[i], got[i]));
                }
            }
            for i in region.start + 1..region.end.max(region.start + 1) {
                let (a, b) = (got[i - 1], got[i]);
                let ok = match kind {
                    0 | 2 => a <= b,
                    5 => a >= b,
                    _ => keyf(a) <= keyf(b),
                };
                if !ok {
                    return Err(format!("positions {} and {} hold {} and {}, out of order", i - 1, i, a, b));
                }
            }
            let mut x = got[region.clone()].to_vec();
            let mut y = m[region.clone()].to_vec();
            x.sort_unstable();
            y.sort_unstable();
            if x != y {
                return Err("the range does not hold the elements it held before".into());
            }
            m = got;
            check_keep(&keep)
        })
        .map_err(|e| format!("step {} ({}): {}", step, desc, e))?;
    }
    guard(|| {
        drop(ManuallyDrop::into_inner(v));
        drop(ManuallyDrop::into_inner(keep));
        Ok(())
    })?;
    Tracked::ok()
}

// ---------------------------------------------------------------- C08: searching

pub fn searching<T: Elem>(case: &Case, st: &mut Stats) -> Result<(), String> {
    // Sorted contents 2, 4, 6, ... with runs, so that odd values are absent
    let n = contents_len(case, case_cap(case));
    let spread = 1 + (case.h(3) % 9) as u64;
    let mut mixer = Mix(case.h(4) as u64);
    let mut vals = vec![];
    let mut cur = 2u64;
    while vals.len() < n {
        let run = match spread {
            1 => 1,
            2 => 1 + mixer.next() % 3,
            9 => 1 + mixer.next() % 300,
            k => 1 + mixer.next() % (k * k),
        };
        for _ in 0..run {
            vals.push(cur);
        }
        cur += 2 * (1 + mixer.next() % 2);
    }
    vals.truncate(n);
    let top = vals.last().copied().unwrap_or(2) + 3;
    let (v, keep) = guard(|| Ok(build::<T>(&vals, &case.ops)))?;
    let (v, keep) = (ManuallyDrop::new(v), ManuallyDrop::new(keep));
    guard(|| same(&v, &vals)).map_err(|e| format!("building the input: {}", e))?;
    note_shape(&v, st);
    for (step, p) in case.probe.iter().enumerate() {
        let (range, pos) = pick_range(n, p.a, p.b);
        let m = &vals[pos.clone()];
        let pick = |x: u32| -> u64 {
            match x % 4 {
                0 => (x as u64 / 4) % (top + 1),
                _ if n > 0 => vals[idx_lt(x / 4, n)] + (x as u64 % 4) - 2,
                _ => 3,
            }
        };
        // What the linear scan says
        let run = |less: &dyn Fn(u64) -> bool, greater: &dyn Fn(u64) -> bool, whole: bool| -> Result<Range<usize>, usize> {
            let (m, off) = if whole { (&vals[..], 0) } else { (m, pos.start) };
            let a = m.iter().take_while(|x| less(**x)).count();
            let b = a + m[a..].iter().take_while(|x| !greater(**x)).count();
            if a < b {
                Ok(off + a..off + b)
            } else {
                Err(off + a)
            }
        };
        let x = pick(p.c);
        let y = pick(p.c.rotate_left(13));
        let (xl, yl) = (x.min(y), x.max(y));
        set_fuel(2000);
        let bound = |sel: u32, x: u64| match sel % 3 {
            0 => Bound::Included(x),
            1 => Bound::Excluded(x),
            _ => Bound::Unbounded,
        };
        let (mut lo, hi) = (bound(p.k / 16, xl), bound(p.k / 48, yl));
        if xl == yl && (matches!(lo, Bound::Excluded(_)) || matches!(hi, Bound::Excluded(_))) {
            // an inverted pair of bounds denotes no order; keep it well formed
            if matches!(hi, Bound::Excluded(_)) {
                lo = Bound::Included(xl);
            }
        }
        let less = |z: u64| match lo {
            Bound::Included(b) => z < b,
            Bound::Excluded(b) => z <= b,
            Bound::Unbounded => false,
        };
        let greater = |z: u64| match hi {
            Bound::Included(b) => z > b,
            Bound::Excluded(b) => z >= b,
            Bound::Unbounded => false,
        };
        let f = |z: &T| {
            tick();
            let z = z.val();
            if less(z) {
                Ordering::Less
            } else if greater(z) {
                Ordering::Greater
            } else {
                Ordering::Equal
            }
        };
        let (tx, tl, th) = (T::mk(x), T::mk(xl), T::mk(yl));
        let tb = |b: Bound<u64>, t: &'static str| -> Bound<&T> {
            let r = if t == "lo" { &tl } else { &th };
            match b {
                Bound::Included(_) => Bound::Included(r),
                Bound::Excluded(_) => Bound::Excluded(r),
                Bound::Unbounded => Bound::Unbounded,
            }
        };
        let kind = p.k % 8;
        let (desc, got, want) = guard(|| {
            Ok(match kind {
                0 => (format!("equal_range({})", x), v.equal_range(&tx), run(&|z| z < x, &|z| z > x, true)),
                1 => (format!("equal_range_in_range({}, {:?})", x, range), v.equal_range_in_range(&tx, range), run(&|z| z < x, &|z| z > x, false)),
                2 => (format!("equal_range_by({:?}, {:?})", lo, hi), v.equal_range_by(&f), run(&less, &greater, true)),
                3 => (format!("equal_range_in_range_by({:?}, {:?}, {:?})", lo, hi, range), v.equal_range_in_range_by(&f, range), run(&less, &greater, false)),
                4 => (format!("between_range({:?}, {:?})", lo, hi), v.between_range(tb(lo, "lo"), tb(hi, "hi")), run(&less, &greater, true)),
                5 => (
                    format!("between_range_in_range({:?}, {:?}, {:?})", lo, hi, range),
                    v.between_range_in_range(tb(lo, "lo"), tb(hi, "hi"), range),
                    run(&less, &greater, false),
                ),
                k => {
                    let i = idx(p.c / 3, n + 1);
                    let whole = k == 6;
                    let r = if whole { 0..n } else { pos.clone() };
                    let hit = r.contains(&i) && !less(vals[i]) && !greater(vals[i]);
                    let want = if hit { run(&less, &greater, whole) } else { Ok(0..0) };
                    let got = if whole { v.equal_range_for_index_by(i, &f) } else { v.equal_range_for_index_in_range_by(i, &f, range) };
                    // Any empty range will do where there is no match
                    let got = if got.is_empty() { 0..0 } else { got };
                    (format!("equal_range_for_index_by({}, {:?}, {:?}, {:?})", i, lo, hi, range), Ok(got), want)
                }
            })
        })
        .map_err(|e| format!("step {} (search kind {} for {:?}..{:?} or {} in {:?} of {}): {}", step, kind, lo, hi, x, pos, n, e))?;
        set_fuel(u64::MAX);
        if st.logging {
            st.log(&format!("{} on {} elements = {:?}", desc, n, got));
        }
        st.hit(if want.is_ok() { "found" } else { "absent" });
        st.nontrivial |= want.as_ref().map_or(false, |r| r.len() > 1) && n > W;
        if got != want {
            return Err(format!("step {}: {} on {} elements is {:?}, not {:?}", step, desc, n, got, want));
        }
    }
    guard(|| {
        same(&v, &vals).map_err(|e| format!("after searching: {}", e))?;
        check_keep(&keep)?;
        drop(ManuallyDrop::into_inner(v));
        drop(ManuallyDrop::into_inner(keep));
        Ok(())
    })?;
    Tracked::ok()
}

// ---------------------------------------------------------------- C09: equality, order, hash

fn hash_of<H: Hash>(h: &H) -> u64 {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}

pub fn comparing<T: Elem>(case: &Case, st: &mut Stats) -> Result<(), String> {
    let a = contents(case, case_cap(case));
    let n = a.len();
    let half = case.ops.len() / 2;
    for p in &case.probe {
        let mut b = a.clone();
        let i = idx(p.a, n);
        match p.k % 7 {
            0 | 1 => {}
            2 => b.truncate(i),
            3 => b.insert(i, T::norm(p.b as u64)),
            4 => {
                if i < n {
                    b[i] = T::norm(b[i] ^ (1 + p.b as u64 % 4));
                }
            }
            5 => {
                if i < n {
                    b.remove(i);
                }
            }
            _ => {
                if n >= 2 {
                    b.swap(idx_lt(p.a, n), idx_lt(p.b, n));
                }
            }
        }
        let a: Vec<u64> = a.iter().map(|x| T::norm(*x)).collect();
        let b: Vec<u64> = b.iter().map(|x| T::norm(*x)).collect();
        st.hit(if a == b { "equal_contents" } else { "different_contents" });
        guard(|| {
            let (x, keep_x) = build::<T>(&a, &case.ops[..half]);
            // The other one: built differently, or derived from a clone of the first
            let (y, keep_y) = if p.c % 3 == 0 && p.k % 7 >= 2 {
                let mut y = x.clone();
                match p.k % 7 {
                    2 => y.slice_from_start(i),
                    3 => y.insert(i, T::mk(p.b as u64)),
                    4 if i < n => y[i] = T::mk(b[i]),
                    5 if i < n => drop(y.remove(i)),
                    6 if n >= 2 => {
                        let (i, j) = (idx_lt(p.a, n), idx_lt(p.b, n));
                        y[i] = T::mk(b[i]);
                        y[j] = T::mk(b[j]);
                    }
                    _ => {}
                }
                (y, vec![])
            } else {
                build::<T>(&b, &case.ops[half..])
            };
            same(&x, &a).map_err(|e| format!("building the first: {}", e))?;
            same(&y, &b).map_err(|e| format!("building the second: {}", e))?;
            let sx = shape_of(&x)?;
            let sy = shape_of(&y)?;
            st.hit_if(sx != sy && a == b, "equal_contents_in_different_trees");
            st.nontrivial |= (sx != sy || !sx.known) && n > W;
            let eq = a == b;
            let ord = a.iter().map(|v| T::mk(*v)).collect::<Vec<T>>().cmp(&b.iter().map(|v| T::mk(*v)).collect::<Vec<T>>());
            if st.logging {
                st.log(&format!("compare lengths {} and {}: equal {}, {:?}", a.len(), b.len(), eq, ord));
            }
            if (x == y) != eq || (y == x) != eq || (x != y) == eq {
                return Err(format!("== is {} but the contents are equal: {} (lengths {}, {})", x == y, eq, a.len(), b.len()));
            }
            if x.cmp(&y) != ord || y.cmp(&x) != ord.reverse() {
                return Err(format!("cmp is {:?} but should be {:?} (lengths {}, {})", x.cmp(&y), ord, a.len(), b.len()));
            }
            if x.partial_cmp(&y) != Some(ord) || (x < y) != ord.is_lt() || (x >= y) != ord.is_ge() {
                return Err(format!("partial_cmp is {:?} but should be {:?}", x.partial_cmp(&y), ord));
            }
            if eq && hash_of(&x) != hash_of(&y) {
                return Err("equal vectors hash differently".into());
            }
            let z: V<T> = a.iter().map(|v| T::mk(*v)).collect();
            if x != z || hash_of(&x) != hash_of(&z) || x.cmp(&z) != Ordering::Equal {
                return Err("a vector is not equal to one collected from its elements, or hashes differently".into());
            }
            let c = x.clone();
            if c != x || hash_of(&c) != hash_of(&x) {
                return Err("a clone is not equal, or hashes differently".into());
            }
            if (V::<T>::default() == x) != a.is_empty() || V::<T>::default() != V::<T>::new() {
                return Err("the default vector is not the empty one".into());
            }
            check_keep(&keep_x)?;
            check_keep(&keep_y)
        })?;
    }
    // Elements that are only partially ordered, and equality that is not reflexive
    guard(|| {
        let fl = |m: &[u64], nan: usize| -> Vec<f64> {
            m.iter().enumerate().map(|(i, x)| if i == nan { f64::NAN } else { (*x % 1000) as f64 }).collect()
        };
        let nan = idx(case.h(5), n + 2);
        let a1 = fl(&a, nan);
        let p = case.probe.first().copied().unwrap_or(Op { k: 0, a: 0, b: 0, c: 0 });
        let mut b1 = fl(&a, nan);
        let i = idx(p.b, n);
        if p.c % 2 == 0 && i < n {
            b1[i] += if p.k % 2 == 0 { 1.0 } else { -1.0 };
        } else {
            b1.truncate(i.max(1));
        }
        let x: V<f64> = a1.iter().copied().collect();
        let mut y: V<f64> = V::new();
        for f in b1.iter().rev() {
            y.push_front(*f);
        }
        if x.partial_cmp(&y) != a1.partial_cmp(&b1) || (x == y) != (a1 == b1) || (x.clone() == x) != (a1 == a1.clone()) {
            return Err(format!(
                "partially ordered elements: partial_cmp is {:?} but should be {:?}; == is {} but should be {}",
                x.partial_cmp(&y),
                a1.partial_cmp(&b1),
                x == y,
                a1 == b1
            ));
        }
        Ok(())
    })?;
    Tracked::ok()
}

// ---------------------------------------------------------------- C10: ownership

pub fn ownership(case: &Case, st: &mut Stats) -> Result<(), String> {
    history_of_owners(case, st)?;
    if case.h(6) % 4 == 0 {
        // Nothing stays allocated: the second of two more runs ends with as much memory as the first
        let mut live = [0; 2];
        for l in &mut live {
            let mut ignored = Stats::default();
            history_of_owners(case, &mut ignored)?;
            drop(ignored);
            Tracked::reset();
            *l = alloc_live();
        }
        if live[1] != live[0] {
            return Err(format!("{} bytes stay allocated when all vectors are gone", live[1] - live[0]));
        }
        st.hit("memory_balanced");
    }
    Ok(())
}

fn history_of_owners(case: &Case, st: &mut Stats) -> Result<(), String> {
    type T = Tracked;
    Tracked::reset();
    let mut w: ManuallyDrop<World<T>> = ManuallyDrop::new(World::new(case_cap(case)));
    for (i, op) in case.ops.iter().enumerate() {
        let r = guard(|| w.apply(op)).and_then(|_| guard(|| w.check_touched())).and_then(|_| Tracked::ok());
        st.log(&w.desc);
        st.hit(OP_NAMES[op.k as usize]);
        r.map_err(|e| format!("step {} ({}): {}", i, w.desc, e))?;
        // No more instances than one per position, and at least one per distinct value
        let live = Tracked::live();
        let mut distinct: Vec<u64> = Vec::new();
        if w.total() < 4000 {
            for m in &w.m {
                distinct.extend_from_slice(m);
            }
            distinct.sort_unstable();
            distinct.dedup();
            if live < distinct.len() as i64 {
                return Err(format!("step {} ({}): {} live elements but {} distinct ones are held", i, w.desc, live, distinct.len()));
            }
        }
        if live > w.total() as i64 {
            return Err(format!("step {} ({}): {} live elements but only {} positions: something leaked", i, w.desc, live, w.total()));
        }
        if i + 1 == case.ops.len() {
            st.nontrivial = live < w.total() as i64 && w.total() > W;
            st.hit_if(st.nontrivial, "elements_shared_at_the_end");
        }
    }
    // Let go of the vectors in some order; the others must stay intact
    for p in case.probe.iter() {
        let s = (p.a % SLOTS as u32) as usize;
        let r = guard(|| {
            let v = std::mem::replace(&mut w.v[s], V::new());
            let m = std::mem::take(&mut w.m[s]);
            match p.b % 4 {
                0 => drop(v),
                1 => {
                    // A consuming iterator dropped half way
                    let mut it = v.into_iter();
                    let n = idx(p.c, m.len());
                    for i in 0..n {
                        match it.next() {
                            Some(x) if x.val() == m[i] => {}
                            x => return Err(format!("into_iter yields {:?} at {}", x, i)),
                        }
                    }
                }
                2 => {
                    let got: Vec<T> = v.into_iter().rev().take(m.len() + 1).collect();
                    if !got.iter().map(|x| x.val()).eq(m.iter().rev().copied()) {
                        return Err("into_iter().rev() yields a different sequence".into());
                    }
                }
                _ => {
                    let t = (s + 1) % SLOTS;
                    w.v[t] = v;
                    w.m[t] = m;
                }
            }
            w.check_all()
        });
        r.and_then(|_| Tracked::ok()).map_err(|e| format!("letting go of slot {} (way {}): {}", s, p.b % 4, e))?;
        if Tracked::live() > w.total() as i64 {
            return Err(format!("letting go of slot {} (way {}): {} live elements but {} positions", s, p.b % 4, Tracked::live(), w.total()));
        }
    }
    finish(w)?;
    if Tracked::live() != 0 {
        return Err(format!("{} elements are still live after all vectors are gone", Tracked::live()));
    }
    Ok(())
}

// ---------------------------------------------------------------- C12: sharing

pub fn sharing(case: &Case, st: &mut Stats) -> Result<(), String> {
    type T = Tracked;
    Tracked::reset();
    let mut w: ManuallyDrop<World<T>> = ManuallyDrop::new(World::new(case_cap(case)));
    // First part: a history without any sharing must not copy an element
    let shares = |op: &Op| matches!(op.k, OP_APPEND_CLONE | OP_PREPEND_CLONE | OP_CLONE | OP_CONSTANT);
    let mut shared = false;
    for (i, op) in case.ops.iter().enumerate() {
        shared |= shares(op);
        let before = Tracked::clones();
        let r = guard(|| w.apply(op));
        let copied = Tracked::clones() - before;
        st.log(&w.desc);
        r.and_then(|_| guard(|| w.check_touched())).map_err(|e| format!("step {} ({}): {}", i, w.desc, e))?;
        if !shared && copied > 0 {
            return Err(format!("step {} ({}): {} elements were copied though nothing is shared", i, w.desc, copied));
        }
        st.hit_if(!shared, "operation_on_unshared_vectors");
    }
    // Second part: costs of single operations on vectors that share everything
    for (i, p) in case.probe.iter().enumerate() {
        let s = (p.a % SLOTS as u32) as usize;
        let n = w.m[s].len();
        note_shape(&w.v[s], st);
        let before = Tracked::clones();
        let mem = alloc_now();
        let copy = ManuallyDrop::new(w.v[s].clone());
        let cost = alloc_now().since(&mem);
        if Tracked::clones() != before {
            return Err(format!("cloning a vector of {} copied {} elements", n, Tracked::clones() - before));
        }
        let height = w.shape(s).map(|x| if x.known { x.height } else { 64 }).unwrap_or(64);
        // Two spine lists of pointers
        let limit = 1024 + 256 * height as u64;
        if cost.bytes > limit {
            return Err(format!("cloning a vector of {} (height {}) allocated {} bytes", n, height, cost.bytes));
        }
        let mut copy = copy;
        let m = w.m[s].clone();
        let at = if n > 0 { idx_lt(p.b, n) } else { 0 };
        let mut desc = String::new();
        let mut limit = 0;
        let before = Tracked::clones();
        guard(|| {
            match p.k % 16 {
                0 => {
                    desc = "reading everything".into();
                    same(&copy, &m)?;
                    for i in 0..n.min(200) {
                        copy.get(i);
                        copy.get(n - 1 - i);
                    }
                    copy.iter().rev().take(100).count();
                }
                1 => {
                    desc = "comparing and hashing".into();
                    let copy: &V<T> = &copy;
                    if !(*copy == w.v[s]) || copy.cmp(&w.v[s]) != Ordering::Equal {
                        return Err("a clone is not equal".into());
                    }
                    hash_of(copy);
                }
                2 => {
                    desc = "focusing".into();
                    let mut f = copy.focus();
                    for j in 0..20 {
                        if n > 0 {
                            f.get(idx_lt(p.c.wrapping_add(j * 7919), n));
                        }
                    }
                    if n > 0 {
                        let (mut l, mut r) = f.split_at(at);
                        l.get(0);
                        r.get(0);
                    }
                }
                3 => {
                    desc = "searching".into();
                    let target = p.c as u64;
                    let f = |x: &T| x.val().cmp(&target);
                    let _ = copy.equal_range_by(&f);
                }
                4 | 5 => {
                    desc = format!("get_mut({}) of {}", at, n);
                    limit = W as u64;
                    if n > 0 {
                        *copy.get_mut(at).ok_or("nothing there")? = T::mk(1);
                    }
                }
                6 => {
                    desc = format!("get_mut_guarded({}) of {}", at, n);
                    limit = W as u64;
                    if n > 0 {
                        *copy.get_mut_guarded(at).ok_or("nothing there")? = T::mk(1);
                    }
                }
                7 => {
                    // It takes the two outermost leaves as well
                    desc = format!("focus_mut().get({}) of {}", at, n);
                    limit = 3 * W as u64;
                    if n > 0 {
                        *copy.focus_mut().get(at).ok_or("nothing there")? = T::mk(1);
                    }
                }
                8 => {
                    desc = "front_mut".into();
                    limit = W as u64;
                    copy.front_mut();
                }
                9 => {
                    desc = "back_mut".into();
                    limit = W as u64;
                    copy.back_mut();
                }
                10 => {
                    desc = format!("push_back on {}", n);
                    limit = 2 * W as u64;
                    copy.push_back(T::mk(1));
                }
                11 => {
                    desc = format!("push_front on {}", n);
                    limit = 2 * W as u64;
                    copy.push_front(T::mk(1));
                }
                12 => {
                    desc = format!("pop_back on {}", n);
                    limit = 2 * W as u64;
                    copy.pop_back();
                }
                13 => {
                    desc = format!("pop_front on {}", n);
                    limit = 2 * W as u64;
                    copy.pop_front();
                }
                14 => {
                    desc = format!("[{}] of {} overwritten", at, n);
                    limit = W as u64;
                    if n > 0 {
                        copy[at] = T::mk(1);
                    }
                }
                _ => {
                    desc = "out of range getters".into();
                    copy.get_mut(n);
                    copy.get_mut_guarded(n + 1);
                }
            }
            Ok(())
        })
        .map_err(|e| format!("probe {} ({}): {}", i, desc, e))?;
        st.log(&desc);
        let copied = Tracked::clones() - before;
        st.nontrivial |= n > 2 * W;
        st.hit_if(copied > 0, "operation_that_copied_a_leaf");
        if copied > limit {
            return Err(format!("probe {}: {} on a clone copied {} elements, more than {}", i, desc, copied, limit));
        }
        guard(|| w.check_all()).map_err(|e| format!("probe {} ({}): the original: {}", i, desc, e))?;
        if p.c % 3 == 0 {
            // Once a leaf is no longer shared it is not copied again
            if n > 0 {
                let before = Tracked::clones();
                guard(|| {
                    *copy.get_mut(at).ok_or("nothing there")? = T::mk(2);
                    Ok(())
                })
                .ok();
                let first = Tracked::clones() - before;
                let before = Tracked::clones();
                for _ in 0..3 {
                    if let Some(x) = copy.get_mut(at) {
                        *x = T::mk(3);
                    }
                }
                if Tracked::clones() != before {
                    return Err(format!("probe {}: overwriting element {} again copied {} elements (the first time {})", i, at, Tracked::clones() - before, first));
                }
            }
        }
        drop(ManuallyDrop::into_inner(copy));
    }
    finish(w)
}

// ---------------------------------------------------------------- C14: faults in user code

pub fn faults(case: &Case, st: &mut Stats) -> Result<(), String> {
    type T = Tracked;
    Tracked::reset();
    let mut w: ManuallyDrop<World<T>> = ManuallyDrop::new(World::new(case_cap(case)));
    for (i, op) in case.ops.iter().enumerate() {
        let r = guard(|| w.apply(op)).and_then(|_| guard(|| w.check_touched()));
        st.log(&w.desc);
        r.map_err(|e| format!("preparation step {} ({}): {}", i, w.desc, e))?;
    }
    let mut fired = 0;
    for (i, p) in case.probe.iter().enumerate() {
        let mut points: Vec<i64> = vec![-1];
        while let Some(nth) = points.pop() {
        // Work on clones, so that everything is shared and copying happens
        let s = (p.a % SLOTS as u32) as usize;
        let n = w.m[s].len();
        let v = w.v[s].clone();
        let m = w.m[s].clone();
        let mut v = ManuallyDrop::new(v);
        let at = if n > 0 { idx_lt(p.b, n) } else { 0 };
        let (range, pos) = pick_range(n, p.b, p.c / 12);
        let t = ((p.a / 4) % SLOTS as u32) as usize;
        let other = ManuallyDrop::new(w.v[t].clone());
        let kind = p.k % 14;
        let callback = kind >= 8;
        // A comparator that is not an order: anything may happen but the loss of memory safety. It
        // is stopped by a panic, as sorting by it may not end.
        let liar = kind >= 12;
        let mut lies = Mix(p.c as u64);
        let lies = Cell::new(lies.next());
        let desc;
        // Whether the contents must be the same list / at least the same elements afterwards
        let mut exact = false;
        let mut permuted = false;
        set_fuel(u64::MAX);
        let clones_before = Tracked::clones();
        if nth < 0 && liar {
            arm_callback(30 * n as i64);
        } else if nth < 0 {
            // Without a fault, to count the places where one can be
        } else if callback {
            arm_callback(nth);
        } else {
            Tracked::arm(nth);
        }
        let cmp = |a: &T, b: &T| {
            tick();
            (mix(a.val()) % 64).cmp(&(mix(b.val()) % 64))
        };
        let r = {
            let v = &mut *v;
            let w = &w;
            let run = |f: &mut dyn FnMut()| {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f()));
                r
            };
            let liar = |_: &T, _: &T| {
                tick();
                lies.set(mix(lies.get()));
                match p.b % 3 {
                    0 => (lies.get() % 3).cmp(&1),
                    1 => (lies.get() % 2).cmp(&0),
                    _ => (lies.get() % 2).cmp(&1),
                }
            };
            match kind {
                0 => {
                    desc = "get_mut";
                    exact = true;
                    run(&mut || drop(v.get_mut(at)))
                }
                1 => {
                    desc = "focus_mut";
                    exact = true;
                    run(&mut || {
                        let mut f = v.focus_mut();
                        let (mut l, mut r) = f.split_at(at);
                        r.get(0);
                        l.get(at / 2);
                    })
                }
                2 => {
                    desc = "iter_mut";
                    exact = true;
                    run(&mut || {
                        v.iter_mut().take(n + 1).count();
                    })
                }
                3 => {
                    desc = "push/pop";
                    run(&mut || {
                        if p.b % 2 == 0 {
                            v.push_back(T::mk(7));
                            v.pop_front();
                        } else {
                            v.push_front(T::mk(7));
                            v.pop_back();
                        }
                    })
                }
                4 => {
                    desc = "split_off";
                    run(&mut || drop(v.split_off(at)))
                }
                5 => {
                    desc = "append";
                    run(&mut || v.append((*other).clone()))
                }
                6 => {
                    desc = "insert/remove";
                    run(&mut || {
                        v.insert(at, T::mk(7));
                        drop(v.remove(at / 2));
                    })
                }
                7 => {
                    desc = "reverse_range";
                    permuted = true;
                    run(&mut || v.reverse_range(range))
                }
                8 => {
                    desc = "sort_by";
                    permuted = true;
                    run(&mut || v.sort_by(&cmp))
                }
                9 => {
                    desc = "sort_range_by_key";
                    permuted = true;
                    run(&mut || {
                        v.sort_range_by_key(
                            &|a: &T| {
                                tick();
                                mix(a.val()) % 64
                            },
                            range,
                        )
                    })
                }
                10 => {
                    desc = "dual_sort_range_by";
                    permuted = true;
                    run(&mut || {
                        let mut second = w.v[s].clone();
                        v.dual_sort_range_by(&cmp, range, &mut second);
                    })
                }
                12 => {
                    desc = "sort_range_by no order";
                    permuted = true;
                    run(&mut || v.sort_range_by(&liar, range))
                }
                13 => {
                    desc = "dual_sort_range_by no order";
                    permuted = true;
                    run(&mut || {
                        let mut second = w.v[s].clone();
                        v.dual_sort_range_by(&liar, range, &mut second);
                    })
                }
                _ => {
                    desc = "search";
                    exact = true;
                    run(&mut || {
                        let _ = v.equal_range_by(&|x: &T| {
                            tick();
                            x.val().cmp(&(at as u64))
                        });
                    })
                }
            }
        };
        let armed = if callback { disarm_callback() } else { Tracked::disarm() };
        if nth < 0 {
            let calls = if callback { used() } else { Tracked::clones() - clones_before } as i64;
            st.max("most_places_for_a_fault", calls as u64);
            if calls <= 10 {
                points.extend(0..calls);
            } else {
                let mut mixer = Mix(p.c as u64);
                points.extend([0, 1, calls / 2, calls - 2, calls - 1]);
                points.extend((0..5).map(|_| (mixer.next() % calls as u64) as i64));
            }
        }
        let injected = liar || r.is_err() && !armed && last_panic().contains("INJECTED");
        if st.logging && injected {
            st.log(&format!("{} on a clone of {} (len {}), callback {} panics: {}", desc, s, n, nth, injected));
        }
        if r.is_err() && !injected {
            return Err(format!("probe {} ({} on {}): panicked by itself: {}", i, desc, n, last_panic()));
        }
        if injected {
            fired += 1;
            st.hit(desc);
        }
        Tracked::ok().map_err(|e| format!("probe {} ({}, callback {} panics): {}", i, desc, nth, e))?;
        guard(|| w.check_all()).map_err(|e| format!("probe {} ({} on a clone, callback {} panics): another vector: {}", i, desc, nth, e))?;
        if injected {
            if exact {
                guard(|| same(&v, &m)).map_err(|e| format!("probe {} ({}, callback {} panics): {}", i, desc, nth, e))?;
            } else if permuted {
                guard(|| {
                    let mut got: Vec<u64> = v.iter().take(n + 1).map(|x| x.val()).collect();
                    for j in (0..pos.start).chain(pos.end..n) {
                        if kind != 8 && got[j] != m[j] {
                            return Err(format!("element {} outside the range changed", j));
                        }
                    }
                    let mut want = m.clone();
                    got.sort_unstable();
                    want.sort_unstable();
                    if got != want {
                        return Err("the elements are not those held before".into());
                    }
                    Ok(())
                })
                .map_err(|e| format!("probe {} ({}, callback {} panics): {}", i, desc, nth, e))?;
            } else if kind == 3 {
                // The push or the pop has happened or not
                let mut pushed = m.clone();
                let mut popped = m.clone();
                if p.b % 2 == 0 {
                    pushed.push(7);
                    popped.push(7);
                    popped.remove(0);
                } else {
                    pushed.insert(0, 7);
                    popped.insert(0, 7);
                    popped.pop();
                }
                guard(|| {
                    let got: Vec<u64> = v.iter().take(n + 2).map(|x| x.val()).collect();
                    if v.len() != got.len() || ![&m, &pushed, &popped].contains(&&got) {
                        return Err(format!("the contents (length {} and {} elements of {}) are neither those before nor those after it", v.len(), got.len(), n));
                    }
                    same(&v, &got)
                })
                .map_err(|e| format!("probe {} ({}, callback {} panics): {}", i, desc, nth, e))?;
            } else {
                // Whatever can still be read must be a live element
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    for x in v.iter().take(2 * n + 10) {
                        x.val();
                    }
                }));
                Tracked::ok().map_err(|e| format!("probe {} ({}, callback {} panics), reading afterwards: {}", i, desc, nth, e))?;
            }
        }
        // Then or later: go on with it. What is not exact may be out of shape and refuse.
        let mut v = v;
        let mut model = if exact || permuted || r.is_ok() { Some(v.iter().take(v.len() + 10).map(|x| x.val()).collect::<Vec<u64>>()) } else { None };
        let mut mixer = Mix(p.b as u64 ^ nth as u64);
        let mut log = vec![];
        let later = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for _ in 0..4 {
                let at = (mixer.next() % (n as u64 + 2)) as usize;
                let kind = mixer.next() % 9;
                log.push((kind, at));
                match kind {
                    0 => {
                        for _ in 0..1 + at % (W + 3) {
                            v.push_back(T::mk(8));
                            if let Some(m) = &mut model { m.push(8) }
                        }
                    }
                    1 => {
                        for _ in 0..1 + at % (W + 3) {
                            v.push_front(T::mk(8));
                            if let Some(m) = &mut model { m.insert(0, 8) }
                        }
                    }
                    2 => {
                        for _ in 0..1 + at % (W + 3) {
                            v.pop_back();
                            if let Some(m) = &mut model { m.pop(); }
                        }
                    }
                    3 => {
                        for _ in 0..1 + at % (W + 3) {
                            v.pop_front();
                            if let Some(m) = &mut model { if !m.is_empty() { m.remove(0); } }
                        }
                    }
                    4 => {
                        drop(v.split_off(at));
                        if let Some(m) = &mut model { m.truncate(at) }
                    }
                    5 => {
                        v.slice_to_end(at);
                        if let Some(m) = &mut model { m.drain(..at.min(m.len())); }
                    }
                    6 => {
                        let c = (*v).clone();
                        v.append(c);
                        if let Some(m) = &mut model { m.extend_from_within(..) }
                    }
                    7 => {
                        v.insert(at, T::mk(9));
                        if let Some(m) = &mut model { m.insert(at.min(m.len()), 9) }
                    }
                    _ => {
                        for x in v.iter_mut().take(W) { *x = T::mk(3) }
                        if let Some(m) = &mut model { m.iter_mut().take(W).for_each(|x| *x = 3) }
                    }
                }
            }
        }));
        Tracked::ok().map_err(|e| format!("probe {} ({}, callback {} panics), going on by {:?}: {}", i, desc, nth, log, e))?;
        if let Some(m) = model {
            if later.is_err() {
                return Err(format!("probe {} ({}, callback {} panics), going on by {:?} panics: {}", i, desc, nth, log, last_panic()));
            }
            guard(|| same(&v, &m)).map_err(|e| format!("probe {} ({}, callback {} panics), after going on by {:?}: {}", i, desc, nth, log, e))?;
        }
        let r = guard(|| {
            drop(ManuallyDrop::into_inner(v));
            drop(ManuallyDrop::into_inner(other));
            Ok(())
        });
        r.and_then(|_| Tracked::ok()).map_err(|e| format!("probe {} ({}, callback {} panics), dropping afterwards: {}", i, desc, nth, e))?;
        guard(|| w.check_all()).map_err(|e| format!("probe {} ({} on a clone, callback {} panics): another vector: {}", i, desc, nth, e))?;
        }
    }
    st.nontrivial = fired > 0;
    finish(w)
}

// ---------------------------------------------------------------- C15: out of range

pub fn out_of_range<T: Elem>(case: &Case, st: &mut Stats) -> Result<(), String> {
    let mut w = prepared::<T>(case, st, case_cap(case))?;
    for (i, p) in case.probe.iter().enumerate() {
        let s = (p.a % SLOTS as u32) as usize;
        let n = w.m[s].len();
        note_shape(&w.v[s], st);
        let past = match p.b % 8 {
            0 => n,
            1 => n + 1,
            2 => n + 1 + (p.c as usize % 200),
            3 => (n / W + 1) * W,
            4 => n + W * W,
            5 => usize::MAX / 2,
            6 => usize::MAX - 1,
            _ => usize::MAX,
        };
        let beyond = past.max(n + 1);
        let inside = idx(p.c, n);
        // The range from there to past the end, written in some way
        let from = match p.c.rotate_left(7) % 3 {
            0 if inside == 0 => Bound::Unbounded,
            1 if inside > 0 => Bound::Excluded(inside - 1),
            _ => Bound::Included(inside),
        };
        let to = match p.c.rotate_left(13) % 4 {
            0 => Bound::Included(beyond),
            1 => Bound::Included(beyond - 1),
            _ => Bound::Excluded(beyond),
        };
        let after = if p.c.rotate_left(17) % 2 == 0 { Bound::Included(beyond) } else { Bound::Excluded(beyond - 1) };
        let kind = p.k % 31;
        let mut desc = String::new();
        let w = &mut *w;
        let (v, m) = (&mut w.v[s], &mut w.m[s]);
        // Returns whether the call must have panicked
        let mut must_panic = false;
        let before = m.clone();
        let mut second = None;
        let mut second_arc = None;
        let outcome = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
            match kind {
                0 => {
                    desc = format!("get({})", past);
                    eq_val(&desc, v.get(past), None)?;
                }
                1 => {
                    desc = format!("get_mut({})", past);
                    eq_val(&desc, v.get_mut(past).map(|x| &*x), None)?;
                }
                2 => {
                    desc = format!("get_mut_guarded({})", past);
                    eq_val(&desc, v.get_mut_guarded(past).as_deref(), None)?;
                }
                3 => {
                    desc = format!("remove({})", past);
                    eq_val(&desc, v.remove(past).as_ref(), None)?;
                }
                4 => {
                    desc = format!("split_off({})", past);
                    if !v.split_off(past).is_empty() {
                        return Err("split_off past the end yields something".into());
                    }
                }
                5 => {
                    desc = format!("slice_from_start({})", past);
                    v.slice_from_start(past);
                }
                6 => {
                    desc = format!("slice_to_end({})", past);
                    v.slice_to_end(past);
                    m.clear();
                }
                7 => {
                    desc = format!("insert({})", past);
                    v.insert(past, T::mk(5));
                    m.push(T::norm(5));
                }
                8 => {
                    desc = format!("extract_slice({:?}, {:?})", from, to);
                    let got = v.extract_slice((from, to));
                    let want: Vec<u64> = m.drain(inside..).collect();
                    same(&got, &want)?;
                }
                9 => {
                    desc = format!("extract_slice({:?}, {:?})", after, to);
                    same(&v.extract_slice((after, to)), &[])?;
                }
                10 => {
                    desc = "pop/front/back on an empty vector".into();
                    let mut e: V<T> = if p.b % 2 == 0 {
                        V::new()
                    } else {
                        let mut e = v.clone();
                        e.slice_from_start(0);
                        e
                    };
                    for _ in 0..2 {
                        eq_val("pop_back", e.pop_back().as_ref(), None)?;
                        eq_val("pop_front", e.pop_front().as_ref(), None)?;
                        eq_val("front", e.front(), None)?;
                        eq_val("back", e.back(), None)?;
                        eq_val("front_mut", e.front_mut().map(|x| &*x), None)?;
                        eq_val("back_mut", e.back_mut().map(|x| &*x), None)?;
                        eq_val("get", e.get(0), None)?;
                        eq_val("remove", e.remove(0).as_ref(), None)?;
                        eq_val("iter", e.iter().next(), None)?;
                        eq_val("iter", e.iter().next_back(), None)?;
                        eq_val("iter_mut", e.iter_mut().next().map(|x| &*x), None)?;
                        eq_val("focus", e.focus().get(0), None)?;
                        eq_val("focus_mut", e.focus_mut().get(0).map(|x| &*x), None)?;
                        if e.split_off(3).len() != 0 || e.extract_slice(0..0).len() != 0 {
                            return Err("a part of an empty vector is not empty".into());
                        }
                        e.sort();
                        e.reverse();
                        e.append(V::new());
                        same(&e, &[])?;
                    }
                    e.push_back(T::mk(9));
                    same(&e, &[T::norm(9)])?;
                }
                11 => {
                    desc = format!("[{}]", past);
                    must_panic = true;
                    v[past].val();
                }
                12 => {
                    desc = format!("[{}] = ", past);
                    must_panic = true;
                    v[past] = T::mk(1);
                }
                13 => {
                    desc = format!("focus().get({})", past);
                    eq_val(&desc, v.focus().get(past), None)?;
                }
                14 => {
                    desc = format!("focus().index({})", past);
                    must_panic = true;
                    v.focus().index(past);
                }
                15 => {
                    desc = format!("focus_mut().get({})", past);
                    let mut f = v.focus_mut();
                    eq_val(&desc, f.get(past).map(|x| &*x), None)?;
                    if n > 0 {
                        let i = idx_lt(p.c, n);
                        for _ in 0..2 {
                            eq_val("a good access after a bad one", f.get(i).map(|x| &*x), Some(m[i]))?;
                            eq_val(&desc, f.get(past).map(|x| &*x), None)?;
                        }
                    }
                }
                16 => {
                    desc = format!("focus_mut().index({})", past);
                    must_panic = true;
                    v.focus_mut().index(past);
                }
                17 => {
                    desc = format!("focus_mut().split_at({})", beyond);
                    must_panic = true;
                    v.focus_mut().split_at(beyond);
                }
                18 => {
                    desc = format!("focus().split_at({})", beyond);
                    must_panic = true;
                    let _ = v.focus().split_at(beyond);
                }
                19 => {
                    // A narrowed focus must refuse to grow back
                    let a = idx(p.c, n);
                    let b = a + idx(p.c.rotate_left(9), n - a);
                    let mut f = Focus::narrowed_tree(v, a..b);
                    let over = (b - a) + 1 + (p.c as usize % 3);
                    desc = format!("a focus on {}..{} narrowed to 0..{}", a, b, over);
                    must_panic = true;
                    f.narrow(0..over);
                }
                20 => {
                    desc = format!("sort_range({:?}, {:?})", from, to);
                    must_panic = true;
                    v.sort_range((from, to));
                }
                21 => {
                    desc = format!("sort_range_by({:?}, {:?})", from, to);
                    must_panic = true;
                    v.sort_range_by(&|a: &T, b: &T| b.cmp(a), (from, to));
                }
                22 => {
                    desc = format!("reverse_range({:?}, {:?})", from, to);
                    must_panic = true;
                    v.reverse_range((from, to));
                }
                23 => {
                    desc = format!("reverse_range({:?}, ..)", after);
                    must_panic = true;
                    v.reverse_range((after, Bound::Unbounded));
                }
                24 => {
                    desc = format!("sort_range_by_key({:?}, ..)", after);
                    must_panic = true;
                    v.sort_range_by_key(&|a: &T| std::cmp::Reverse(a.val()), (after, Bound::Unbounded));
                }
                25 => {
                    // The secondary vector has the requested range, the primary has not
                    desc = format!("dual_sort_range({:?}, {:?})", from, to);
                    must_panic = true;
                    let other = (0..(n + 300) as u64).collect::<librrb::Vector<u64>>();
                    second = Some((other.clone(), other));
                    let w = &mut second.as_mut().unwrap().0;
                    match p.b % 3 {
                        0 => v.dual_sort_range((from, to), w),
                        1 => v.dual_sort_range_by(&|a: &T, b: &T| b.cmp(a), (from, to), w),
                        _ => v.dual_sort_range_by_key(&|a: &T| std::cmp::Reverse(a.val()), (from, to), w),
                    }
                }
                26 | 27 if n > 0 => {
                    // The other way round
                    let len = if p.k % 2 == 0 { n - 1 - inside.min(n - 1) } else { n - 1 };
                    desc = format!("dual_sort({:?}, ..) with a secondary vector of {}", from, len);
                    must_panic = true;
                    let from = if inside + 1 < n { from } else { Bound::Unbounded };
                    let other = (0..len as u64).collect::<librrb::ThreadSafeVector<u64>>();
                    second_arc = Some((other.clone(), other));
                    let w = &mut second_arc.as_mut().unwrap().0;
                    match p.b % 4 {
                        0 => v.dual_sort(w),
                        1 => v.dual_sort_by(&|a: &T, b: &T| b.cmp(a), w),
                        2 => v.dual_sort_range((from, Bound::Unbounded), w),
                        _ => v.dual_sort_range_by(&|a: &T, b: &T| b.cmp(a), (from, Bound::Excluded(n)), w),
                    }
                }
                28 => {
                    let hi = idx(p.c, n);
                    let lo = hi + 1 + idx(p.b, n);
                    let (lo, hi) = match p.b % 3 {
                        0 => (Bound::Included(lo), Bound::Excluded(hi)),
                        1 => (Bound::Excluded(lo), Bound::Excluded(hi)),
                        _ => (Bound::Included(lo + 1), Bound::Included(hi)),
                    };
                    desc = format!("a focus narrowed to ({:?}, {:?})", lo, hi);
                    must_panic = true;
                    let mut f = v.focus();
                    f.narrow((lo, hi));
                }
                29 => {
                    let hi = idx(p.c, n);
                    let lo = hi + 1 + idx(p.b, n);
                    desc = format!("narrowed_tree({}..{})", lo, hi);
                    let mut f = Focus::narrowed_tree(v, lo..hi);
                    if f.len() != 0 || !f.is_empty() {
                        return Err(format!("its length is {}", f.len()));
                    }
                    for i in [0, 1, inside, past] {
                        eq_val(&desc, f.get(i), None)?;
                    }
                    f.narrow(..);
                    eq_val(&desc, f.get(0), None)?;
                }
                30 => {
                    let a = idx(p.b, n);
                    desc = format!("a focus on {}..{} narrowed to ({:?}, {:?})", a, n, from, to);
                    must_panic = true;
                    let mut f = Focus::narrowed_tree(v, a..n);
                    f.narrow((from, to));
                }
                _ => {
                    // A part that is left empty is refused like any other
                    let mut f = v.focus_mut();
                    let (mut l, mut r) = f.split_at(inside);
                    desc = format!("get({}) of both parts of a split at {}", past, inside);
                    eq_val(&desc, l.get(past.max(inside)).map(|x| &*x), None)?;
                    eq_val(&desc, r.get(past.max(n - inside)).map(|x| &*x), None)?;
                    if inside > 0 {
                        eq_val("left part", l.get(inside - 1).map(|x| &*x), Some(m[inside - 1]))?;
                        eq_val("left part", l.get(inside).map(|x| &*x), None)?;
                        eq_val("left part", l.get(0).map(|x| &*x), Some(m[0]))?;
                    }
                }
            }
            Ok(())
        }));
        st.log(&format!("{} on slot {} (len {})", desc, s, n));
        match (outcome, must_panic) {
            (Ok(r), false) => r.map_err(|e| format!("probe {} ({} at length {}): {}", i, desc, n, e))?,
            (Ok(_), true) => return Err(format!("probe {}: {} at length {} did not panic", i, desc, n)),
            (Err(_), false) => return Err(format!("probe {}: {} at length {} panicked: {}", i, desc, n, last_panic())),
            (Err(_), true) => {
                st.hit("refused_by_panic");
                *m = before;
            }
        }
        if second.map_or(false, |x| x.0 != x.1) || second_arc.map_or(false, |x| x.0 != x.1) {
            return Err(format!("probe {}: {} at length {} changed the secondary vector", i, desc, n));
        }
        st.nontrivial |= n > W;
        guard(|| {
            w.check_all()?;
            shape_of(&w.v[s])?;
            Ok(())
        })
        .map_err(|e| format!("probe {}: after {} at length {}: {}", i, desc, n, e))?;
        // Still usable
        guard(|| {
            let x = 1 << 50 | i as u64;
            w.v[s].push_back(T::mk(x));
            w.m[s].push(T::norm(x));
            if p.c % 5 == 0 {
                w.v[s].push_front(T::mk(x));
                w.m[s].insert(0, T::norm(x));
            }
            same(&w.v[s], &w.m[s])
        })
        .map_err(|e| format!("probe {}: using the vector after {} at length {}: {}", i, desc, n, e))?;
    }
    finish(w)
}

// ---------------------------------------------------------------- C16: iterators

pub fn iterators<T: Elem>(case: &Case, st: &mut Stats) -> Result<(), String> {
    let mut w = prepared::<T>(case, st, case_cap(case))?;
    guard(|| {
        for (step, p) in case.probe.iter().enumerate() {
            let s = (p.a % SLOTS as u32) as usize;
            let m = w.m[s].clone();
            let n = m.len();
            note_shape(&w.v[s], st);
            st.nontrivial |= n > W;
            let mut mixer = Mix((p.b as u64) << 32 | p.c as u64);
            // How the steps are taken: mostly from the front, mostly from the back, alternating...
            let bias = [0u64, 1, 2, 4, 8, 9, 10][(p.c % 7) as usize];
            let stop = if p.b % 3 == 0 { idx(p.b / 3, n) } else { n };
            let kind = p.k % 6;
            // How the rest of a walk is consumed
            let last = p.a / 4 % 9;
            let desc = format!("probe {}: {} over {} (bias {}, {} steps, end {})", step, ["iter", "iter_mut", "into_iter", "iter of &", "iter clone", "into_iter of a clone"][kind as usize], n, bias, stop, last);
            st.log(&desc);
            // A walk over any of the iterators
            macro_rules! walk {
                ($it:ident, $val:expr) => {{
                    let (mut lo, mut hi) = (0, n);
                    let mut taken = 0;
                    while taken < stop {
                        if $it.size_hint() != (hi - lo, Some(hi - lo)) || $it.len() != hi - lo {
                            return Err(format!("{}: size_hint is {:?} with {} remaining", desc, $it.size_hint(), hi - lo));
                        }
                        let r = mixer.next();
                        let front = r % 10 >= bias;
                        let left = hi - lo;
                        let skip = match (r / 10) % 400 {
                            0..=7 => (r / 4000) as usize % 70,
                            8 => (r / 4000) as usize % (left + 2),
                            9 => [usize::MAX, left, left - 1, usize::MAX - lo, usize::MAX - (r / 40000) as usize % 300][(r / 4000) as usize % 5],
                            _ => 0,
                        };
                        let (got, want) = if front {
                            let want = if skip < left { Some(m[lo + skip]) } else { None };
                            lo = lo.saturating_add(skip).saturating_add(1).min(hi);
                            (if skip == 0 { $it.next() } else { $it.nth(skip) }, want)
                        } else {
                            let want = if skip < left { Some(m[hi - 1 - skip]) } else { None };
                            hi = hi.saturating_sub(skip).saturating_sub(1).max(lo);
                            (if skip == 0 { $it.next_back() } else { $it.nth_back(skip) }, want)
                        };
                        let got = got.map($val);
                        if got != want {
                            return Err(format!("{}: yields {:?} but should yield {:?} ({} taken)", desc, got, want, taken));
                        }
                        taken += skip.saturating_add(1).min(n);
                        if lo == hi {
                            break;
                        }
                    }
                    if lo == hi {
                        for _ in 0..3 {
                            if $it.size_hint() != (0, Some(0)) || $it.next().is_some() || $it.next_back().is_some() {
                                return Err(format!("{}: yields something after its end", desc));
                            }
                        }
                    }
                    (lo, hi)
                }};
            }
            // Some way to consume the rest at once
            macro_rules! rest {
                ($it:ident, $range:expr, $val:expr) => {{
                    let want = &m[$range.0..$range.1];
                    let good = match last {
                        0 => $it.count() == want.len(),
                        1 => $it.last().map($val) == want.last().copied(),
                        2 => $it.map($val).fold(vec![], |mut a, x| { a.push(x); a }) == want,
                        3 => $it.map($val).rfold(vec![], |mut a, x| { a.push(x); a }).iter().eq(want.iter().rev()),
                        4 => {
                            let mut got = vec![];
                            $it.map($val).for_each(|x| got.push(x));
                            got == want
                        }
                        5 => $it.rev().map($val).skip(1).step_by(3).eq(want.iter().rev().skip(1).step_by(3).copied()),
                        6 => $it.map($val).skip(1).step_by(W).eq(want.iter().skip(1).step_by(W).copied()),
                        7 => {
                            let target = want.get(want.len() / 2).copied();
                            $it.position(|x| Some($val(x)) == target) == want.iter().position(|x| Some(*x) == target)
                        }
                        _ => {
                            let target = want.get(want.len() / 3).copied();
                            $it.rposition(|x| Some($val(x)) == target) == want.iter().rposition(|x| Some(*x) == target)
                        }
                    };
                    if !good {
                        return Err(format!("{}: consuming the rest ({:?}) by {} goes wrong", desc, $range, ["count", "last", "fold", "rfold", "for_each", "rev", "step_by", "position", "rposition"][last as usize]));
                    }
                }};
            }
            match kind {
                0 => {
                    let mut it = w.v[s].iter();
                    let r = walk!(it, |x: &T| x.val());
                    rest!(it, r, |x: &T| x.val());
                }
                1 => {
                    let mut it = w.v[s].iter_mut();
                    let r = walk!(it, |x: &mut T| x.val());
                    rest!(it, r, |x: &mut T| x.val());
                }
                2 => {
                    let v = std::mem::replace(&mut w.v[s], V::new());
                    w.m[s].clear();
                    let mut it = v.into_iter();
                    let r = walk!(it, |x: T| x.val());
                    rest!(it, r, |x: T| x.val());
                }
                3 => {
                    let mut k = 0;
                    for x in &w.v[s] {
                        if k >= n || x.val() != m[k] {
                            return Err(format!("{}: for loop differs at {}", desc, k));
                        }
                        k += 1;
                    }
                    let mut k = 0;
                    for x in &mut w.v[s] {
                        if k >= n || x.val() != m[k] {
                            return Err(format!("{}: mutable for loop differs at {}", desc, k));
                        }
                        k += 1;
                    }
                    let back: Vec<u64> = w.v[s].iter().rev().take(n + 1).map(|x| x.val()).collect();
                    if k != n || !back.iter().eq(m.iter().rev()) {
                        return Err(format!("{}: rev differs", desc));
                    }
                }
                4 => {
                    let mut it = w.v[s].iter();
                    let (lo, hi) = walk!(it, |x: &T| x.val());
                    let mut copy = it.clone();
                    let a: Vec<u64> = it.take(n + 1).map(|x| x.val()).collect();
                    if a[..] != m[lo..hi] {
                        return Err(format!("{}: the rest differs", desc));
                    }
                    for i in (lo..hi).rev() {
                        if copy.next_back().map(|x| x.val()) != Some(m[i]) {
                            return Err(format!("{}: the cloned iterator differs at {}", desc, i));
                        }
                    }
                    if copy.next().is_some() {
                        return Err(format!("{}: the cloned iterator does not end", desc));
                    }
                }
                _ => {
                    let mut it = w.v[s].clone().into_iter();
                    let r = walk!(it, |x: T| x.val());
                    rest!(it, r, |x: T| x.val());
                }
            }
            w.check_all().map_err(|e| format!("{}: afterwards {}", desc, e))?;
        }
        Ok(())
    })?;
    finish(w)
}

// ---------------------------------------------------------------- C17: cost and height

const TIMED_LEN: usize = if NARROW { 15_000 } else { 60_000 };
/// Processor time no operation on one position needs, however often it is tried: some tens of microseconds
/// are normal. Taking the 15,000 elements and more of the vector one by one takes longer.
const TIME_LIMIT: u64 = 250_000;

fn thread_time() -> u64 {
    extern "C" {
        fn clock_gettime(clock: i32, time: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe { clock_gettime(3, &mut t) };
    t[0] as u64 * 1_000_000_000 + t[1] as u64
}

/// Runs each of the operations at one position on clones of a long vector.
fn timed(v: &V<u64>, op: &Op) -> Result<u64, String> {
    let worst = std::cell::Cell::new(0);
    let len = v.len();
    let at = idx(op.b, len);
    let to = idx(op.c, len).max(at);
    let least = |name: &str, f: &dyn Fn(V<u64>) -> u64| -> Result<(), String> {
        let mut best = u64::MAX;
        for _ in 0..60 {
            best = best.min(f(v.clone()));
            if best < TIME_LIMIT {
                worst.set(worst.get().max(best));
                return Ok(());
            }
        }
        Err(format!("{} at {} takes {} us, each of 60 times", name, at, best / 1000))
    };
    fn during<R>(f: impl FnOnce() -> R) -> (u64, R) {
        let t = thread_time();
        let r = f();
        (thread_time() - t, r)
    }
    least("clone", &|_| during(|| v.clone()).0)?;
    least("split_off", &|mut w| during(|| w.split_off(at)).0)?;
    least("slice_from_start", &|mut w| during(|| w.slice_from_start(at)).0)?;
    least("slice_to_end", &|mut w| during(|| w.slice_to_end(at)).0)?;
    least("append of the part behind a split", &|mut w| {
        let rest = w.split_off(at);
        during(|| w.append(rest)).0
    })?;
    least("append of the part before a split", &|mut w| {
        let mut rest = w.split_off(at);
        during(|| rest.append(w)).0
    })?;
    least("prepend", &|mut w| {
        let mut rest = w.split_off(at);
        during(|| rest.prepend(w)).0
    })?;
    least("insert", &|mut w| during(|| w.insert(at, 1)).0)?;
    least("remove", &|mut w| during(|| w.remove(at)).0)?;
    least("extract_slice", &|mut w| during(|| w.extract_slice(at..to)).0)?;
    least("push and pop at both ends", &|mut w| {
        during(|| {
            w.push_back(1);
            w.push_front(1);
            w.pop_back();
            w.pop_front();
        })
        .0
    })?;
    least("get and get_mut", &|mut w| {
        during(|| {
            w.get_mut(at);
            w.get(at).is_some()
        })
        .0
    })?;
    least("a read focus", &|w| {
        during(|| {
            let mut focus = w.focus();
            focus.narrow(at..to);
            focus.get(0).is_some()
        })
        .0
    })?;
    least("splitting a mutable focus", &|mut w| {
        during(|| {
            let mut focus = w.focus_mut();
            let (mut left, mut right) = focus.split_at(at);
            (left.get(0).is_some(), right.get(0).is_some())
        })
        .0
    })?;
    least("starting to iterate", &|w| {
        during(|| {
            let mut iter = w.iter();
            (iter.next().is_some(), iter.next_back().is_some())
        })
        .0
    })?;
    Ok(worst.get())
}

/// Bytes allocated per level by cutting and by joining vectors that share nothing: a node or two with
/// their size tables, some 1000 bytes.
const SLICE_UNSHARED: u64 = 60 * W as u64 + 1500;
const APPEND_UNSHARED: u64 = SLICE_UNSHARED;

pub fn costs(case: &Case, st: &mut Stats) -> Result<(), String> {
    type T = u64;
    let cap = case_cap(case);
    let mut v: ManuallyDrop<V<T>> = ManuallyDrop::new(V::new());
    let mut others: Vec<V<T>> = vec![];
    // The most elements held since the tree was last rebuilt from nothing
    let mut most = 0usize;
    let mut len = 0usize;
    // Unknown (None) in a build without the hook; memory is then bounded for a height of at most 4
    let height = |v: &V<T>| -> Result<Option<usize>, String> {
        let s = shape_of(v)?;
        Ok(if s.known { Some(s.height) } else { None })
    };
    // A tree grown at its ends only: a node that is raised keeps at least about half of its slots
    let bound = |n: usize| -> usize {
        let mut h = 0;
        let mut size = W;
        while size < n {
            size = size.saturating_mul((W / 2 - 2).max(2));
            h += 1;
        }
        h + 1
    };
    // Any tree: cuts and concatenations may leave sparse nodes at each level. The height stays below this by
    // one at least in all that was tried.
    let bound_any = |n: usize| -> usize {
        let mut h = 1;
        let mut size = 1;
        while size < n {
            size *= W / 2;
            h += 1;
        }
        h
    };
    let mut only_ends = true;
    // Whether nodes may be shared with or within any of the vectors
    let mut shared = false;
    for (i, op) in case.ops.iter().enumerate() {
        let known = guard(|| height(&v))?;
        let h0 = known.unwrap_or(4);
        let mem = alloc_now();
        let mut desc = String::new();
        let len0 = len;
        let mut limit_bytes = u64::MAX;
        let node = 2000u64; // bytes of a node, with slack; leaves of u64 take 528
        let r = guard(|| {
            match op.k % 12 {
                0 | 1 => {
                    let n = (count(op.b) * if op.c % 4 == 0 { 16 } else { 1 }).min(cap.saturating_sub(len));
                    desc = format!("push x{} (len {})", n, len);
                    for j in 0..n {
                        if op.k % 2 == 0 {
                            v.push_back(j as u64)
                        } else {
                            v.push_front(j as u64)
                        }
                    }
                    len += n;
                    limit_bytes = 100 * n as u64 + node * (20 + 8 * h0 as u64);
                }
                2 | 3 => {
                    let n = (count(op.b) * if op.c % 4 == 0 { 16 } else { 1 }).min(len);
                    desc = format!("pop x{} (len {})", n, len);
                    for _ in 0..n {
                        if op.k % 2 == 0 {
                            v.pop_back();
                        } else {
                            v.pop_front();
                        }
                    }
                    len -= n;
                    limit_bytes = 100 * n as u64 + node * (20 + 8 * h0 as u64);
                }
                4 => {
                    let at = idx(op.b, len);
                    desc = format!("slice at {} (len {}), {}", at, len, op.c % 2);
                    if op.c % 2 == 0 {
                        v.slice_from_start(at);
                        len = at;
                    } else {
                        v.slice_to_end(at);
                        len -= at;
                    }
                    limit_bytes = if shared { node * 12 } else { SLICE_UNSHARED } * (h0 as u64 + 2);
                }
                5 => {
                    let at = idx(op.b, len);
                    desc = format!("split_off {} (len {})", at, len);
                    let rest = v.split_off(at);
                    limit_bytes = if shared { node * 12 } else { SLICE_UNSHARED } * (h0 as u64 + 2);
                    len = at;
                    if others.len() < 3 {
                        others.push(rest);
                    }
                }
                6 => {
                    let other = match (op.c % 4, others.pop()) {
                        (0, Some(o)) => o,
                        (1, o) => {
                            others.extend(o);
                            shared |= len > 0;
                            (*v).clone()
                        }
                        (_, o) => {
                            others.extend(o);
                            let n = count(op.b) * if op.c % 8 >= 6 { 16 } else { 1 };
                            (0..n as u64).collect()
                        }
                    };
                    if len + other.len() <= cap {
                        only_ends = false;
                        let h1 = height(&other)?.unwrap_or(h0);
                        let kind = if shared { "shared" } else { "unshared" };
                        let front = op.a % 3 == 0;
                        let name = if front { "prepend" } else { "append" };
                        desc = format!("{} {} (height {}) to {} (height {}), {}", name, other.len(), h1, len, h0, kind);
                        len += other.len();
                        let mem = alloc_now();
                        if front {
                            v.prepend(other);
                        } else {
                            v.append(other);
                        }
                        let cost = alloc_now().since(&mem);
                        let h = height(&v)?.unwrap_or(0);
                        if h > h0.max(h1) + 1 {
                            return Err(format!("the height grew to {}", h));
                        }
                        // Merging a level touches the children of two nodes, and packs their children. Only
                        // shared children are copied for that.
                        let levels = h0.max(h1) as u64 + 2;
                        let limit = if shared { node * W as u64 * 5 * levels } else { APPEND_UNSHARED * levels };
                        if !shared {
                            st.max("append_unshared_bytes_per_level", cost.bytes / levels);
                        }
                        if cost.bytes > limit {
                            return Err(format!("{} bytes were allocated, more than {}", cost.bytes, limit));
                        }
                    }
                }
                8 => {
                    let at = idx(op.b, len);
                    only_ends = false;
                    if op.c % 2 == 0 {
                        desc = format!("insert at {} (len {}, height {})", at, len, h0);
                        v.insert(at, 7);
                        len += 1;
                    } else {
                        desc = format!("remove {} (len {}, height {})", at, len, h0);
                        if v.remove(at).is_some() {
                            len -= 1;
                        }
                    }
                    if !shared {
                        limit_bytes = (APPEND_UNSHARED + SLICE_UNSHARED) * (h0 as u64 + 3);
                    }
                }
                9 => {
                    let (x, y) = (idx(op.b, len), idx(op.c, len));
                    let (x, y) = (x.min(y), x.max(y));
                    only_ends = false;
                    desc = format!("extract {}..{} (len {}, height {})", x, y, len, h0);
                    let part = v.extract_slice(x..y);
                    len -= y - x;
                    if part.len() != y - x {
                        return Err(format!("the part extracted has {} elements", part.len()));
                    }
                    if others.len() < 3 {
                        others.push(part);
                    }
                    if !shared {
                        limit_bytes = (APPEND_UNSHARED + 2 * SLICE_UNSHARED) * (h0 as u64 + 3);
                    }
                }
                11 => {
                    // Concatenates many pieces, whatever is at the ends
                    let pieces = 1 + (op.c / 8) as usize % 120;
                    let size = (small_count(op.b) + op.b as usize / 64 % 3).min((cap - len.min(cap)) / pieces);
                    desc = format!("{} pieces of {} (len {}, height {})", pieces, size, len, h0);
                    let reach = (0..size as u64).collect::<V<T>>();
                    only_ends &= size == 0;
                    for j in 0..pieces {
                        let piece = if op.c % 2 == 0 { (0..size as u64).collect() } else { reach.clone() };
                        shared |= op.c % 2 == 1 && size > 0;
                        match op.c % 8 / 2 {
                            0 => v.append(piece),
                            1 => v.prepend(piece),
                            2 if j % 2 == 0 => v.append(piece),
                            2 => v.prepend(piece),
                            _ => {
                                // As insert does, in the middle
                                let rest = v.split_off(len / 2);
                                v.append(piece);
                                v.append(rest);
                            }
                        }
                        len += size;
                    }
                }
                10 => {
                    desc = format!("time the operations (len {})", len);
                    if (op.a % 8 == 0 || len >= TIMED_LEN) && !cfg!(debug_assertions) {
                        let mut w = (*v).clone();
                        while w.len() < TIMED_LEN {
                            if w.len() < 1000 {
                                (0..1000).for_each(|x| w.push_back(x));
                            } else {
                                w.append(w.clone());
                            }
                        }
                        st.hit_if(true, "operations_timed");
                        st.max("slowest_operation_us", timed(&w, op)? / 1000);
                    }
                }
                _ => {
                    desc = format!("read and write a few (len {})", len);
                    let mut reads = 0;
                    for j in 0..20u32 {
                        if len > 0 {
                            let at = idx_lt(op.b.wrapping_add(j.wrapping_mul(op.c)), len);
                            if v.get(at).is_some() {
                                reads += 1;
                            }
                            v.get_mut(at);
                        }
                    }
                    // get needs no memory; get_mut only while nodes are shared
                    limit_bytes = node * 20 * (h0 as u64 + 2);
                    let mem = alloc_now();
                    if len > 0 {
                        v.get(idx_lt(op.b, len));
                        v.front();
                        v.back();
                    }
                    if alloc_now().since(&mem).bytes > 0 && reads > 0 {
                        return Err(format!("plain reads allocated {} bytes", alloc_now().since(&mem).bytes));
                    }
                }
            }
            Ok(())
        });
        let cost = alloc_now().since(&mem);
        st.log(&desc);
        r.map_err(|e| format!("step {} ({}): {}", i, desc, e))?;
        if v.len() != len {
            return Err(format!("step {} ({}): length {} should be {}", i, desc, v.len(), len));
        }
        if !shared && (op.k % 12 == 4 || op.k % 12 == 5) {
            st.max("slice_unshared_bytes_per_level", cost.bytes / (h0 as u64 + 2));
        }
        if !shared && (op.k % 12 == 0 || op.k % 12 == 1) {
            st.max("push_bytes_per_element_over_1000", cost.bytes / (1000 + len.saturating_sub(len0) as u64));
        }
        if cost.bytes > limit_bytes {
            return Err(format!("step {} ({}): {} bytes were allocated, more than {}", i, desc, cost.bytes, limit_bytes));
        }
        most = most.max(len).max(len0);
        if len == 0 {
            only_ends = true;
            if others.is_empty() {
                most = 0;
                shared = false;
            }
        }
        let h = guard(|| height(&v))?.unwrap_or(0);
        st.max("max_height", h as u64);
        st.max("max_len", len as u64);
        if only_ends && h > bound(most) {
            return Err(format!("step {} ({}): height {} with {} elements, and never more than {}, exceeds {}", i, desc, h, len, most, bound(most)));
        }
        if h > bound_any(most) {
            return Err(format!("step {} ({}): height {} with {} elements, and never more than {}, exceeds {}", i, desc, h, len, most, bound_any(most)));
        }
        st.nontrivial |= len > W * 31;
        st.hit_if(h >= 2, "height_2_or_more");
        st.hit_if(only_ends && h >= 2, "height_2_or_more_by_ends_only");
    }
    guard(|| {
        drop(ManuallyDrop::into_inner(v));
        Ok(())
    })
}
