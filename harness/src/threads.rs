// Included in the thread-safe flavour only. C13: sharing between threads.

fn check_send_sync<X: Send + Sync>(_: &X) {}

pub fn threads(case: &Case, st: &mut Stats) -> Result<(), String> {
    match case.h(1) % 4 {
        0 => threads_of::<u64>(case, st),
        1 => threads_of::<Box<u64>>(case, st),
        _ => threads_of::<Tracked>(case, st),
    }
}

fn threads_of<T: Elem>(case: &Case, st: &mut Stats) -> Result<(), String> {
    let cap = case_cap(case).min(5000);
    let mut w = prepared::<T>(case, st, cap)?;
    check_send_sync(&w.v);
    let n_threads = 2 + (case.h(6) % 4) as usize;
    let base = w.longest();
    note_shape(&w.v[base], st);
    let n = w.m[base].len();
    st.nontrivial = n > W && case.probe.len() >= n_threads;
    st.log(&format!("{} threads on a vector of {}", n_threads, n));
    let first_error: Mutex<Option<String>> = Mutex::new(None);
    let fail = |e: String| {
        let mut f = first_error.lock().unwrap_or_else(|e| e.into_inner());
        if f.is_none() {
            *f = Some(e);
        }
    };
    let gate = std::sync::Barrier::new(n_threads + 1);
    // Editors work on clones of all vectors, readers on the same vectors
    std::thread::scope(|scope| {
        for t in 0..n_threads {
            let mine: Vec<Op> = case.probe.iter().enumerate().filter(|(i, _)| i % n_threads == t).map(|x| *x.1).collect();
            let shared = &*w;
            let (gate, fail) = (&gate, &fail);
            let reader = t == n_threads - 1 && n_threads > 2;
            let copy = if reader {
                None
            } else {
                let mut c: World<T> = World::new(cap);
                for s in 0..SLOTS {
                    c.v[s] = shared.v[s].clone();
                    c.m[s] = shared.m[s].clone();
                }
                c.skip_values((t as u64 + 1) << 32);
                Some(c)
            };
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(scope, move || {
                    gate.wait();
                    let r = guard(|| {
                        if let Some(copy) = copy {
                            let mut copy = ManuallyDrop::new(copy);
                            for (i, op) in mine.iter().enumerate() {
                                guard(|| copy.apply(op)).and_then(|_| guard(|| copy.check_touched())).map_err(|e| {
                                    format!("thread {}, step {} ({}): {}", t, i, copy.desc, e)
                                })?;
                            }
                            copy.check_all().map_err(|e| format!("thread {} at its end: {}", t, e))?;
                            drop(ManuallyDrop::into_inner(copy));
                        } else {
                            for (i, op) in mine.iter().enumerate() {
                                read_shared(&shared.v[base], &shared.m[base], op)
                                    .map_err(|e| format!("reading thread {}, step {}: {}", t, i, e))?;
                            }
                        }
                        Ok(())
                    });
                    if let Err(e) = r {
                        fail(e);
                    }
                })
                .unwrap();
        }
        gate.wait();
        // This thread reads as well
        let r = guard(|| w.check_all());
        if let Err(e) = r {
            fail(format!("the vectors being shared: {}", e));
        }
    });
    let err = || first_error.lock().unwrap_or_else(|e| e.into_inner()).take();
    if let Some(e) = err() {
        return Err(e);
    }
    Tracked::ok()?;
    guard(|| w.check_all()).map_err(|e| format!("the shared vectors after the threads: {}", e))?;
    // The parts of a focus on different threads; everything is shared with a clone meanwhile
    let parts = 2 + (case.h(6) / 4 % 3) as usize;
    let cuts: Vec<usize> = {
        let mut c: Vec<usize> = (1..parts).map(|i| idx(case.h(4).rotate_left(i as u32 * 7), n)).collect();
        c.sort();
        c
    };
    st.log(&format!("parts of a focus cut at {:?} written by {} threads", cuts, parts));
    let witness = ManuallyDrop::new(w.v[base].clone());
    let before = w.m[base].clone();
    {
        let World { v, m, .. } = &mut *w;
        let (v, m) = (&mut v[base], &mut m[base]);
        let mut focus = v.focus_mut();
        let fail = &fail;
        let r = guard(|| {
            fan_out::<T>(&mut focus, &mut m[..], &cuts, 0, fail, &|f, m, k| {
                    let mut r = Mix(case.h(5) as u64 + k as u64);
                    for _ in 0..2 {
                        for q in 0..m.len().min(400) {
                            let i = if r.next() % 3 == 0 { (r.next() % m.len() as u64) as usize } else { q };
                            let x = f.get(i).ok_or_else(|| format!("part {} of {} has no element {}", k, m.len(), i))?;
                            if x.val() != m[i] {
                                return Err(format!("element {} of part {} is {}, not {}", i, k, x.val(), m[i]));
                            }
                            let new = (k as u64 + 1) << 40 | r.next() % (1 << 30);
                            *x = T::mk(new);
                            m[i] = T::norm(new);
                        }
                        if f.get(m.len()).is_some() {
                            return Err(format!("part {} of {} reaches past its end", k, m.len()));
                        }
                    }
                    Ok(())
            });
            Ok(())
        });
        if let Err(e) = r {
            fail(e);
        }
    }
    if let Some(e) = err() {
        return Err(e);
    }
    guard(|| {
        w.check_all().map_err(|e| format!("after writing the parts of a focus: {}", e))?;
        same(&witness, &before).map_err(|e| format!("a clone taken before writing the parts: {}", e))
    })?;
    Tracked::ok()?;
    let w = ManuallyDrop::into_inner(w);
    let witness = ManuallyDrop::into_inner(witness);
    if case.h(6) / 16 % 4 != 0 {
        given_away(case, w, n_threads, st)?;
        drop(witness);
    } else {
        dropped_at_once(w, witness, st)?;
    }
    Tracked::ok()?;
    if Tracked::live() != 0 {
        return Err(format!("{} elements are still live after all threads let go", Tracked::live()));
    }
    Ok(())
}

/// Everything is dropped on different threads at once.
fn dropped_at_once<T: Elem>(w: World<T>, witness: V<T>, st: &mut Stats) -> Result<(), String> {
    st.log("dropping everything on three threads");
    let first_error: Mutex<Option<String>> = Mutex::new(None);
    let gate = std::sync::Barrier::new(3);
    let copy: Vec<V<T>> = w.v.iter().cloned().collect();
    std::thread::scope(|scope| {
        let (gate, first_error) = (&gate, &first_error);
        let run = |what: &'static str, f: Box<dyn FnOnce() + Send>| {
            scope.spawn(move || {
                gate.wait();
                if let Err(e) = guard(|| {
                    f();
                    Ok(())
                }) {
                    note_error(first_error, format!("dropping {}: {}", what, e));
                }
            });
        };
        run("the vectors", Box::new(move || drop(w)));
        run("clones", Box::new(move || drop(copy)));
        run("an earlier clone", Box::new(move || {
            witness.into_iter().count();
        }));
    });
    let e = first_error.lock().unwrap_or_else(|e| e.into_inner()).take();
    e.map_or(Ok(()), Err)
}

fn note_error(first: &Mutex<Option<String>>, e: String) {
    first.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert(e);
}

/// Every thread owns its vectors (one has the originals, the others have clones) and nobody else holds them, so that
/// nodes lose their other owners while the threads read, write, take apart and drop.
fn given_away<T: Elem>(case: &Case, w: World<T>, n_threads: usize, st: &mut Stats) -> Result<(), String> {
    st.log(&format!("the vectors are given away to {} threads", n_threads));
    st.hit("given_away_to_threads");
    let first_error: Mutex<Option<String>> = Mutex::new(None);
    let gate = std::sync::Barrier::new(n_threads);
    let cap = case_cap(case).min(5000);
    let mut worlds: Vec<World<T>> = vec![];
    for t in 1..n_threads {
        let mut c: World<T> = World::new(cap);
        for s in 0..SLOTS {
            c.v[s] = w.v[s].clone();
            c.m[s] = w.m[s].clone();
        }
        c.skip_values((t as u64 + 65) << 32);
        worlds.push(c);
    }
    worlds.push(w);
    std::thread::scope(|scope| {
        for (t, world) in worlds.into_iter().enumerate() {
            let (gate, first_error) = (&gate, &first_error);
            let mine: Vec<Op> =
                case.probe.iter().rev().enumerate().filter(|(i, _)| i % n_threads == t).map(|x| *x.1).collect();
            let way = case.h(5).rotate_left(3 * t as u32) % 8;
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(scope, move || {
                    gate.wait();
                    let mut world = ManuallyDrop::new(world);
                    let r = guard(|| {
                        use_up(&mut world, way, &mine)?;
                        drop(ManuallyDrop::into_inner(world));
                        Ok(())
                    });
                    if let Err(e) = r {
                        note_error(first_error, format!("thread {} with vectors of its own: {}", t, e));
                    }
                })
                .unwrap();
        }
    });
    let e = first_error.lock().unwrap_or_else(|e| e.into_inner()).take();
    e.map_or(Ok(()), Err)
}

fn use_up<T: Elem>(world: &mut World<T>, way: u32, ops: &[Op]) -> Result<(), String> {
    match way {
        // Operations
        0..=2 => {
            for (i, op) in ops.iter().enumerate() {
                guard(|| world.apply(op))
                    .and_then(|_| guard(|| world.check_touched()))
                    .map_err(|e| format!("step {} ({}): {}", i, world.desc, e))?;
            }
            world.check_all()
        }
        // Reads, and lets go of one vector after the other
        3 | 4 => {
            for s in 0..SLOTS {
                for op in ops.iter().take(2) {
                    read_shared(&world.v[s], &world.m[s], op)?;
                }
                world.v[s] = V::new();
                world.m[s] = vec![];
            }
            Ok(())
        }
        // Takes elements off an end, then drops the rest
        5 => {
            for s in 0..SLOTS {
                let (v, m) = (&mut world.v[s], &mut world.m[s]);
                let front = ops.len() % 2 == 0;
                for q in 0..m.len().min(300) {
                    let (got, want) = if front { (v.pop_front(), m[q]) } else { (v.pop_back(), m[m.len() - 1 - q]) };
                    if got.map(|x| x.val()) != Some(want) {
                        return Err(format!("pop {} is not {}", q, want));
                    }
                }
                world.v[s] = V::new();
                world.m[s] = vec![];
            }
            Ok(())
        }
        // Writes all over, one element after the other or through a focus
        _ => {
            for s in 0..SLOTS {
                let (v, m) = (&mut world.v[s], &mut world.m[s]);
                let n = m.len().min(600);
                if way == 6 {
                    for q in 0..n {
                        let x = v.get_mut(q).ok_or_else(|| format!("no element {}", q))?;
                        if x.val() != m[q] {
                            return Err(format!("element {} is {}, not {}", q, x.val(), m[q]));
                        }
                        *x = T::mk(m[q] ^ 1 << 45);
                        m[q] = T::norm(m[q] ^ 1 << 45);
                    }
                } else {
                    let mut f = v.focus_mut();
                    for q in (0..n).rev() {
                        let x = f.get(q).ok_or_else(|| format!("no focus element {}", q))?;
                        if x.val() != m[q] {
                            return Err(format!("focus element {} is {}, not {}", q, x.val(), m[q]));
                        }
                        *x = T::mk(m[q] ^ 1 << 45);
                        m[q] = T::norm(m[q] ^ 1 << 45);
                    }
                }
            }
            world.check_all()
        }
    }
}

fn read_shared<T: Elem>(v: &V<T>, m: &[u64], op: &Op) -> Result<(), String> {
    match op.k % 4 {
        0 => same(v, m),
        1 => {
            let c = v.clone();
            same(&c, m)
        }
        2 => {
            let mut f = v.focus();
            for j in 0..50u32 {
                if m.is_empty() {
                    break;
                }
                let i = idx_lt(op.b.wrapping_add(j.wrapping_mul(op.c)), m.len());
                if f.get(i).map(|x| x.val()) != Some(m[i]) {
                    return Err(format!("focus element {} of {} differs", i, m.len()));
                }
            }
            Ok(())
        }
        _ => {
            for j in 0..50u32 {
                let i = idx(op.b.wrapping_add(j.wrapping_mul(op.c)), m.len());
                if v.get(i).map(|x| x.val()) != m.get(i).copied() {
                    return Err(format!("element {} of {} differs", i, m.len()));
                }
            }
            Ok(())
        }
    }
}

type PartJob<'j, T> = &'j (dyn Fn(&mut FocMut<'_, T>, &mut [u64], usize) -> Result<(), String> + Sync);

/// Splits at the cuts (positions of the whole, of which `from` are gone), one part to a thread.
fn fan_out<T: Elem>(
    focus: &mut FocMut<'_, T>,
    m: &mut [u64],
    cuts: &[usize],
    from: usize,
    fail: &(dyn Fn(String) + Sync),
    job: PartJob<T>,
) {
    let run = |f: &mut FocMut<'_, T>, m: &mut [u64]| {
        if let Err(e) = guard(|| job(f, m, cuts.len())) {
            fail(e);
        }
    };
    if cuts.is_empty() {
        run(focus, m);
        return;
    }
    let at = cuts[0] - from;
    let (mut l, mut r) = focus.split_at(at);
    let (ml, mr) = m.split_at_mut(at);
    std::thread::scope(|scope| {
        let run = &run;
        scope.spawn(move || run(&mut l, ml));
        fan_out(&mut r, mr, &cuts[1..], cuts[0], fail, job);
    });
}
