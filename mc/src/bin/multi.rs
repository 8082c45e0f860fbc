//! C17: all interleavings of operation scripts on separate memories, on one
//! thread and on several threads under a token scheduler; every memory must
//! behave as in its solo run.
use mccore::hist::{quiet, C, H, R, Sys};
use mccore::*;
use std::sync::{Arc, Condvar, Mutex};

/// a memory that may be handed to another thread
struct Mem {
    s: Option<Sys>,
    data: usize,
    dead: bool,
    trace: Vec<u64>,
}
unsafe impl Send for Mem {}

impl Mem {
    fn new() -> Mem {
        Mem { s: None, data: 0, dead: false, trace: vec![] }
    }
    fn create(&mut self) {
        match quiet(|| {
            let mut s = Sys::new("C17");
            s.second_base();
            let d = s.data_base();
            (s, d)
        }) {
            Ok((s, d)) => {
                self.s = Some(s);
                self.data = d;
                self.note(1);
            }
            Err(()) => {
                self.dead = true;
                self.trace.push(13);
            }
        }
    }
    /// re-check a memory that was not touched
    fn look(&mut self) -> u64 {
        let d = self.data;
        match (self.dead, &mut self.s) {
            (false, Some(s)) => quiet(|| {
                s.check();
                s.observe(d)
            })
            .unwrap_or(11),
            _ => 7,
        }
    }
    fn note(&mut self, tag: u64) {
        let v = self.look();
        self.trace.push(v ^ tag << 3);
    }
    fn step(&mut self, h: H) {
        if self.dead || self.s.is_none() {
            self.trace.push(5);
            return;
        }
        let s = self.s.as_mut().unwrap();
        match quiet(|| s.step(h)) {
            Ok(true) => self.note(2),
            Ok(false) => self.note(3),
            Err(()) => {
                self.dead = true;
                self.trace.push(17);
            }
        }
    }
    /// event k of a script: creation, its operations, drop
    fn event(&mut self, w: &[H], k: usize) {
        if k == 0 {
            self.create()
        } else if k <= w.len() {
            self.step(w[k - 1])
        } else {
            if let Some(mut s) = self.s.take() {
                s.release();
                drop(s);
            }
        }
    }
    fn regions(&self) -> Vec<(usize, usize)> {
        match (&self.s, self.dead) {
            (Some(s), false) => {
                let (a, b) = (s.base[0].unwrap(), s.base[1].unwrap());
                let ps = b.wrapping_sub(a);
                vec![(a, ps), (b, ps), (self.data, ps)]
            }
            _ => vec![],
        }
    }
}

fn solo(w: &[H]) -> Vec<u64> {
    let mut m = Mem::new();
    for k in 0..w.len() + 2 {
        m.event(w, k);
    }
    m.trace
}

fn disjoint(ms: &[Mem]) -> Result<(), String> {
    let mut v: Vec<(usize, usize, usize)> = vec![];
    for (k, m) in ms.iter().enumerate() {
        for (a, n) in m.regions() {
            v.push((a, n, k));
        }
    }
    v.sort();
    for w in v.windows(2) {
        if w[0].0 + w[0].1 > w[1].0 {
            return Err(format!("regions of memories {} and {} overlap", w[0].2, w[1].2));
        }
    }
    Ok(())
}

fn judge(ms: &[Mem], solos: &[&Vec<u64>]) -> Result<(), String> {
    for (k, m) in ms.iter().enumerate() {
        if m.trace != *solos[k] {
            let d = (0..m.trace.len().max(solos[k].len())).find(|x| m.trace.get(*x) != solos[k].get(*x)).unwrap();
            return Err(format!("memory {} behaves differently from its solo run at its step {} (0 = creation){}", k, d, if m.dead { ", it panicked" } else { "" }));
        }
    }
    Ok(())
}

/// the schedules of events: all sequences with `n[k]` events of memory k
fn schedules(n: &[usize]) -> Vec<Vec<u8>> {
    fn go(n: &mut Vec<usize>, cur: &mut Vec<u8>, out: &mut Vec<Vec<u8>>) {
        if n.iter().all(|x| *x == 0) {
            out.push(cur.clone());
            return;
        }
        for k in 0..n.len() {
            if n[k] > 0 {
                n[k] -= 1;
                cur.push(k as u8);
                go(n, cur, out);
                cur.pop();
                n[k] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut n.to_vec(), &mut vec![], &mut out);
    out
}

fn run_one_thread(p: &Pool, ws: &[&Vec<H>], solos: &[&Vec<u64>], sch: &[u8]) -> Result<(), String> {
    let mut ms: Vec<Mem> = ws.iter().map(|_| Mem::new()).collect();
    let mut at = vec![0usize; ws.len()];
    for k in sch {
        let k = *k as usize;
        ms[k].event(ws[k], at[k]);
        at[k] += 1;
        p.add(2, 1);
        if at[k] == 1 {
            disjoint(&ms)?;
        }
        // the others must not notice
        for x in 0..ms.len() {
            if x != k && at[x] > 0 && at[x] <= ws[x].len() + 1 {
                let v = ms[x].look();
                let t = *ms[x].trace.last().unwrap();
                if !ms[x].dead && v ^ 1 << 3 != t && v ^ 2 << 3 != t && v ^ 3 << 3 != t {
                    return Err(format!("an operation on memory {} changed memory {}", k, x));
                }
            }
        }
        let mut f = Fp::default();
        for m in &ms {
            f.u(m.trace.last().copied().unwrap_or(0));
            f.u(m.trace.len() as u64);
        }
        p.state(f.0);
    }
    judge(&ms, solos)
}

/// each memory lives on its own thread; a token makes exactly one event run at a time
fn run_threads(p: &Pool, ws: &[&Vec<H>], solos: &[&Vec<u64>], sch: &[u8]) -> Result<(), String> {
    let tok = Arc::new((Mutex::new(0usize), Condvar::new()));
    let sch: Arc<Vec<u8>> = Arc::new(sch.to_vec());
    let hs: Vec<_> = (0..ws.len())
        .map(|k| {
            let (tok, sch, w) = (tok.clone(), sch.clone(), ws[k].clone());
            std::thread::spawn(move || {
                let mut m = Mem::new();
                let mut e = 0;
                for (pos, who) in sch.iter().enumerate() {
                    if *who as usize != k {
                        continue;
                    }
                    let (mx, cv) = &*tok;
                    let mut g = mx.lock().unwrap();
                    while *g != pos {
                        g = cv.wait(g).unwrap();
                    }
                    drop(g);
                    m.event(&w, e);
                    e += 1;
                    *mx.lock().unwrap() = pos + 1;
                    cv.notify_all();
                }
                m
            })
        })
        .collect();
    let ms: Vec<Mem> = hs.into_iter().map(|h| h.join().unwrap()).collect();
    p.add(2, sch.len() as u64);
    judge(&ms, solos)
}

/// one memory handed back and forth: event e runs on thread (mask >> e) & 1; a second
/// memory with the same script lives on the other thread at the same time
fn run_moved(p: &Pool, w: &Vec<H>, so: &Vec<u64>, mask: u32) -> Result<(), String> {
    let n = w.len() + 2;
    let slot = Arc::new((Mutex::new((0usize, [Mem::new(), Mem::new()])), Condvar::new()));
    let hs: Vec<_> = (0..2)
        .map(|k| {
            let (slot, w) = (slot.clone(), w.clone());
            std::thread::spawn(move || {
                for e in 0..n {
                    for x in 0..2 {
                        if ((mask >> e & 1) as usize ^ x) != k {
                            continue;
                        }
                        let (mx, cv) = &*slot;
                        let mut g = mx.lock().unwrap();
                        while g.0 != 2 * e + x {
                            g = cv.wait(g).unwrap();
                        }
                        g.1[x].event(&w, e);
                        g.0 += 1;
                        cv.notify_all();
                    }
                }
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    p.add(2, 2 * n as u64);
    let g = slot.0.lock().unwrap();
    judge(&g.1, &[so, so])
}

fn main() {
    let ctx = Ctx::from_env();
    let t = ctx.thorough;
    let mut pool = Pool::new(26);
    pool.known = ctx.known().into_iter().map(|x| x.0).collect();
    use H::*;
    let rich: Vec<Vec<H>> = vec![
        vec![Ref(R::Jmp, 0), Con(C::I64), Bind(0), Fin, EB, Fin],
        vec![Tog, Ref(R::Lea, 0), Tog, Bind(0), AbsL(0), Fin],
        vec![Dat(C::I64), RefI(R::Load, true), Fin, Wr, Dat(C::I32), Fin],
        vec![Con(C::I32), Tog, Con(C::I64), AbsI, Fin, RefI(R::StB, true)],
        vec![Jm(0), Bind(0), Bind(1), Fin, Pat(0, 1), Fin],
        vec![EB, Al(16), Tog, EQ, Al(4096), EW],
        vec![LoopN(3), Fin, Ref(R::Call, 1), Fin, Bind(1), Fin],
        vec![Fin, Fin, Dat(C::Bytes(40)), Con(C::Bytes(40)), Fin, EL],
        vec![LabN(5), Bind(3), Ref(R::Jne, 3), Ref(R::Jmp, 2), Bind(2), Fin],
        vec![Ins, Tog, Ins, BindP(0, 0), Ref(R::Jmp, 0), Fin],
    ];
    let alpha = [Tog, EB, Ref(R::Jmp, 0), Bind(0), Con(C::I64), Dat(C::I32), AbsL(0), Fin, Al(16)];
    let mut short: Vec<Vec<H>> = vec![];
    for a in alpha {
        for b in alpha {
            short.push(vec![a, b]);
        }
    }
    let three: Vec<Vec<H>> = rich.iter().map(|w| w[w.len() - 4..].to_vec()).chain(rich.iter().map(|w| w[..3].to_vec())).collect();
    let mut lines = vec![];
    let fail = |p: &Pool, r: Result<(), String>, ws: &[&Vec<H>], sch: &str| -> bool {
        p.add(3, 1);
        if let Err(t) = r {
            let s: Vec<String> = ws.iter().enumerate().map(|(k, w)| format!("memory {}: create; {:?}; drop", k, w)).collect();
            p.violate("interleaving", &format!("{}\nschedule {}\n{}", s.join("\n"), sch, t));
        }
        p.stopped()
    };
    let mut done = true;
    let fork_solo = |w: &Vec<H>| solo(w);
    // solo behaviour, each in a process of its own and twice: the runs must agree before anything is compared
    let all: Vec<Vec<H>> = rich.iter().chain(short.iter()).chain(three.iter()).cloned().collect();
    let base: Vec<Vec<u64>> = {
        const W: usize = 16;
        let sh = mccore::pool::mmap_shared(all.len() * W * 8 * 2) as *mut u64;
        pool.recycle = 1;
        done &= pool.run(all.len() as u64 * 2, 1, &|u, _| format!("solo run {:?}", all[u as usize / 2]), |_, u| {
            let v = fork_solo(&all[u as usize / 2]);
            for (k, x) in v.iter().enumerate() {
                unsafe { *sh.add(u as usize * W + 1 + k) = *x };
            }
            unsafe { *sh.add(u as usize * W) = v.len() as u64 };
        });
        let get = |u: usize| -> Vec<u64> { (0..unsafe { *sh.add(u * W) } as usize).map(|k| unsafe { *sh.add(u * W + 1 + k) }).collect() };
        for u in 0..all.len() {
            if done && get(2 * u) != get(2 * u + 1) {
                eprintln!("harness: solo runs of {:?} differ", all[u]);
                std::process::exit(2);
            }
        }
        (0..all.len()).map(|u| get(2 * u)).collect()
    };
    let (nr, ns) = (rich.len(), short.len());
    let idx_short = |k: usize| nr + k;
    let idx_three = |k: usize| nr + ns + k;
    let mut part = |name: &str, pool: &Pool, c0: u64| lines.push(format!("{}: {} schedules", name, pool.get(3) - c0));

    // 1. all pairs of short scripts
    let sch4 = schedules(&[4, 4]);
    let c0 = pool.get(3);
    pool.recycle = 40;
    if done {
        done = pool.run((ns * ns) as u64, 1, &|u, s| format!("{:?} / {:?}, schedule {:?}", short[u as usize / ns], short[u as usize % ns], sch4[s as usize]), |p, u| {
            let (a, b) = (u as usize / ns, u as usize % ns);
            for (k, s) in sch4.iter().enumerate() {
                p.sub(k as u64);
                let ws = [&short[a], &short[b]];
                let r = run_one_thread(p, &ws, &[&base[idx_short(a)], &base[idx_short(b)]], s);
                if fail(p, r, &ws, &format!("{:?}", s)) {
                    return;
                }
            }
        });
    }
    part("two memories, all pairs of scripts of 2 operations", &pool, c0);
    // 2. rich scripts
    let sch8 = schedules(&[8, 8]);
    let c0 = pool.get(3);
    let pairs: Vec<(usize, usize)> = (0..nr).flat_map(|a| (a..nr).map(move |b| (a, b))).collect();
    let split = 16u64;
    pool.recycle = 4;
    if done {
        done = pool.run(pairs.len() as u64 * split, 1, &|u, s| format!("{:?}, schedule {:?}", pairs[(u / split) as usize], sch8[s as usize]), |p, u| {
            let (a, b) = pairs[(u / split) as usize];
            for (k, s) in sch8.iter().enumerate() {
                if k as u64 % split != u % split {
                    continue;
                }
                p.sub(k as u64);
                let ws = [&rich[a], &rich[b]];
                let r = run_one_thread(p, &ws, &[&base[a], &base[b]], s);
                if fail(p, r, &ws, &format!("{:?}", s)) {
                    return;
                }
            }
        });
    }
    part("two memories, scripts of 6 operations", &pool, c0);
    // 3. three memories
    let m3 = if t { 9 } else { 4 };
    let mut triples = vec![];
    for a in 0..m3 {
        for b in a..m3 {
            for c in b..m3 {
                triples.push((10 + a, 10 + b, 10 + (c + a) % m3));
            }
        }
    }
    let sch3 = schedules(&[5, 5, 5]);
    let step3 = if t { 1 } else { 18 };
    let c0 = pool.get(3);
    let split = 64u64;
    pool.recycle = 2;
    if done {
        // quick: only schedules in which memories are created in order (the others are symmetric up to renaming)
        let sch3: Vec<&Vec<u8>> = sch3.iter().filter(|s| step3 == 1 || (s.iter().position(|x| *x == 0) < s.iter().position(|x| *x == 1) && s.iter().position(|x| *x == 1) < s.iter().position(|x| *x == 2) && switches(s) <= 6)).collect();
        done = pool.run(triples.len() as u64 * split, 1, &|u, s| format!("{:?}, schedule {:?}", triples[(u / split) as usize], sch3[s as usize]), |p, u| {
            let (a, b, c) = triples[(u / split) as usize];
            for (k, s) in sch3.iter().enumerate() {
                if k as u64 % split != u % split {
                    continue;
                }
                p.sub(k as u64);
                let ws = [&three[a], &three[b], &three[c]];
                let r = run_one_thread(p, &ws, &[&base[idx_three(a)], &base[idx_three(b)], &base[idx_three(c)]], s);
                if fail(p, r, &ws, &format!("{:?}", s)) {
                    return;
                }
            }
        });
    }
    part(if t { "three memories, scripts of 3 operations" } else { "three memories, scripts of 3 operations, created in order, up to 6 switches" }, &pool, c0);
    // 4. separate threads
    let sch6 = schedules(&[6, 6]);
    let c0 = pool.get(3);
    pool.recycle = 2;
    let np = if t { 10 } else { 6 };
    if done {
        done = pool.run((np * np) as u64 * 6, 1, &|u, s| format!("threads {} schedule {:?}", u / 6, sch6[s as usize]), |p, u| {
            let (a, b) = (u as usize / 6 / np, u as usize / 6 % np);
            for (k, s) in sch6.iter().enumerate() {
                if k as u64 % 6 != u % 6 {
                    continue;
                }
                p.sub(k as u64);
                let ws = [&three[a], &three[b]];
                let r = run_threads(p, &ws, &[&base[idx_three(a)], &base[idx_three(b)]], s);
                if fail(p, r, &ws, &format!("{:?} on two threads", s)) {
                    return;
                }
            }
        });
    }
    part("two memories on two threads, scripts of 4 operations", &pool, c0);
    // 5. a memory handed between threads
    let c0 = pool.get(3);
    pool.recycle = 2;
    if done {
        done = pool.run(nr as u64 * 8, 1, &|u, s| format!("script {} moved, mask {:b}", u / 8, s), |p, u| {
            let a = u as usize / 8;
            for m in 0..256u32 {
                if m as u64 % 8 != u % 8 {
                    continue;
                }
                p.sub(m as u64);
                let r = run_moved(p, &rich[a], &base[a], m);
                if fail(p, r, &[&rich[a]], &format!("event e on thread (mask >> e & 1), mask {:08b}; a second memory with the same script on the other thread", m)) {
                    return;
                }
            }
        });
    }
    part("a memory handed between two threads, every assignment of its 8 events", &pool, c0);
    // 6. many memories at once
    let c0 = pool.get(3);
    pool.recycle = 1;
    let most: Vec<usize> = if t { (1..=255).collect() } else { (1..=32).chain([33, 40, 48, 49, 63, 64, 65, 100, 128, 129, 200, 255]).collect() };
    if done {
        done = pool.run(most.len() as u64, 1, &|u, s| format!("{} memories, order {}", most[u as usize], s), |p, u| {
            let n = most[u as usize];
            for order in 0..4 {
                p.sub(order);
                let ws: Vec<&Vec<H>> = (0..n).map(|k| &rich[k % nr]).collect();
                let so: Vec<&Vec<u64>> = (0..n).map(|k| &base[k % nr]).collect();
                let mut s: Vec<u8> = vec![];
                match order {
                    0 => (0..8).for_each(|_| s.extend(0..n as u8)),
                    1 => (0..8).for_each(|_| s.extend((0..n as u8).rev())),
                    2 => {
                        s.extend(0..n as u8);
                        (0..n as u8).for_each(|k| s.extend([k; 7]));
                    }
                    _ => {
                        s.extend(0..n as u8);
                        (0..n as u8).rev().for_each(|k| s.extend([k; 7]));
                    }
                }
                let r = run_one_thread(p, &ws, &so, &s);
                if fail(p, r, &ws, &format!("{:?}", s)) {
                    return;
                }
            }
        });
    }
    part("1..N memories at once, 4 orders each", &pool, c0);
    // 7. preemption inside operations
    if done {
        let (d, l) = mccore::preempt::explore(&mut pool, t);
        done = d;
        lines.push(l);
    }
    // 8. two dumps at the same time
    if done {
        let (d, l) = mccore::dumps::explore(&mut pool, false);
        done = d;
        lines.push(l);
    }
    for l in &lines {
        eprintln!("{}", l);
    }
    let cov = format!(
        "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"suites\": [{}],\n  \"solo_runs\": {},\n  \"state_meaning\": \"distinct joint observations of the memories\",\n  \"transition_meaning\": \"operations executed on real memories under the schedule\",\n  \"validation\": \"every schedule is executed by the real code; each memory's observations are compared with its solo run\",\n  \"samples\": [{}, {}]",
        pool.states(), pool.get(2), pool.get(3), lines.iter().map(|l| js(l)).collect::<Vec<_>>().join(", "), all.len(),
        js(&format!("{:?} with {:?} under {:?}", rich[0], rich[3], sch8[777])), js(&format!("{:?} with {:?} under {:?} on two threads", three[0], three[1], sch6[77]))
    );
    ctx.finish("model_checking", &cov, &["scheduling at the level of API operations, and of single instructions with one preemption per operation (sequentially consistent)", "memories share nothing but the allocator and the process"], &pool, done)
}

fn switches(s: &[u8]) -> usize {
    s.windows(2).filter(|w| w[0] != w[1]).count()
}
