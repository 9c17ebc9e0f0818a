//! Runs threads one at a time. Where threads may be interrupted (the code's scheduling points, see
//! vp_hooks) a chooser decides who goes on. Only in builds with --cfg vp_hooks; otherwise the
//! threads run freely.
use rand::{rngs::StdRng, Rng, SeedableRng};
use std::{
    cell::Cell,
    sync::{Condvar, Mutex, MutexGuard, OnceLock},
    time::{Duration, Instant},
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked(u64, usize), // waits since that progress, for this lock
    Lost,                // did not come back in time: waits for something the scheduler does not see
    Done,
}
pub enum Chooser {
    /// Follows the prefix, then always choice 0; at most this many pre-emptions are offered.
    Dfs(Vec<usize>, usize),
    /// Switches with this probability.
    Random(StdRng, f64),
    /// Threads have random priorities, which change at these points.
    Pct(StdRng, Vec<u32>, Vec<u64>),
    Free,
}
struct S {
    epoch: u64,
    active: usize,
    st: Vec<St>,
    progress: u64,
    points: u64,
    chooser: Chooser,
    taken: Vec<(usize, usize)>,
    preempted: usize,
    deadlock: bool,
    last: Instant,
    names: Vec<&'static str>,
    run_len: u32,
    polls: Vec<bool>,
    waits: Vec<Option<usize>>, // the lock a thread found taken since it last got on
}
thread_local! { static ME: Cell<(u64, usize)> = const { Cell::new((0, 0)) }; }
static SCHED: OnceLock<(Mutex<S>, Condvar)> = OnceLock::new();
/// How long a thread may go on while others could.
pub static FAIR: std::sync::atomic::AtomicU32 = std::sync::atomic::AtomicU32::new(3000);
/// Only locks between these addresses are points (0: all).
pub static FROM: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub static TO: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const NOBODY: usize = usize::MAX;

fn sched() -> &'static (Mutex<S>, Condvar) {
    SCHED.get_or_init(|| {
        (
            Mutex::new(S {
                epoch: 0,
                active: NOBODY,
                st: vec![],
                progress: 0,
                points: 0,
                chooser: Chooser::Free,
                taken: vec![],
                preempted: 0,
                deadlock: false,
                last: Instant::now(),
                names: vec![],
                run_len: 0,
                waits: vec![],
                polls: vec![],
            }),
            Condvar::new(),
        )
    })
}
pub struct Outcome {
    pub taken: Vec<(usize, usize)>,
    pub deadlock: bool,
    pub points: u64,
}

impl S {
    /// Who goes on after thread `me` reported (it is ready, blocked or done).
    fn choose(&mut self, me: usize) {
        self.last = Instant::now();
        let ready = |s: &S, i: usize| match s.st[i] {
            St::Ready => true,
            St::Blocked(p, _) => p < s.progress,
            _ => false,
        };
        let mut c: Vec<usize> = vec![];
        let mine = me != NOBODY && self.st[me] == St::Ready;
        if mine {
            c.push(me);
        }
        c.extend((0..self.st.len()).filter(|i| !(mine && *i == me) && ready(self, *i)));
        if c.is_empty() {
            // waits that give up after some tries: everyone tries in turn
            let n = self.st.len();
            let from = if me == NOBODY { 0 } else { me + 1 };
            if let Some(i) = (0..n).map(|k| (from + k) % n).find(|i| self.polls[*i] && matches!(self.st[*i], St::Blocked(..))) {
                self.active = i;
                self.st[i] = St::Ready;
                return;
            }
            self.active = NOBODY;
            if self.st.iter().any(|x| matches!(x, St::Blocked(..))) && !self.st.iter().any(|x| *x == St::Lost) {
                self.deadlock = true;
            }
            return;
        }
        // a thread that never gets to its end would keep the others out
        let force = mine && c.len() > 1 && self.run_len > FAIR.load(std::sync::atomic::Ordering::Relaxed);
        if force {
            c.remove(0);
        }
        let n = c.len();
        let k = if n == 1 {
            0
        } else {
            match &mut self.chooser {
                Chooser::Free => 0,
                Chooser::Dfs(prefix, bound) => {
                    let offered = if mine && self.preempted >= *bound { 1 } else { n };
                    let k = prefix.get(self.taken.len()).copied().unwrap_or(0).min(offered - 1);
                    self.taken.push((k, offered));
                    k
                }
                Chooser::Random(r, p) => {
                    let k = if mine && !r.gen_bool(*p) { 0 } else { r.gen_range(0..n) };
                    self.taken.push((k, n));
                    k
                }
                Chooser::Pct(r, prio, at) => {
                    if at.contains(&self.points) && me != NOBODY {
                        prio[me] = r.gen_range(0..1000);
                    }
                    let k = if force || self.points > 2000 { r.gen_range(0..n) } else { (0..n).max_by_key(|i| prio[c[*i]]).unwrap() };
                    self.taken.push((k, n));
                    k
                }
            }
        };
        if mine && k > 0 {
            self.preempted += 1;
        }
        if self.active == c[k] {
            self.run_len += 1
        } else {
            self.run_len = 0
        }
        self.active = c[k];
        self.st[c[k]] = St::Ready;
    }
}
fn wait_turn(mut g: MutexGuard<'static, S>, me: (u64, usize)) {
    let cv = &sched().1;
    while g.epoch != me.0 || g.active != me.1 {
        g = cv.wait(g).unwrap();
    }
}

#[cfg(vp_hooks)]
fn hook(ev: engine::runtime::vp_hooks::Event, name: &'static str, addr: usize) -> bool {
    report(ev == engine::runtime::vp_hooks::Event::Blocked, name, addr)
}
#[cfg(vp_hooks)]
fn hook_stm(ev: stronghold_stm::vp_hooks::Event, name: &'static str, addr: usize) -> bool {
    report(ev == stronghold_stm::vp_hooks::Event::Blocked, name, addr)
}
#[allow(dead_code)]
fn report(blocked: bool, name: &'static str, addr: usize) -> bool {
    let me = match ME.try_with(|m| m.get()) {
        Ok(m) if m.0 != 0 => m,
        _ => return false,
    };
    let (m, cv) = sched();
    let mut g = m.lock().unwrap();
    if g.epoch != me.0 {
        // of a run that was given up
        wait_turn(g, me);
        return true;
    }
    if !blocked {
        g.points += 1;
        let (from, to) = (FROM.load(std::sync::atomic::Ordering::Relaxed), TO.load(std::sync::atomic::Ordering::Relaxed));
        if to > 0 && name != "harness" && (addr < from || addr >= to) {
            return true;
        }
        if !g.names.is_empty() && !g.names.contains(&name) {
            return true;
        }
    }
    let i = me.1;
    let was_lost = g.st[i] == St::Lost;
    if blocked {
        if g.waits[i] != Some(addr) {
            // it may have released something on the way here
            g.progress += 1;
        }
        g.waits[i] = Some(addr);
        g.polls[i] = name == "tvar";
        g.st[i] = St::Blocked(g.progress, addr);
    } else {
        g.waits[i] = None;
        g.progress += 1;
        g.st[i] = St::Ready;
    }
    if was_lost && g.active != NOBODY {
        wait_turn(g, me);
        return true;
    }
    g.choose(i);
    cv.notify_all();
    wait_turn(g, me);
    true
}
/// Lets others run where the harness's own code wants it.
#[allow(dead_code)]
pub fn yield_here() {
    report(false, "harness", 0);
}

/// The thread cannot go on before others did something, but may try.
#[allow(dead_code)]
pub fn poll_here() {
    report(true, "tvar", 1);
}

/// Runs the threads under the chooser; `names` are the points where a switch may happen (empty: all).
pub fn run(threads: Vec<Box<dyn FnOnce() + Send>>, chooser: Chooser, names: &[&'static str]) -> Outcome {
    #[cfg(vp_hooks)]
    {
        engine::runtime::vp_hooks::set(hook);
        stronghold_stm::vp_hooks::set(hook_stm);
    }
    let (m, cv) = sched();
    let n = threads.len();
    let free = matches!(chooser, Chooser::Free) || !cfg!(vp_hooks);
    let epoch;
    {
        let mut g = m.lock().unwrap();
        g.epoch += 1;
        epoch = g.epoch;
        g.active = NOBODY;
        g.st = vec![St::Ready; n];
        g.progress = 1;
        g.points = 0;
        g.chooser = chooser;
        g.taken.clear();
        g.preempted = 0;
        g.deadlock = false;
        g.names = names.to_vec();
        g.run_len = 0;
        g.waits = vec![None; n];
        g.polls = vec![false; n];
    }
    let start = std::sync::Arc::new(std::sync::Barrier::new(n));
    let hs: Vec<_> = threads
        .into_iter()
        .enumerate()
        .map(|(i, f)| {
            let start = start.clone();
            std::thread::spawn(move || {
                if free {
                    start.wait();
                    f();
                } else {
                    ME.with(|x| x.set((epoch, i)));
                    wait_turn(sched().0.lock().unwrap(), (epoch, i));
                    f();
                    ME.with(|x| x.set((0, 0)));
                }
                let (m, cv) = sched();
                let mut g = m.lock().unwrap();
                if g.epoch != epoch {
                    return;
                }
                let lost = g.st[i] == St::Lost;
                g.st[i] = St::Done;
                g.progress += 1;
                g.last = Instant::now();
                if !free && !(lost && g.active != NOBODY) {
                    g.choose(i);
                }
                cv.notify_all();
            })
        })
        .collect();
    let mut g = m.lock().unwrap();
    g.last = Instant::now();
    if !free {
        g.choose(NOBODY);
        cv.notify_all();
    }
    let t0 = Instant::now();
    loop {
        if g.deadlock || g.st.iter().all(|x| *x == St::Done) {
            break;
        }
        g = cv.wait_timeout(g, Duration::from_millis(500)).unwrap().0;
        let quiet = g.last.elapsed();
        if free {
            if quiet > Duration::from_secs(30) {
                g.deadlock = true;
            }
            continue;
        }
        if quiet > Duration::from_secs(3) && g.active != NOBODY && g.st[g.active] != St::Done {
            let a = g.active;
            g.st[a] = St::Lost;
            g.progress += 1;
            g.choose(NOBODY);
            cv.notify_all();
        }
        if quiet > Duration::from_secs(20) || t0.elapsed() > Duration::from_secs(60) {
            g.deadlock = true;
        }
    }
    let out = Outcome { taken: g.taken.clone(), deadlock: g.deadlock, points: g.points };
    if out.deadlock {
        g.epoch += 1;
    }
    drop(g);
    if !out.deadlock {
        for h in hs {
            let _ = h.join();
        }
    }
    out
}

/// The next schedule in depth-first order after one that was run.
pub fn next(taken: &[(usize, usize)]) -> Option<Vec<usize>> {
    let i = (0..taken.len()).rev().find(|i| taken[*i].0 + 1 < taken[*i].1)?;
    let mut p: Vec<usize> = taken[..i].iter().map(|x| x.0).collect();
    p.push(taken[i].0 + 1);
    Some(p)
}
pub fn random(seed: u64, n: usize) -> Chooser {
    let mut r = StdRng::seed_from_u64(seed);
    if r.gen_bool(0.4) {
        let prio = (0..n).map(|_| r.gen_range(0..1000)).collect();
        let at = (0..r.gen_range(1..5)).map(|_| r.gen_range(1..150)).collect();
        Chooser::Pct(r, prio, at)
    } else {
        let p = [0.05, 0.2, 0.5, 0.9][r.gen_range(0..4)];
        Chooser::Random(r, p)
    }
}
