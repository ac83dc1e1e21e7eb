//! Runs jobs on threads of which exactly one runs at a time, in every possible order.
//!
//! A thread gives up its turn at each scheduling point. Which thread gets the next turn
//! follows a schedule, so that all of them can be enumerated and any one repeated.

use std::{
    sync::{mpsc, Arc, Condvar, Mutex},
    time::Duration,
};

pub type Job = Box<dyn FnOnce() -> String + Send>;

#[derive(Default)]
struct State {
    /// Choices to follow; the first thread beyond them
    schedule: Vec<usize>,
    /// Choices made, and how many there were
    made: Vec<(usize, usize)>,
    /// How often a thread that could go on may still have to wait
    preemptions: usize,
    /// Whose turn it is
    turn: Option<usize>,
    done: Vec<bool>,
    results: Vec<String>,
    /// Threads run as they like, after one of them didn't give up its turn
    free: bool,
}

impl State {
    /// Choose whose turn is next; first the one that can go on, then the others.
    fn next(&mut self) {
        let mut ready: Vec<usize> = (0..self.done.len()).filter(|i| !self.done[*i]).collect();
        if ready.is_empty() {
            self.turn = None;
            return;
        }
        let on = self.turn.and_then(|me| ready.iter().position(|i| *i == me));
        if let Some(at) = on {
            let me = ready.remove(at);
            ready.insert(0, me);
            if self.preemptions == 0 {
                ready.truncate(1);
            }
        }
        let n = self.made.len();
        let choice = self.schedule.get(n).copied().unwrap_or(0).min(ready.len() - 1);
        if on.is_some() && choice != 0 {
            self.preemptions -= 1;
        }
        self.made.push((choice, ready.len()));
        self.turn = Some(ready[choice]);
    }
}

struct Shared {
    state: Mutex<State>,
    /// One for each thread, and one for who waits for all of them
    wake: Vec<Condvar>,
}

impl Shared {
    fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn notify(&self, s: &State) {
        match s.turn {
            Some(i) => self.wake[i].notify_one(),
            None => self.wake[self.wake.len() - 1].notify_one(),
        }
    }

    fn wait(&self, me: usize) {
        let mut s = self.lock();
        while s.turn != Some(me) && !s.free {
            s = self.wake[me].wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }

    /// Give up the turn and wait for the next one.
    fn pass(&self, me: usize) {
        let mut s = self.lock();
        if s.free {
            return;
        }
        s.next();
        if s.turn == Some(me) {
            return;
        }
        self.notify(&s);
        while s.turn != Some(me) && !s.free {
            s = self.wake[me].wait(s).unwrap_or_else(|e| e.into_inner());
        }
    }

    fn finish(&self, me: usize, result: String) {
        let mut s = self.lock();
        s.done[me] = true;
        s.results[me] = result;
        if s.free {
            if s.done.iter().all(|d| *d) {
                self.wake[self.wake.len() - 1].notify_one();
            }
            return;
        }
        s.next();
        self.notify(&s);
    }
}

/// Threads that wait for jobs.
pub struct Pool {
    shared: Arc<Shared>,
    jobs: Vec<mpsc::Sender<Job>>,
}

/// What came of running jobs under a schedule.
pub struct Run {
    pub results: Vec<String>,
    /// The choices that were made and how many there were each time
    pub made: Vec<(usize, usize)>,
    /// Threads that didn't get to their next scheduling point without the others
    pub stuck: Option<usize>,
}

impl Pool {
    pub fn new(n: usize) -> Self {
        let shared = Arc::new(Shared {
            state: Default::default(),
            wake: (0..=n).map(|_| Condvar::new()).collect(),
        });
        let jobs = (0..n)
            .map(|me| {
                let shared = shared.clone();
                let (send, recv) = mpsc::channel::<Job>();
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn(move || {
                        for job in recv {
                            shared.wait(me);
                            let at = shared.clone();
                            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                                crate::tree::with_hook(move |_| at.pass(me), job)
                            }));
                            shared.finish(me, r.unwrap_or_else(|_| "<<panic>>".into()));
                        }
                    })
                    .expect("spawn");
                send
            })
            .collect();
        Pool { shared, jobs }
    }

    /// Run one job on each of the first threads under a schedule.
    pub fn run(&self, jobs: Vec<Job>, schedule: &[usize], preemptions: usize) -> Run {
        let n = jobs.len();
        *self.shared.lock() = State {
            schedule: schedule.to_vec(),
            preemptions,
            done: vec![false; n],
            results: vec![String::new(); n],
            ..Default::default()
        };
        for (i, job) in jobs.into_iter().enumerate() {
            self.jobs[i].send(job).expect("worker");
        }
        let all = &self.shared.wake[self.shared.wake.len() - 1];
        let mut s = self.shared.lock();
        s.next();
        self.shared.notify(&s);
        let mut stuck = None;
        let mut at = (0, s.made.len());
        while !s.done.iter().all(|d| *d) {
            let (guard, _) = all.wait_timeout(s, Duration::from_millis(250)).unwrap_or_else(|e| e.into_inner());
            s = guard;
            // Without a scheduling point for long the thread waits for one that can't run
            if s.made.len() != at.1 {
                at = (0, s.made.len());
            } else {
                at.0 += 1;
            }
            if at.0 > 20 && !s.free && !s.done.iter().all(|d| *d) {
                stuck = s.turn;
                s.free = true;
                for w in &self.shared.wake {
                    w.notify_all();
                }
            }
            if at.0 > 40 && s.free && !s.done.iter().all(|d| *d) {
                // They wait for each other; there's no way of ending them
                return Run { results: s.results.clone(), made: s.made.clone(), stuck };
            }
        }
        Run {
            results: std::mem::take(&mut s.results),
            made: std::mem::take(&mut s.made),
            stuck,
        }
    }
}

/// The schedule after one that was run, in depth first order.
pub fn following(made: &[(usize, usize)]) -> Option<Vec<usize>> {
    let mut made = made.to_vec();
    while let Some((choice, of)) = made.pop() {
        if choice + 1 < of {
            let mut s: Vec<usize> = made.iter().map(|(c, _)| *c).collect();
            s.push(choice + 1);
            return Some(s);
        }
    }
    None
}
