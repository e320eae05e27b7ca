//! Decides which thread runs. Exactly one thread runs at a time; it hands over only at operations.

use std::collections::VecDeque;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Ready,
    Stalled,
    /// Waits for something other than the scheduler
    Blocked,
    Done,
}

struct Inner {
    current: Option<usize>,
    states: Vec<State>,
    rng: Rng,
    /// One in so many operations hands over
    switch: usize,
    /// The choices to repeat, if this is a replay
    script: Option<VecDeque<u8>>,
    pub log: Vec<u8>,
    steps: u64,
    /// Threads that finished while another one was stalled
    finished_during_stall: u64,
    switches: u64,
    blocked: u64,
}

pub struct Sched {
    inner: Mutex<Inner>,
    wake: Condvar,
}

pub struct SchedReport {
    pub blocked: bool,
    pub log: Vec<u8>,
    pub steps: u64,
    pub switches: u64,
    pub finished_during_stall: u64,
    pub running: Option<usize>,
    /// How often a thread had to wait for another one
    pub waits: u64,
}

impl Sched {
    pub fn new(threads: usize, seed: u64, switch: usize, script: Option<Vec<u8>>) -> Self {
        Sched {
            inner: Mutex::new(Inner {
                current: None,
                states: vec![State::Ready; threads],
                rng: Rng::new(seed),
                switch,
                script: script.map(Into::into),
                log: Vec::new(),
                steps: 0,
                finished_during_stall: 0,
                switches: 0,
                blocked: 0,
            }),
            wake: Condvar::new(),
        }
    }

    fn choose(&self, inner: &mut Inner, keep: Option<usize>) {
        let ready: Vec<usize> = (0..inner.states.len())
            .filter(|&i| inner.states[i] == State::Ready)
            .collect();
        let next = if ready.is_empty() {
            // Only stalled ones are left: now they go on
            match inner.states.iter().position(|s| *s == State::Stalled) {
                Some(i) => {
                    inner.states[i] = State::Ready;
                    Some(i)
                }
                None => None,
            }
        } else {
            let choice = match inner.script.as_mut().and_then(VecDeque::pop_front) {
                Some(c) if ready.contains(&(c as usize)) => c as usize,
                Some(_) => ready[0],
                None if inner.script.is_some() => keep.filter(|k| ready.contains(k)).unwrap_or(ready[0]),
                None => match keep.filter(|k| ready.contains(k)) {
                    Some(keep) if !inner.rng.chance(1, inner.switch) => keep,
                    _ => *inner.rng.pick(&ready),
                },
            };
            inner.log.push(choice as u8);
            Some(choice)
        };
        if next != inner.current {
            inner.switches += 1;
        }
        inner.current = next;
        self.wake.notify_all();
    }

    fn wait_turn<'a>(&self, mut inner: std::sync::MutexGuard<'a, Inner>, me: usize) {
        while inner.current != Some(me) {
            inner = self.wake.wait(inner).unwrap();
        }
    }

    /// A thread starts
    pub fn enter(&self, me: usize) {
        let inner = self.inner.lock().unwrap();
        self.wait_turn(inner, me);
    }

    pub fn start(&self) {
        let mut inner = self.inner.lock().unwrap();
        self.choose(&mut inner, None);
    }

    pub fn step(&self, me: usize) {
        let mut inner = self.inner.lock().unwrap();
        inner.steps += 1;
        if self.resumes(&mut inner, me) {
            self.choose(&mut inner, Some(me));
        }
        self.wait_turn(inner, me);
    }

    /// Whether it is this thread's turn; it is not, if it was blocked and another one went on
    fn resumes(&self, inner: &mut Inner, me: usize) -> bool {
        if inner.states[me] == State::Blocked {
            inner.states[me] = State::Ready;
        }
        inner.current == Some(me) || inner.current.is_none()
    }

    pub fn stall(&self, me: usize) {
        let mut inner = self.inner.lock().unwrap();
        inner.steps += 1;
        let turn = self.resumes(&mut inner, me);
        inner.states[me] = State::Stalled;
        if turn {
            self.choose(&mut inner, None);
        }
        self.wait_turn(inner, me);
    }

    pub fn finish(&self, me: usize) {
        let mut inner = self.inner.lock().unwrap();
        let turn = self.resumes(&mut inner, me);
        inner.states[me] = State::Done;
        inner.steps += 1;
        if inner.states.contains(&State::Stalled) {
            inner.finished_during_stall += 1;
        }
        if turn {
            self.choose(&mut inner, None);
        }
    }

    /// Waits until all threads are done, or until nothing happens any more: the running thread is
    /// blocked by something other than the scheduler. If that is `tolerated` for a short while, then
    /// the others go on.
    pub fn join(&self, patience: Duration, tolerated: Option<Duration>) -> SchedReport {
        let mut inner = self.inner.lock().unwrap();
        let mut steps = inner.steps;
        let mut since = Instant::now();
        let poll = tolerated.map_or(Duration::from_millis(200), |t| t / 4);
        // If the whole machine stops for a while, then only one of them is late
        let mut polls = 0;
        let blocked = loop {
            if inner.states.iter().all(|s| *s == State::Done) {
                break false;
            }
            if inner.steps != steps {
                steps = inner.steps;
                since = Instant::now();
                polls = 0;
            } else if since.elapsed() > patience && poll * polls > patience / 2 {
                break true;
            } else if let (Some(t), Some(running)) = (tolerated, inner.current) {
                let others = (0..inner.states.len()).any(|i| {
                    i != running && matches!(inner.states[i], State::Ready | State::Stalled)
                });
                if since.elapsed() > t && polls >= 3 && others {
                    inner.states[running] = State::Blocked;
                    inner.blocked += 1;
                    self.choose(&mut inner, None);
                    since = Instant::now();
                    polls = 0;
                }
            }
            let (guard, timeout) = self.wake.wait_timeout(inner, poll).unwrap();
            inner = guard;
            polls += timeout.timed_out() as u32;
        };
        SchedReport {
            blocked,
            log: inner.log.clone(),
            steps: inner.steps,
            switches: inner.switches,
            finished_during_stall: inner.finished_during_stall,
            running: inner.current,
            waits: inner.blocked,
        }
    }
}
