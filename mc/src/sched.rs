//! A controlled scheduler for real threads. One thread runs at a time; every allocation, release and
//! reallocation of a controlled thread, and every explicit `point()`, is a place where the schedule may
//! switch to another thread. Threads blocked by the code under test (on any lock) are recognised by
//! their kernel state, so nothing in the code under test needs to know about the scheduler.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU32, AtomicU8, AtomicUsize, Ordering::SeqCst};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub const MAX: usize = 4;
const NONE: usize = usize::MAX;
const NEW: u8 = 0;
const PARKED: u8 = 1;
const RUN: u8 = 2;
const BLOCKED: u8 = 3;
const DONE: u8 = 4;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(NONE) };
}

static CUR: AtomicUsize = AtomicUsize::new(NONE);
static STEP: AtomicUsize = AtomicUsize::new(0);
static STAMP: AtomicUsize = AtomicUsize::new(0);
static STATE: [AtomicU8; MAX] = [const { AtomicU8::new(NEW) }; MAX];
static TID: [AtomicI32; MAX] = [const { AtomicI32::new(0) }; MAX];
static ORDER: [AtomicUsize; MAX] = [const { AtomicUsize::new(NONE) }; MAX];
static PRE_STEP: [AtomicUsize; MAX] = [const { AtomicUsize::new(NONE) }; MAX];
static PRE_TO: [AtomicUsize; MAX] = [const { AtomicUsize::new(NONE) }; MAX];
/// No switch is made and nothing is noted after this step.
static LEAF: AtomicUsize = AtomicUsize::new(NONE);
static VOID: AtomicBool = AtomicBool::new(false);
const SEGS: usize = 1024;
/// (points, thread << 8 | parked mask)
static SEG_N: [AtomicU32; SEGS] = [const { AtomicU32::new(0) }; SEGS];
static SEG_K: [AtomicU32; SEGS] = [const { AtomicU32::new(u32::MAX) }; SEGS];
static NSEG: AtomicUsize = AtomicUsize::new(0);
static LOCK: Mutex<()> = Mutex::new(());
static CV: Condvar = Condvar::new();

extern "C" {
    fn gettid() -> i32;
    fn open(path: *const u8, flags: i32, ...) -> i32;
    fn read(fd: i32, buf: *mut u8, n: usize) -> isize;
    fn close(fd: i32) -> i32;
}

/// Whether the thread sleeps in the kernel. Does not allocate.
fn sleeping(tid: i32) -> bool {
    let mut path = *b"/proc/self/task/0000000000/stat\0\0\0";
    let mut digits = [0u8; 10];
    let (mut n, mut t) = (0, tid as u32);
    while t > 0 {
        digits[n] = b'0' + (t % 10) as u8;
        t /= 10;
        n += 1;
    }
    let mut at = 16;
    for i in (0..n).rev() {
        path[at] = digits[i];
        at += 1;
    }
    for b in b"/stat\0" {
        path[at] = *b;
        at += 1;
    }
    let mut buf = [0u8; 256];
    let got = unsafe {
        let fd = open(path.as_ptr(), 0);
        if fd < 0 {
            return false;
        }
        let got = read(fd, buf.as_mut_ptr(), buf.len());
        close(fd);
        got
    };
    if got <= 0 {
        return false;
    }
    let b = &buf[..got as usize];
    match b.iter().rposition(|&c| c == b')') {
        Some(i) => b.get(i + 2) == Some(&b'S'),
        None => false,
    }
}

/// Waits until every thread seen as blocked is really asleep or has come back to a point.
fn quiesce() {
    for t in 0..MAX {
        while STATE[t].load(SeqCst) == BLOCKED && !sleeping(TID[t].load(SeqCst)) {
            std::thread::yield_now();
        }
    }
}

fn parked_mask() -> u32 {
    (0..MAX).filter(|&t| STATE[t].load(SeqCst) == PARKED).map(|t| 1 << t).sum()
}

fn give(to: usize) {
    let _g = LOCK.lock().unwrap();
    CUR.store(to, SeqCst);
    CV.notify_all();
}

fn park(me: usize) {
    let mut g = LOCK.lock().unwrap();
    STATE[me].store(PARKED, SeqCst);
    CV.notify_all();
    while CUR.load(SeqCst) != me {
        g = CV.wait(g).unwrap();
    }
    STATE[me].store(RUN, SeqCst);
}

/// A place where the schedule may switch.
pub fn point() {
    let Ok(me) = ME.try_with(|m| m.get()) else { return };
    if me == NONE {
        return;
    }
    if CUR.load(SeqCst) != me {
        park(me);
        return;
    }
    let s = STEP.fetch_add(1, SeqCst) + 1;
    if s > LEAF.load(SeqCst) {
        return;
    }
    quiesce();
    let key = (me as u32) << 8 | parked_mask();
    let n = NSEG.load(SeqCst);
    if n > 0 && SEG_K[n - 1].load(SeqCst) == key {
        SEG_N[n - 1].fetch_add(1, SeqCst);
    } else if n < SEGS {
        SEG_K[n].store(key, SeqCst);
        SEG_N[n].store(1, SeqCst);
        NSEG.store(n + 1, SeqCst);
    }
    for i in 0..MAX {
        if PRE_STEP[i].load(SeqCst) == s {
            let to = PRE_TO[i].load(SeqCst);
            if to < MAX && to != me && STATE[to].load(SeqCst) == PARKED {
                STATE[me].store(PARKED, SeqCst);
                give(to);
                park(me);
            } else {
                VOID.store(true, SeqCst);
            }
            return;
        }
    }
}

fn next() -> usize {
    quiesce();
    ORDER.iter().map(|o| o.load(SeqCst)).find(|&t| t < MAX && STATE[t].load(SeqCst) == PARKED).unwrap_or(NONE)
}

/// A global order of events, for the begin and end of calls.
pub fn stamp() -> usize {
    STAMP.fetch_add(1, SeqCst)
}

pub struct Run {
    pub steps: usize,
    /// (points, running thread, mask of the threads which could run instead)
    pub segs: Vec<(u32, usize, u32)>,
    pub void: bool,
    pub blocked: usize,
    pub deadlock: bool,
}

/// Runs the bodies under the schedule: `order` decides who runs when the running thread ends or blocks,
/// `pre` are the preemptions (step, thread to run); a leaf has no schedules after it. Once per process.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, order: &[usize], pre: &[(usize, usize)], leaf: bool) -> Run {
    let n = bodies.len();
    for (i, &o) in order.iter().enumerate() {
        ORDER[i].store(o, SeqCst);
    }
    for (i, &(s, t)) in pre.iter().enumerate() {
        PRE_STEP[i].store(s, SeqCst);
        PRE_TO[i].store(t, SeqCst);
    }
    if leaf {
        LEAF.store(pre.last().map_or(0, |p| p.0), SeqCst);
    }
    let mut hs = vec![];
    for (i, b) in bodies.into_iter().enumerate() {
        hs.push(std::thread::spawn(move || {
            TID[i].store(unsafe { gettid() }, SeqCst);
            park(i);
            ME.with(|m| m.set(i));
            b();
            ME.with(|m| m.set(NONE));
            // Woken from a block and never back at a point: the schedule is elsewhere.
            let mine = CUR.load(SeqCst) == i;
            STATE[i].store(DONE, SeqCst);
            if mine {
                give(next());
            }
        }));
    }
    while (0..n).any(|t| STATE[t].load(SeqCst) == NEW) {
        std::thread::yield_now();
    }
    give(next());
    let mut blocked = 0;
    let mut deadlock = false;
    let mut last = (NONE, 0, Instant::now());
    while (0..n).any(|t| STATE[t].load(SeqCst) != DONE) {
        {
            let g = LOCK.lock().unwrap();
            let _ = CV.wait_timeout(g, Duration::from_micros(150)).unwrap();
        }
        let c = CUR.load(SeqCst);
        let s = STEP.load(SeqCst);
        if (last.0, last.1) != (c, s) {
            last = (c, s, Instant::now());
        } else if last.2.elapsed() > Duration::from_secs(20) {
            deadlock = true;
            break;
        }
        if c == NONE {
            let t = next();
            if t != NONE {
                give(t);
            }
            continue;
        }
        let stuck = || CUR.load(SeqCst) == c && STATE[c].load(SeqCst) == RUN && STEP.load(SeqCst) == s && sleeping(TID[c].load(SeqCst));
        if stuck() {
            std::thread::sleep(Duration::from_micros(50));
            if stuck() {
                STATE[c].store(BLOCKED, SeqCst);
                blocked += 1;
                give(next());
            }
        }
    }
    if !deadlock {
        for h in hs {
            let _ = h.join();
        }
    }
    Run {
        steps: STEP.load(SeqCst),
        segs: (0..NSEG.load(SeqCst))
            .map(|i| {
                let k = SEG_K[i].load(SeqCst);
                (SEG_N[i].load(SeqCst), (k >> 8) as usize, k & 0xff)
            })
            .collect(),
        void: VOID.load(SeqCst),
        blocked,
        deadlock,
    }
}
