//! The simulated world's clock, tasks, channels, nodes and fault injection. One thread, one world per run.

use std::cell::{Cell, RefCell};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use crate::choice::{self, Choices};
use crate::seam;
use crate::world::World;

pub const MS: i64 = 1_000_000;
pub const SEC: i64 = 1_000_000_000;
pub type TaskId = u64;
pub type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

pub struct TaskInfo {
    pub node: Option<usize>,
    pub name: String,
    /// The audited call this task is serving, if any.
    pub call: Option<u64>,
    pub actor: u32,
    /// Provider calls made so far.
    pub ios: u32,
}

pub struct Node {
    pub name: String,
    pub up: bool,
    pub skew: i64,
    pub crashes: u32,
    /// Which kind of node: "issuer", "verifier", "wallet".
    pub kind: &'static str,
}

#[derive(Clone, Debug)]
pub struct Reply {
    pub ok: bool,
    pub body: Vec<u8>,
    /// What the message says, if it travelled untouched.
    pub meant: Option<serde_json::Value>,
}

#[derive(Default)]
struct Chan {
    queue: Vec<Reply>,
    waiter: Option<TaskId>,
}

pub struct Exec {
    pub now: i64,
    pub start: i64,
    pub ch: Choices,
    pub steps: u64,
    pub tasks: BTreeMap<TaskId, TaskInfo>,
    ready: Vec<TaskId>,
    killed: BTreeSet<TaskId>,
    timers: BinaryHeap<Reverse<(i64, u64, TaskId)>>,
    chans: BTreeMap<u64, Chan>,
    next: u64,
    pub cur: TaskId,
    registered: bool,
    pub nodes: Vec<Node>,
    pub ihash: u64,
    pub stats: BTreeMap<&'static str, u64>,
    pub trace_on: bool,
    pub trace: Vec<String>,
}

thread_local! {
    static W: RefCell<Option<Box<World>>> = const { RefCell::new(None) };
    static FUTS: RefCell<BTreeMap<TaskId, BoxFut>> = const { RefCell::new(BTreeMap::new()) };
    pub static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static IN_SIM: Cell<bool> = const { Cell::new(false) };
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    W.with(|w| f(w.borrow_mut().as_mut().expect("no world on this thread")))
}

pub fn install(w: World) {
    W.with(|c| *c.borrow_mut() = Some(Box::new(w)));
}

pub fn uninstall() -> World {
    let futs = FUTS.with(|f| std::mem::take(&mut *f.borrow_mut()));
    drop(futs);
    *W.with(|c| c.borrow_mut().take()).expect("no world on this thread")
}

impl Exec {
    pub fn new(seed: u64, replay: Option<choice::Streams>, start: i64, trace_on: bool) -> Self {
        Self {
            now: start,
            start,
            ch: Choices::new(seed, replay),
            steps: 0,
            tasks: BTreeMap::new(),
            ready: vec![],
            killed: BTreeSet::new(),
            timers: BinaryHeap::new(),
            chans: BTreeMap::new(),
            next: 1,
            cur: 0,
            registered: false,
            nodes: vec![],
            ihash: 0xcbf2_9ce4_8422_2325,
            stats: BTreeMap::new(),
            trace_on,
            trace: vec![],
        }
    }

    pub fn id(&mut self) -> u64 {
        self.next += 1;
        self.next
    }

    pub fn count(&mut self, k: &'static str) {
        *self.stats.entry(k).or_default() += 1;
    }

    pub fn count_n(&mut self, k: &'static str, n: u64) {
        *self.stats.entry(k).or_default() += n;
    }

    /// Folds a schedule-relevant event into the interleaving hash.
    pub fn mark(&mut self, s: &str) {
        for b in s.bytes() {
            self.ihash = (self.ihash ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
    }

    pub fn ev(&mut self, f: impl FnOnce() -> String) {
        if self.trace_on {
            let t = (self.now - self.start) as f64 / SEC as f64;
            let who = self.tasks.get(&self.cur).map_or(String::new(), |t| t.name.clone());
            let line = format!("{t:10.3}s #{:<5} [{who}] {}", self.steps, f());
            self.trace.push(line);
        }
    }

    fn wake(&mut self, t: TaskId) {
        if self.tasks.contains_key(&t) && !self.ready.contains(&t) {
            self.ready.push(t);
        }
    }

    /// Clock as read by the node of the current task.
    pub fn local(&self, node: usize) -> i64 {
        self.now + self.nodes[node].skew
    }

    pub fn cur_node(&self) -> Option<usize> {
        self.tasks.get(&self.cur).and_then(|t| t.node)
    }

    pub fn cur_call(&self) -> Option<u64> {
        self.tasks.get(&self.cur).and_then(|t| t.call)
    }

    pub fn actor(&self) -> u32 {
        self.tasks.get(&self.cur).map_or(choice::ACTOR0, |t| t.actor)
    }
}

// ---------------------------------------------------------------------------------------------------------------
// decisions

/// A decision of the current actor's script.
pub fn pick(n: u32) -> u32 {
    with(|w| {
        let s = w.x.actor();
        w.x.ch.pick(s, n)
    })
}

pub fn pick_on(stream: u32, n: u32) -> u32 {
    with(|w| w.x.ch.pick(stream, n))
}

/// True with probability p/1000; 0 (false) is the plain option.
pub fn chance(p: u32) -> bool {
    p > 0 && pick(1000) >= 1000 - p.min(999)
}

pub fn chance_on(stream: u32, p: u32) -> bool {
    p > 0 && pick_on(stream, 1000) >= 1000 - p.min(999)
}

pub fn one_of<T: Clone>(v: &[T]) -> T {
    v[pick(v.len() as u32) as usize].clone()
}

pub fn ev(f: impl FnOnce() -> String) {
    with(|w| w.x.ev(f));
}

pub fn count(k: &'static str) {
    with(|w| w.x.count(k));
}

// ---------------------------------------------------------------------------------------------------------------
// leaf futures

pub struct Sleep {
    until: Option<i64>,
    dur: i64,
}

pub fn sleep(dur: i64) -> Sleep {
    Sleep { until: None, dur }
}

impl Future for Sleep {
    type Output = ();

    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        with(|w| {
            let x = &mut w.x;
            x.registered = true;
            match self.until {
                Some(t) if x.now >= t => Poll::Ready(()),
                Some(_) => Poll::Pending,
                None => {
                    let t = x.now + self.dur.max(0);
                    self.until = Some(t);
                    let id = x.id();
                    let cur = x.cur;
                    if self.dur <= 0 {
                        x.wake(cur);
                    } else {
                        x.timers.push(Reverse((t, id, cur)));
                    }
                    Poll::Pending
                }
            }
        })
    }
}

pub fn yield_now() -> Sleep {
    sleep(0)
}

/// Never completes (a task that hit a crash point waits here to be dropped).
pub struct Never;

impl Future for Never {
    type Output = ();

    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        with(|w| w.x.registered = true);
        Poll::Pending
    }
}

pub struct Recv {
    chan: u64,
    timeout: i64,
    until: Option<i64>,
}

pub fn chan() -> u64 {
    with(|w| {
        let id = w.x.id();
        w.x.chans.insert(id, Chan::default());
        id
    })
}

pub fn send(chan: u64, r: Reply) {
    with(|w| {
        let Some(c) = w.x.chans.get_mut(&chan) else { return };
        c.queue.push(r);
        if let Some(t) = c.waiter.take() {
            w.x.wake(t);
        }
    });
}

pub fn recv(chan: u64, timeout: i64) -> Recv {
    Recv { chan, timeout, until: None }
}

impl Future for Recv {
    type Output = Option<Reply>;

    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Reply>> {
        with(|w| {
            let x = &mut w.x;
            x.registered = true;
            let (now, cur) = (x.now, x.cur);
            let c = x.chans.entry(self.chan).or_default();
            if !c.queue.is_empty() {
                return Poll::Ready(Some(c.queue.remove(0)));
            }
            match self.until {
                Some(t) if now >= t => {
                    c.waiter = None;
                    Poll::Ready(None)
                }
                Some(_) => {
                    c.waiter = Some(cur);
                    Poll::Pending
                }
                None => {
                    c.waiter = Some(cur);
                    let t = now + self.timeout;
                    self.until = Some(t);
                    let id = x.id();
                    x.timers.push(Reverse((t, id, cur)));
                    Poll::Pending
                }
            }
        })
    }
}

// ---------------------------------------------------------------------------------------------------------------
// tasks

pub fn spawn(node: Option<usize>, name: impl Into<String>, fut: impl Future<Output = ()> + 'static) -> TaskId {
    let actor = with(|w| w.x.actor());
    spawn_actor(node, name, actor, fut)
}

pub fn spawn_actor(
    node: Option<usize>, name: impl Into<String>, actor: u32, fut: impl Future<Output = ()> + 'static,
) -> TaskId {
    let id = with(|w| {
        let id = w.x.id();
        w.x.tasks.insert(id, TaskInfo { node, name: name.into(), call: None, actor, ios: 0 });
        w.x.ready.push(id);
        id
    });
    FUTS.with(|f| f.borrow_mut().insert(id, Box::pin(fut)));
    id
}

/// Takes a node down: every task running on it stops where it is; only stores survive.
pub fn crash(node: usize) {
    with(|w| {
        let x = &mut w.x;
        if !x.nodes[node].up {
            return;
        }
        x.nodes[node].up = false;
        x.nodes[node].crashes += 1;
        x.count("fault.crash");
        let name = x.nodes[node].name.clone();
        x.mark("crash");
        x.ev(|| format!("CRASH of {name}"));
        let dead: Vec<TaskId> = x.tasks.iter().filter(|(_, t)| t.node == Some(node)).map(|(id, _)| *id).collect();
        for t in dead {
            let call = x.tasks.get(&t).and_then(|t| t.call);
            x.killed.insert(t);
            x.ready.retain(|r| *r != t);
            if let Some(c) = call {
                w.calls.crashed(c);
            }
        }
        w.on_crash(node);
    });
}

pub fn restart(node: usize) {
    with(|w| {
        let x = &mut w.x;
        if !x.nodes[node].up {
            x.nodes[node].up = true;
            let name = x.nodes[node].name.clone();
            x.ev(|| format!("restart of {name}"));
        }
    });
}

struct Nop;
impl Wake for Nop {
    fn wake(self: Arc<Self>) {}
}

enum Next {
    Run(TaskId),
    Stop,
}

fn reap() {
    let dead: Vec<TaskId> = with(|w| {
        let cur = w.x.cur;
        let d: Vec<TaskId> = w.x.killed.iter().copied().filter(|t| *t != cur).collect();
        for t in &d {
            w.x.killed.remove(t);
            w.x.tasks.remove(t);
        }
        d
    });
    for t in dead {
        let f = FUTS.with(|f| f.borrow_mut().remove(&t));
        drop(f);
    }
}

/// Runs until the root task ends, nothing is left to do, or the step budget is spent.
pub fn run(root: TaskId, max_steps: u64) -> bool {
    let waker = Waker::from(Arc::new(Nop));
    loop {
        with(|w| w.x.cur = 0);
        reap();
        let next = with(|w| {
            let x = &mut w.x;
            if !x.tasks.contains_key(&root) || x.steps >= max_steps {
                return Next::Stop;
            }
            while x.ready.is_empty() {
                let Some(Reverse((t, _, task))) = x.timers.pop() else { return Next::Stop };
                x.now = x.now.max(t);
                x.wake(task);
                // everything due at the same instant is ready together
                while let Some(Reverse((t2, _, _))) = x.timers.peek() {
                    if *t2 > x.now {
                        break;
                    }
                    let Some(Reverse((_, _, task))) = x.timers.pop() else { break };
                    x.wake(task);
                }
            }
            let n = x.ready.len() as u32;
            let i = x.ch.pick(choice::SCHED, n) as usize;
            if n > 1 {
                x.count("sched.choices");
            }
            let t = x.ready.remove(i);
            x.steps += 1;
            Next::Run(t)
        });
        let t = match next {
            Next::Run(t) => t,
            Next::Stop => {
                return with(|w| !w.x.tasks.contains_key(&root));
            }
        };
        let Some(mut fut) = FUTS.with(|f| f.borrow_mut().remove(&t)) else { continue };
        let clock = with(|w| {
            w.x.cur = t;
            w.x.registered = false;
            let node = w.x.tasks.get(&t).and_then(|t| t.node);
            w.x.now + node.map_or(0, |n| w.x.nodes[n].skew)
        });
        seam::set_clock(clock);
        let res = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut Context::from_waker(&waker))));
        let done = match res {
            Ok(Poll::Ready(())) => true,
            Ok(Poll::Pending) => {
                let (reg, dead) = with(|w| (w.x.registered, w.x.killed.contains(&t)));
                if !reg && !dead {
                    with(|w| w.hang(t));
                    true
                } else {
                    dead
                }
            }
            Err(_) => {
                let msg = PANIC_MSG.with(|m| m.borrow_mut().take()).unwrap_or_default();
                with(|w| w.panicked(t, &msg));
                true
            }
        };
        if done {
            let _ = catch_unwind(AssertUnwindSafe(|| drop(fut)));
            with(|w| {
                w.x.killed.remove(&t);
                w.x.tasks.remove(&t);
            });
        } else {
            FUTS.with(|f| f.borrow_mut().insert(t, fut));
        }
    }
}
