//! A minimal single-threaded executor for futures 0.1 tasks inside a node. Which
//! ready task is polled next, and spurious polls, are the simulator's choice.
use crate::world::{cur, NState, K};
use futures::executor::{spawn, Notify, NotifyHandle, Spawn};
use futures::{Async, Future};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};

pub type Task = Box<dyn Future<Item = (), Error = ()> + Send>;

struct Ready {
    flags: Mutex<Vec<bool>>,
    woken: Arc<AtomicBool>,
}

impl Notify for Ready {
    fn notify(&self, id: usize) {
        let mut f = self.flags.lock().unwrap();
        if id < f.len() {
            f[id] = true;
        }
        self.woken.store(true, Ordering::SeqCst);
    }
}

thread_local! {
    static REACTOR: std::cell::RefCell<Option<tokio_reactor::Reactor>> = const { std::cell::RefCell::new(None) };
}

struct NoReactor;
impl Drop for NoReactor {
    fn drop(&mut self) {
        let r = REACTOR.with(|r| r.borrow_mut().take());
        drop(r);
    }
}

/// Runs `f` with a real reactor, over the simulated kernel, driving this node's sockets.
pub fn with_reactor<T>(f: impl FnOnce() -> T) -> T {
    let r = tokio_reactor::Reactor::new().expect("reactor");
    let h = r.handle();
    REACTOR.with(|x| *x.borrow_mut() = Some(r));
    let _g = NoReactor;
    let _default = tokio_reactor::set_default(&h);
    f()
}

/// Runs the tasks to completion on the calling node.
pub fn run_tasks(tasks: Vec<Task>) {
    let (w, me) = cur().expect("executor outside a node");
    run_tasks_with(tasks, move || {
        let r = REACTOR.with(|r| r.borrow_mut().take());
        match r {
            None => false,
            Some(mut r) => {
                let ok = r.turn(None).is_ok();
                REACTOR.with(|x| *x.borrow_mut() = Some(r));
                if !ok {
                    w.step(me);
                }
                true
            }
        }
    })
}

thread_local! {
    static NEW: std::cell::RefCell<Vec<Task>> = const { std::cell::RefCell::new(Vec::new()) };
}

/// Adds a task to the executor running on this node.
pub fn spawn_task(t: Task) {
    NEW.with(|n| n.borrow_mut().push(t));
}

/// `idle` is called whenever no task is ready. It returns true if it waited itself
/// (in a reactor); otherwise the node waits for a wake-up.
pub fn run_tasks_with<F: FnMut() -> bool>(tasks: Vec<Task>, mut idle: F) {
    let (w, me) = cur().expect("executor outside a node");
    let woken = w.lock().nodes[me].woken.clone();
    woken.store(false, Ordering::SeqCst);
    let ready = Arc::new(Ready { flags: Mutex::new(vec![true; tasks.len()]), woken: woken.clone() });
    let handle: NotifyHandle = NotifyHandle::from(ready.clone());
    let mut tasks: Vec<Option<Spawn<Task>>> = tasks.into_iter().map(|t| Some(spawn(t))).collect();
    loop {
        let new = NEW.with(|n| std::mem::take(&mut *n.borrow_mut()));
        if !new.is_empty() {
            let mut f = ready.flags.lock().unwrap();
            for t in new {
                tasks.push(Some(spawn(t)));
                f.push(true);
            }
        }
        if tasks.iter().all(|t| t.is_none()) {
            return;
        }
        w.step(me);
        woken.store(false, Ordering::SeqCst);
        let live: Vec<usize> = (0..tasks.len()).filter(|&i| tasks[i].is_some()).collect();
        let rdy: Vec<usize> = {
            let f = ready.flags.lock().unwrap();
            live.iter().copied().filter(|&i| f[i]).collect()
        };
        let pick = {
            let mut g = w.lock();
            let sp = g.spurious_poll;
            if rdy.is_empty() {
                // a task polled although nothing happened
                None
            } else if sp > 0 && g.tape.chance(sp) {
                let i = g.tape.choose(live.len() as u32) as usize;
                g.ev(me, K::SpuriousPoll, live[i] as u64, 0);
                Some(live[i])
            } else {
                let i = g.tape.choose(rdy.len() as u32) as usize;
                Some(rdy[i])
            }
        };
        match pick {
            Some(i) => {
                ready.flags.lock().unwrap()[i] = false;
                let r = tasks[i].as_mut().unwrap().poll_future_notify(&handle, i);
                match r {
                    Ok(Async::NotReady) => {}
                    _ => tasks[i] = None,
                }
            }
            None => {
                if idle() {
                    continue;
                }
                let mut g = w.lock();
                let any = { let f = ready.flags.lock().unwrap(); live.iter().any(|&i| f[i]) };
                if !any {
                    g.nodes[me].state = NState::Idle;
                    g.nodes[me].why = "tasks waiting for wake-up".into();
                    w.block(g, me);
                }
            }
        }
    }
}

/// Runs one future to completion on the calling node and returns its result.
pub fn block_on<F>(f: F) -> Result<F::Item, F::Error>
where
    F: Future + Send + 'static,
    F::Item: Send + 'static,
    F::Error: Send + 'static,
{
    let slot = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    run_tasks(vec![Box::new(f.then(move |r| {
        *s2.lock().unwrap() = Some(r);
        Ok(())
    }))]);
    let r = slot.lock().unwrap().take();
    r.expect("future finished without a result")
}
