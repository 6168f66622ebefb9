use crate::util::*;
use libmcaptcha::errors::CaptchaError;
use libmcaptcha::verif_hooks::{Manager, Runnable};
use std::collections::{HashMap, VecDeque};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// how long to wait for something that has to happen
const PATIENCE: Duration = Duration::from_secs(20);

struct Gated {
    id: usize,
    started: Mutex<Sender<(usize, std::thread::ThreadId)>>,
    gate: Mutex<Receiver<()>>,
    runs: Arc<Mutex<HashMap<usize, usize>>>,
    finished: Arc<AtomicUsize>,
}
impl Runnable for Gated {
    fn run(&self) {
        *self.runs.lock().unwrap().entry(self.id).or_default() += 1;
        let _ = self.started.lock().unwrap().send((self.id, std::thread::current().id()));
        let _ = self.gate.lock().unwrap().recv();
        self.finished.fetch_add(1, Ordering::SeqCst);
    }
}

/// drop in the background: a shutdown that hangs is a failure, not a hang of the harness
fn shut(m: Manager) -> R {
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        drop(m);
        let _ = tx.send(());
    });
    rx.recv_timeout(PATIENCE).map_err(|_| "shutting the queue down does not end".to_string())
}

pub async fn run(mut r: Rng, t: Trace, p: String) -> R {
    let large = r.chance(15);
    let workers = if large { r.range(1, 12) } else { r.range(1, 4) } as usize;
    let limit = match p.as_str() {
        _ if large => r.range(10, 60) as usize,
        "C14" => r.range(0, 3) as usize,
        _ if r.chance(30) => r.range(1, 4) as usize,
        _ => r.range(3, 20) as usize,
    };
    let clients: Vec<String> = vec!["a".into(), "b".into(), "".into(), "a b".into(), "c".into()];
    // from one busy client to many, from idle workers to a growing backlog
    let clients: Vec<String> = if large { (0..r.range(5, 50)).map(|i| format!("c{i}")).collect() } else { clients.into_iter().take(r.range(1, 5) as usize).collect() };
    let submit = *r.pick(&[40, 60, 60, 85]);
    t.log(format!("{workers} workers, room for {limit} clients"));
    let m = Manager::new(workers, limit);
    let (stx, srx) = channel();
    let runs = Arc::new(Mutex::new(HashMap::new()));
    let finished = Arc::new(AtomicUsize::new(0));
    let mut gates: HashMap<usize, Sender<()>> = HashMap::new();
    let mut thread_of: HashMap<usize, std::thread::ThreadId> = HashMap::new();
    let mut running: Vec<usize> = vec![];
    let mut q: HashMap<String, VecDeque<usize>> = HashMap::new();
    let mut turns: VecDeque<String> = VecDeque::new();
    let mut id = 0;
    let mut accepted = 0;
    for step in 0..if large { r.range(40, 160) } else { r.range(4, 40) } {
        let full = turns.len() >= limit;
        if running.is_empty() || r.chance(submit) {
            let c = r.pick(&clients).clone();
            let (gtx, grx) = channel();
            let j = Gated { id, started: Mutex::new(stx.clone()), gate: Mutex::new(grx), runs: runs.clone(), finished: finished.clone() };
            gates.insert(id, gtx);
            t.log(format!("{step}: client {c:?} submits job {id}"));
            let f = m.add(c.clone(), Box::new(j));
            let x = actix::clock::timeout(PATIENCE, f).await.map_err(|_| "a submission is not answered".to_string())?;
            if full {
                chk!(x == Err(CaptchaError::QueueFull), "with {} clients waiting of {limit} a submission was answered with {x:?}", turns.len());
            } else {
                chk!(x == Ok(()), "with {} clients waiting of {limit} a submission was answered with {x:?}", turns.len());
                accepted += 1;
                q.entry(c.clone()).or_default().push_back(id);
                if !turns.contains(&c) {
                    turns.push_back(c);
                }
            }
            id += 1;
        } else {
            let k = r.below(running.len() as u64) as usize;
            let j = running.remove(k);
            t.log(format!("{step}: job {j} ends"));
            gates.remove(&j).unwrap().send(()).map_err(|_| format!("job {j} is gone"))?;
            if turns.is_empty() {
                // lets the completion be reported; whether it was makes no difference to what follows
                std::thread::sleep(Duration::from_millis(2));
            }
        }
        // idle workers take waiting work at once
        while running.len() < workers && !turns.is_empty() {
            let c = turns.pop_front().unwrap();
            let j = q.get_mut(&c).unwrap().pop_front().unwrap();
            if q[&c].is_empty() {
                q.remove(&c);
            } else {
                turns.push_back(c.clone());
            }
            match srx.recv_timeout(PATIENCE) {
                Ok((x, th)) => {
                    chk!(x == j, "job {x} was started, expected job {j} of client {c:?}");
                    for o in &running {
                        chk!(thread_of[o] != th, "job {x} was started on the thread of job {o}");
                    }
                    thread_of.insert(x, th);
                    running.push(x);
                }
                Err(_) => return Err(format!("job {j} of client {c:?} is never started although only {} of {workers} workers are busy", running.len())),
            }
        }
        if let Ok((x, _)) = srx.try_recv() {
            return Err(format!("job {x} was started although every worker is busy or nothing is waiting"));
        }
    }
    // let everything finish, one by one
    t.log("all jobs end");
    while !running.is_empty() {
        let k = r.below(running.len() as u64) as usize;
        let j = running.remove(k);
        gates.remove(&j).unwrap().send(()).map_err(|_| format!("job {j} is gone"))?;
        if let Some(c) = turns.pop_front() {
            let j = q.get_mut(&c).unwrap().pop_front().unwrap();
            if q[&c].is_empty() {
                q.remove(&c);
            } else {
                turns.push_back(c.clone());
            }
            match srx.recv_timeout(PATIENCE) {
                Ok((x, th)) => {
                    chk!(x == j, "job {x} was started, expected job {j} of client {c:?}");
                    thread_of.insert(x, th);
                    running.push(x);
                }
                Err(_) => return Err(format!("job {j} of client {c:?} is never started")),
            }
        }
    }
    shut(m)?;
    let g = runs.lock().unwrap();
    chk!(g.len() == accepted && g.values().all(|n| *n == 1), "{accepted} jobs were accepted, {} ran, some {} times", g.len(), g.values().max().unwrap_or(&0));
    chk!(finished.load(Ordering::SeqCst) == accepted, "shutting down did not wait for {} jobs", accepted - finished.load(Ordering::SeqCst));
    Ok(())
}

struct Slow {
    ms: u64,
    alive: Arc<AtomicUsize>,
    done: Arc<AtomicUsize>,
}
impl Runnable for Slow {
    fn run(&self) {
        std::thread::sleep(Duration::from_millis(self.ms));
        self.done.fetch_add(1, Ordering::SeqCst);
    }
}
impl Drop for Slow {
    fn drop(&mut self) {
        self.alive.fetch_sub(1, Ordering::SeqCst);
    }
}
/// threads of this process
fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map(|d| d.count()).unwrap_or(0)
}
/// shutting down waits for the jobs that were handed out, and ends every thread
pub fn shutdown(r: &mut Rng, t: &Trace) -> R {
    let workers = r.range(1, 5) as usize;
    let n = r.range(1, 10) as usize;
    let before = threads();
    let (alive, done) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
    t.log(format!("{workers} workers, {n} jobs, shut down at once"));
    let m = Manager::new(workers, 100);
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    for i in 0..n {
        alive.fetch_add(1, Ordering::SeqCst);
        let j = Slow { ms: 100 + r.below(50), alive: alive.clone(), done: done.clone() };
        rt.block_on(m.add(format!("{i}"), Box::new(j))).map_err(|e| format!("{e:?}"))?;
    }
    shut(m)?;
    chk!(done.load(Ordering::SeqCst) >= n.min(workers), "shutting down returned with {} of {} handed-out jobs run", done.load(Ordering::SeqCst), n.min(workers));
    chk!(alive.load(Ordering::SeqCst) == 0, "{} jobs survived the shutdown", alive.load(Ordering::SeqCst));
    let at_most = done.load(Ordering::SeqCst);
    for _ in 0..400 {
        if threads() <= before {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    chk!(threads() <= before, "{} threads survived the shutdown", threads() - before);
    chk!(done.load(Ordering::SeqCst) == at_most, "jobs ran after the shutdown");
    Ok(())
}

struct Noted {
    id: usize,
    order: Arc<Mutex<Vec<usize>>>,
    gate: Option<Mutex<Receiver<()>>>,
    done: Sender<()>,
}
impl Runnable for Noted {
    fn run(&self) {
        if let Some(g) = &self.gate {
            let _ = g.lock().unwrap().recv();
        }
        self.order.lock().unwrap().push(self.id);
        let _ = self.done.send(());
    }
}
/// a long backlog, of more clients than usual, behind one worker: the exact order, and the exact limit
pub async fn many(mut r: Rng, t: Trace) -> R {
    let (clients, limit) = (900usize, 700usize);
    t.log(format!("1 worker, room for {limit} clients, a backlog of {clients} of them"));
    let m = Manager::new(1, limit);
    let order = Arc::new(Mutex::new(vec![]));
    let (gtx, grx) = channel();
    let (dtx, drx) = channel();
    m.add("first".into(), Box::new(Noted { id: 0, order: order.clone(), gate: Some(Mutex::new(grx)), done: dtx.clone() })).await.map_err(|e| format!("{e:?}"))?;
    let mut q: HashMap<usize, VecDeque<usize>> = HashMap::new();
    let mut turns: VecDeque<usize> = VecDeque::new();
    let mut id = 1;
    for k in 0..2000 {
        let c = if k < 600 { k } else { r.below(clients as u64) as usize };
        let full = turns.len() >= limit;
        let j = Noted { id, order: order.clone(), gate: None, done: dtx.clone() };
        let x = actix::clock::timeout(PATIENCE, m.add(format!("client {c}"), Box::new(j))).await.map_err(|_| "a submission is not answered".to_string())?;
        if full {
            chk!(x == Err(CaptchaError::QueueFull), "with {} clients waiting of {limit} a submission was answered with {x:?}", turns.len());
        } else {
            chk!(x == Ok(()), "with {} clients waiting of {limit} a submission was answered with {x:?}", turns.len());
            q.entry(c).or_default().push_back(id);
            if !turns.contains(&c) {
                turns.push_back(c);
            }
        }
        id += 1;
    }
    let mut want = vec![0];
    // jobs added while there was room: several per client come later
    while let Some(c) = turns.pop_front() {
        let l = q.get_mut(&c).unwrap();
        want.push(l.pop_front().unwrap());
        if !l.is_empty() {
            turns.push_back(c);
        }
    }
    gtx.send(()).map_err(|_| "the first job is gone".to_string())?;
    for i in 0..want.len() {
        drx.recv_timeout(PATIENCE).map_err(|_| format!("only {i} of {} accepted jobs ran", want.len()))?;
    }
    let got = order.lock().unwrap().clone();
    if let Some(i) = (0..want.len()).find(|i| got.get(*i) != Some(&want[*i])) {
        return Err(format!("the job started as number {i} is {:?}, expected {}", got.get(i), want[i]));
    }
    shut(m)
}
