impl Chan_ for Message {
    open spec fn g_(self) -> GMsg { match self { Message::Stop => GMsg::Halt, Message::Prove(j) => GMsg::Prove(j) } }
    open spec fn label_(self) -> bool { true }
    open spec fn faithful_() -> bool { true }
}
impl Chan_ for InnerManagerMessage {
    open spec fn g_(self) -> GMsg {
        match self {
            InnerManagerMessage::Stop => GMsg::Halt,
            InnerManagerMessage::Dispatch(n) => GMsg::Done(n),
            InnerManagerMessage::Schedule(s) => GMsg::Sched { job: s.@ScheduleWork.job@, reply: s.@ScheduleWork.tx@.id(), ans: s.@ScheduleWork.tx@.val() },
        }
    }
    open spec fn label_(self) -> bool { self matches InnerManagerMessage::Schedule(s) ==> s.@ScheduleWork.job@.client() == s.@ScheduleWork.ip@@ }
    open spec fn faithful_() -> bool { false }
}

// ---- the queue as its users see it, computed from what has happened: submissions and completions that came in, jobs handed out
pub struct Q {
    /// waiting jobs of each client
    pub q: Map<Seq<char>, Seq<Job>>,
    /// clients with waiting jobs, the one to be served next first
    pub turns: Seq<Seq<char>>,
    /// channels of the workers with unfinished work
    pub busy: vstd::set::Set<int>,
    /// every job handed out was the first waiting one of its client (C12)
    pub order: bool,
    /// ... of the client whose turn it was, and went to an idle worker (C13)
    pub fair: bool,
    /// submissions were refused exactly when the queue was full (C14)
    pub limit: bool,
}
pub open spec fn q0() -> Q { Q { q: Map::empty(), turns: Seq::empty(), busy: vstd::set::Set::empty(), order: true, fair: true, limit: true } }
pub open spec fn step(s: Q, e: Ev, rs: Map<usize, int>, limit: int) -> Q {
    match e {
        Ev::Ext(GExt::Came { ch, msg: GMsg::Sched { job, reply, ans } }) => {
            let c = job.client();
            let l = s.limit && (ans is Ok <==> s.turns.len() < limit) && (ans matches Err(e) ==> e is QueueFull);
            if ans is Err { Q { limit: l, ..s } }
            else if s.q.dom().contains(c) { Q { q: s.q.insert(c, s.q[c].push(job)), limit: l, ..s } }
            else { Q { q: s.q.insert(c, seq![job]), turns: s.turns.push(c), limit: l, ..s } }
        },
        Ev::Ext(GExt::Came { ch, msg: GMsg::Done(n) }) => if rs.dom().contains(n) { Q { busy: s.busy.remove(rs[n]), ..s } } else { s },
        Ev::Ext(GExt::Sent { ch, msg: GMsg::Prove(job) }) => {
            let c = job.client();
            let first = s.q.dom().contains(c) && s.q[c].len() > 0 && s.q[c][0] == job;
            let turn = s.turns.len() > 0 && s.turns[0] == c;
            let t = if turn { s.turns.drop_first() } else { s.turns };
            let o = s.order && first;
            let f = s.fair && turn && !s.busy.contains(ch);
            if !first { Q { order: o, fair: f, busy: s.busy.insert(ch), ..s } }
            else if s.q[c].len() == 1 { Q { q: s.q.remove(c), turns: t, busy: s.busy.insert(ch), order: o, fair: f, limit: s.limit } }
            else { Q { q: s.q.insert(c, s.q[c].drop_first()), turns: t.push(c), busy: s.busy.insert(ch), order: o, fair: f, limit: s.limit } }
        },
        _ => s,
    }
}
pub open spec fn fold(ev: Seq<Ev>, rs: Map<usize, int>, limit: int) -> Q
    decreases ev.len(),
{ if ev.len() == 0 { q0() } else { step(fold(ev.drop_last(), rs, limit), ev.last(), rs, limit) } }
pub broadcast proof fn fold_push(ev: Seq<Ev>, e: Ev, rs: Map<usize, int>, limit: int)
    ensures #[trigger] fold(ev.push(e), rs, limit) == step(fold(ev, rs, limit), e, rs, limit),
{ assert(ev.push(e).drop_last() =~= ev); }

// ---- a worker, computed from what it has done
pub struct W {
    /// jobs received, jobs run, completions reported
    pub got: Seq<Job>,
    pub ran: Seq<Job>,
    pub reported: int,
    pub stopped: bool,
    /// nothing else happened, and nothing out of order
    pub ok: bool,
}
pub open spec fn wstep(s: W, e: Ev, name: usize, rx: int, tx: int) -> W {
    match e {
        Ev::Ext(GExt::Came { ch, msg: GMsg::Prove(j) }) => W { got: s.got.push(j), ok: s.ok && ch == rx && !s.stopped, ..s },
        Ev::Ext(GExt::Came { ch, msg: GMsg::Halt }) => W { stopped: true, ok: s.ok && ch == rx && !s.stopped, ..s },
        Ev::Ext(GExt::Ran(j)) => W { ran: s.ran.push(j), ok: s.ok && !s.stopped && s.ran.len() < s.got.len() && s.got[s.ran.len() as int] == j, ..s },
        Ev::Ext(GExt::Sent { ch, msg: GMsg::Done(n) }) => W { reported: s.reported + 1, ok: s.ok && !s.stopped && ch == tx && n == name && s.reported < s.ran.len(), ..s },
        Ev::Ext(GExt::Lost { ch, msg: GMsg::Done(n) }) => W { reported: s.reported + 1, stopped: true, ok: s.ok && !s.stopped && ch == tx && n == name && s.reported < s.ran.len(), ..s },
        _ => W { ok: false, ..s },
    }
}
pub open spec fn wfold(ev: Seq<Ev>, name: usize, rx: int, tx: int) -> W
    decreases ev.len(),
{ if ev.len() == 0 { W { got: Seq::empty(), ran: Seq::empty(), reported: 0, stopped: false, ok: true } } else { wstep(wfold(ev.drop_last(), name, rx, tx), ev.last(), name, rx, tx) } }
pub broadcast proof fn wfold_push(ev: Seq<Ev>, e: Ev, name: usize, rx: int, tx: int)
    ensures #[trigger] wfold(ev.push(e), name, rx, tx) == wstep(wfold(ev, name, rx, tx), e, name, rx, tx),
{ assert(ev.push(e).drop_last() =~= ev); }
/// everything received was run and reported
pub open spec fn even(s: W) -> bool { s.ok && s.got =~= s.ran && s.reported == s.ran.len() }
/// the complete life of a worker
pub open spec fn worked(ev: Seq<Ev>, name: usize, rx: int, tx: int) -> bool { even(wfold(ev, name, rx, tx)) && wfold(ev, name, rx, tx).stopped }

// ---- every accepted job is waiting or was handed out, exactly once and in order (C12): what `order` means over a whole history
pub open spec fn accepted(ev: Seq<Ev>, c: Seq<char>) -> Seq<Job>
    decreases ev.len(),
{
    if ev.len() == 0 { Seq::empty() } else {
        match ev.last() {
            Ev::Ext(GExt::Came { ch, msg: GMsg::Sched { job, reply, ans } }) => if ans is Ok && job.client() == c { accepted(ev.drop_last(), c).push(job) } else { accepted(ev.drop_last(), c) },
            _ => accepted(ev.drop_last(), c),
        }
    }
}
pub open spec fn handed_out(ev: Seq<Ev>, c: Seq<char>) -> Seq<Job>
    decreases ev.len(),
{
    if ev.len() == 0 { Seq::empty() } else {
        match ev.last() {
            Ev::Ext(GExt::Sent { ch, msg: GMsg::Prove(job) }) => if job.client() == c { handed_out(ev.drop_last(), c).push(job) } else { handed_out(ev.drop_last(), c) },
            _ => handed_out(ev.drop_last(), c),
        }
    }
}
pub open spec fn waiting_of(s: Q, c: Seq<char>) -> Seq<Job> { if s.q.dom().contains(c) { s.q[c] } else { Seq::empty() } }
pub open spec fn kept(ev: Seq<Ev>, rs: Map<usize, int>, limit: int) -> bool {
    forall|c: Seq<char>| #[trigger] accepted(ev, c) =~= handed_out(ev, c) + waiting_of(fold(ev, rs, limit), c)
}
pub broadcast proof fn kept_all(ev: Seq<Ev>, rs: Map<usize, int>, limit: int)
    requires #[trigger] fold(ev, rs, limit).order,
    ensures kept(ev, rs, limit),
    decreases ev.len(),
{
    if ev.len() > 0 {
        kept_all(ev.drop_last(), rs, limit);
        assert forall|c: Seq<char>| #[trigger] accepted(ev, c) =~= handed_out(ev, c) + waiting_of(fold(ev, rs, limit), c) by {
            let s = fold(ev.drop_last(), rs, limit);
            assert(accepted(ev.drop_last(), c) =~= handed_out(ev.drop_last(), c) + waiting_of(s, c));
        }
    }
}
/// the complete life of a work queue with that many workers
pub open spec fn served(ev: Seq<Ev>, rs: Map<usize, int>, limit: int, workers: int, rx: int) -> bool {
    rs.dom().len() == workers && ev.len() > 0 && ev.last() == came(rx, GMsg::Halt)
}

impl RunnerThread {
    #[verifier::inline] pub open spec fn ch(self) -> int { self.@RunnerThread.tx@.id() }
    #[verifier::inline] pub open spec fn th(self) -> Option<JoinHandle<()>> { self.@RunnerThread.thread@ }
    pub open spec fn wf(self) -> bool { self.th() matches Some(t) ==> t.waits() == self.ch() }
}
impl InnerManager {
    #[verifier::inline] pub open spec fn qs(self) -> Map<Seq<char>, VecDeque<Job>> { self.@InnerManager.queues@@ }
    #[verifier::inline] pub open spec fn rs(self) -> Map<usize, RunnerThread> { self.@InnerManager.runners@@ }
    #[verifier::inline] pub open spec fn busy(self) -> vstd::set::Set<usize> { self.@InnerManager.busy@@ }
    #[verifier::inline] pub open spec fn ips(self) -> Seq<Rc<String>> { self.@InnerManager.ips@@ }
    #[verifier::inline] pub open spec fn limit(self) -> int { self.@InnerManager.queue_length@ as int }
    /// worker name -> channel
    pub open spec fn chs(self) -> Map<usize, int> { self.rs().map_values(|r: RunnerThread| r.ch()) }
    #[verifier::inline] pub open spec fn waiting(self, c: Seq<char>) -> bool { self.qs().dom().contains(c) }
    /// one entry per client with waiting jobs, and no other (as many entries as clients, all different)
    pub open spec fn wf_q(self) -> bool {
        &&& forall|c: Seq<char>| #[trigger] self.waiting(c) ==> self.qs()[c]@.len() > 0
        &&& forall|i: int| 0 <= i < self.ips().len() ==> self.waiting((#[trigger] self.ips()[i])@)
        &&& forall|i: int, j: int| 0 <= i < j < self.ips().len() ==> (#[trigger] self.ips()[i])@ != (#[trigger] self.ips()[j])@
        &&& forall|c: Seq<char>, i: int| self.waiting(c) && 0 <= i < self.qs()[c]@.len() ==> (#[trigger] self.qs()[c]@[i]).client() == c
        &&& self.qs().dom().len() == self.ips().len()
    }
    pub open spec fn wf_r(self) -> bool {
        &&& forall|n: usize| #[trigger] self.rs().dom().contains(n) <==> n < self.rs().dom().len()
        &&& forall|n: usize| #[trigger] self.rs().dom().contains(n) ==> self.rs()[n].wf()
        &&& forall|n: usize, m: usize| #[trigger] self.rs().dom().contains(n) && #[trigger] self.rs().dom().contains(m) && n != m ==> self.rs()[n].ch() != self.rs()[m].ch()
        &&& forall|n: usize| self.busy().contains(n) ==> #[trigger] self.rs().dom().contains(n)
    }
    pub open spec fn wf(self, ev: Seq<Ev>) -> bool {
        &&& self.wf_q() && self.wf_r() && self.ips().len() <= self.limit()
        &&& forall|n: usize| #[trigger] self.rs().dom().contains(n) ==> untold(ev, self.rs()[n].ch())
    }
    pub open spec fn all_busy(self) -> bool { forall|n: usize| #[trigger] self.rs().dom().contains(n) ==> self.busy().contains(n) }
    /// idle workers never sit beside waiting work
    pub open spec fn settled(self) -> bool { self.all_busy() || self.ips().len() == 0 }
    pub open spec fn same_rest(self, o: Self) -> bool { self.rs() == o.rs() && self.limit() == o.limit() }
    pub open spec fn same(self, o: Self) -> bool { self.same_rest(o) && self.qs() =~= o.qs() && self.ips() =~= o.ips() && self.busy() =~= o.busy() }
    pub open spec fn same_q(self, o: Self) -> bool { self.same_rest(o) && self.qs() =~= o.qs() && self.ips() =~= o.ips() }
    /// the client whose turn it is
    pub open spec fn next(self) -> Seq<char> { self.ips()[0]@ }
    pub open spec fn job(self) -> Job { self.qs()[self.next()]@[0] }
    /// `n` is `self` after the next job was taken by worker `name`
    pub open spec fn taken(self, n: Self, name: usize) -> bool {
        let c = self.next();
        &&& self.same_rest(n)
        &&& n.busy() =~= self.busy().insert(name)
        &&& if self.qs()[c]@.len() == 1 { n.qs() =~= self.qs().remove(c) && n.ips() =~= self.ips().drop_first() }
            else { n.qs().dom() =~= self.qs().dom() && (forall|k: Seq<char>| k != c && self.waiting(k) ==> #[trigger] n.qs()[k] == self.qs()[k]) && n.qs()[c]@ == self.qs()[c]@.drop_first()
                && n.ips() =~= self.ips().drop_first().push(self.ips()[0]) }
    }
    pub open spec fn handed(self, n: Self, o: World, w: World, name: usize) -> bool {
        self.taken(n, name) && o.ev_to(w, o.ev.push(sent(self.rs()[name].ch(), GMsg::Prove(self.job()))))
    }
    /// `n` is `self` with the job waiting
    pub open spec fn joined(self, n: Self, ip: Seq<char>, job: Job) -> bool {
        &&& self.same_rest(n) && n.busy() =~= self.busy()
        &&& n.qs().dom() =~= self.qs().dom().insert(ip)
        &&& forall|k: Seq<char>| k != ip && self.waiting(k) ==> #[trigger] n.qs()[k] == self.qs()[k]
        &&& if self.waiting(ip) { n.qs()[ip]@ =~= self.qs()[ip]@.push(job) && n.ips() =~= self.ips() }
            else { n.qs()[ip]@ =~= seq![job] && n.ips().len() == self.ips().len() + 1 && (forall|i: int| 0 <= i < self.ips().len() ==> #[trigger] n.ips()[i] == self.ips()[i]) && n.ips().last()@ == ip }
    }
    /// the job went to an idle worker at once
    pub open spec fn passed(self, n: Self, o: World, w: World, job: Job, name: usize) -> bool {
        self.rs().dom().contains(name) && !self.busy().contains(name) && self.same_q_after(n) && n.busy() =~= self.busy().insert(name)
        && o.ev_to(w, o.ev.push(sent(self.rs()[name].ch(), GMsg::Prove(job))))
    }
    pub open spec fn same_q_after(self, n: Self) -> bool { self.same_rest(n) && n.ips().len() == 0 && n.qs().dom() =~= self.qs().dom() }
    /// the state is what the history says
    pub open spec fn link(self, ev: Seq<Ev>) -> bool {
        let s = fold(ev, self.chs(), self.limit());
        &&& s.q.dom() =~= self.qs().dom()
        &&& forall|c: Seq<char>| #[trigger] self.waiting(c) ==> self.qs()[c]@ =~= s.q[c]
    }
    pub open spec fn link_turns(self, ev: Seq<Ev>) -> bool {
        let s = fold(ev, self.chs(), self.limit());
        s.turns.len() == self.ips().len() && forall|i: int| 0 <= i < self.ips().len() ==> (#[trigger] self.ips()[i])@ == s.turns[i]
    }
    pub open spec fn link_busy(self, ev: Seq<Ev>) -> bool {
        let s = fold(ev, self.chs(), self.limit());
        forall|n: usize| #[trigger] self.rs().dom().contains(n) ==> (self.busy().contains(n) <==> s.busy.contains(self.rs()[n].ch()))
    }
}
impl Manager {
    #[verifier::inline] pub open spec fn ch(self) -> int { self.@Manager.manager_tx@.id() }
    #[verifier::inline] pub open spec fn th(self) -> Option<JoinHandle<()>> { self.@Manager.dispatch_runner@ }
    pub open spec fn wf(self) -> bool { self.th() matches Some(t) && t.waits() == self.ch() }
}
/// the workers `0..k` have been started, on channels of their own
pub open spec fn spawned(rs: HashMap<usize, RunnerThread>, k: int, ev: Seq<Ev>) -> bool {
    &&& rs@.dom().len() == k
    &&& forall|n: usize| #[trigger] rs@.dom().contains(n) <==> n < k
    &&& forall|n: usize| #[trigger] rs@.dom().contains(n) ==> rs@[n].wf() && untold(ev, rs@[n].ch()) && cnt(ev, Ev::Ext(GExt::New(rs@[n].ch()))) > 0
    &&& forall|n: usize, m: usize| #[trigger] rs@.dom().contains(n) && #[trigger] rs@.dom().contains(m) && n != m ==> rs@[n].ch() != rs@[m].ch()
}
/// ... each in a thread that works for it
pub open spec fn at_work(rs: HashMap<usize, RunnerThread>, from: int, tasks: Seq<Task>, tx: int) -> bool {
    forall|n: usize| #[trigger] rs@.dom().contains(n) ==> rs@[n].th() is Some && worked(tasks[from + n].ev, n, rs@[n].ch(), tx)
}
/// the first `k` of these workers have been told to stop, once, and the others have not
pub open spec fn told(ks: Seq<usize>, m: Map<usize, RunnerThread>, k: int, ev: Seq<Ev>) -> bool {
    forall|i: int| 0 <= i < ks.len() ==> cnt(ev, sent(m[#[trigger] ks[i]].ch(), GMsg::Halt)) == if i < k { 1nat } else { 0nat }
}
/// the first `k` of these workers have been waited for
pub open spec fn joined_(ks: Seq<usize>, m: Map<usize, RunnerThread>, k: int, ev: Seq<Ev>) -> bool {
    forall|i: int| 0 <= i < ks.len() && i < k && m[ks[i]].th() is Some ==> cnt(ev, Ev::Ext(GExt::Joined(m[#[trigger] ks[i]].ch()))) > 0
}
