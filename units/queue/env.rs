pub use std::rc::Rc;
pub type Job = Box<dyn Runnable>;
pub enum GMsg {
    /// stop
    Halt,
    /// run this job
    Prove(Job),
    /// the named worker has finished a job
    Done(usize),
    /// schedule this job; `ans` is what the submitter is told on `reply`
    Sched { job: Job, reply: int, ans: CaptchaResult<()> },
}
pub enum GAns { Other }
pub enum GState { Other }
pub enum GExt {
    /// a channel was created
    New(int),
    /// a message was put into a channel
    Sent { ch: int, msg: GMsg },
    /// a message could not be sent: nobody listens any more
    Lost { ch: int, msg: GMsg },
    /// a message was taken out of a channel
    Came { ch: int, msg: GMsg },
    /// a job was run
    Ran(Job),
    /// waited for the end of the thread that listens on this channel
    Joined(int),
}
pub type oneshot__Receiver<T> = Receiver<T>;
pub type oneshot__Sender<T> = Sender<T>;
pub open spec fn sent(ch: int, msg: GMsg) -> Ev { Ev::Ext(GExt::Sent { ch, msg }) }
pub open spec fn came(ch: int, msg: GMsg) -> Ev { Ev::Ext(GExt::Came { ch, msg }) }
/// nobody has told the listener on `ch` to stop
pub open spec fn untold(ev: Seq<Ev>, ch: int) -> bool { cnt(ev, sent(ch, GMsg::Halt)) == 0 }
pub open spec fn cnt(ev: Seq<Ev>, e: Ev) -> nat
    decreases ev.len(),
{ if ev.len() == 0 { 0 } else { cnt(ev.drop_last(), e) + if ev.last() == e { 1nat } else { 0nat } } }
pub broadcast proof fn cnt_push(ev: Seq<Ev>, x: Ev, e: Ev)
    ensures #[trigger] cnt(ev.push(x), e) == cnt(ev, e) + if x == e { 1nat } else { 0nat },
{ assert(ev.push(x).drop_last() =~= ev); }
/// the channel last read from
pub open spec fn reads(ev: Seq<Ev>) -> int
    decreases ev.len(),
{ if ev.len() == 0 { -1 } else { match ev.last() { Ev::Ext(GExt::Came { ch, .. }) => ch, _ => reads(ev.drop_last()) } } }
pub broadcast proof fn reads_push(ev: Seq<Ev>, x: Ev)
    ensures #[trigger] reads(ev.push(x)) == (match x { Ev::Ext(GExt::Came { ch, .. }) => ch, _ => reads(ev) }),
{ assert(ev.push(x).drop_last() =~= ev); }

/// a job; `client` is a label: who submitted it
pub trait Runnable { spec fn client(&self) -> Seq<char>; }
/// running a job is recorded; what a job does is the job's business (C11)
pub trait RunJob_ { fn run(&self, Tracked(w): Tracked<&mut World>); }
impl RunJob_ for Job {
    #[verifier::external_body]
    fn run(&self, Tracked(w): Tracked<&mut World>) ensures old(w).ev_to(*final(w), old(w).ev.push(Ev::Ext(GExt::Ran(*self)))) { unimplemented!() }
}

// ---- crossbeam's channels.  A listener that was not told to stop is still there (RunnerThread::run and InnerManager::run, C22),
// as long as the manager's own end is (it is held until InnerManager::run returns).
pub trait Chan_: Sized {
    spec fn g_(self) -> GMsg;
    /// what every sender of such a message guarantees (required by `send`)
    spec fn label_(self) -> bool;
    /// whether the listener outlives the sender unless told to stop
    spec fn faithful_() -> bool;
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct crossbeam_channel__Sender<T> { k: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct crossbeam_channel__Receiver<T> { k: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct ChanSendError<T> { _p: core::marker::PhantomData<T> }
#[verifier::external] impl<T> core::fmt::Debug for ChanSendError<T> { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
#[verifier::external_body]
pub struct ChanRecvError { _p: () }
#[verifier::external] impl core::fmt::Debug for ChanRecvError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl<T: Chan_> crossbeam_channel__Sender<T> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn is_empty(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn is_full(&self) -> (ret: bool) ensures !ret { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> usize { unimplemented!() }
    pub fn capacity(&self) -> (ret: Option<usize>) ensures ret is None { None }
    #[verifier::external_body]
    pub fn send(&self, m: T, Tracked(w): Tracked<&mut World>) -> (ret: Result<(), ChanSendError<T>>)
        requires m.label_(),
        ensures
            (T::faithful_() || !old(w).deferred) && untold(old(w).ev, self.id()) ==> ret is Ok,
            ret is Ok ==> old(w).ev_to(*final(w), old(w).ev.push(sent(self.id(), m.g_()))),
            ret is Err ==> *final(w) == (World { ev: old(w).ev.push(Ev::Ext(GExt::Lost { ch: self.id(), msg: m.g_() })), fault: true, ..*old(w) }),
    { unimplemented!() }
}
impl<T> Clone for crossbeam_channel__Sender<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Chan_> crossbeam_channel__Receiver<T> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn is_empty(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn is_full(&self) -> (ret: bool) ensures !ret { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> usize { unimplemented!() }
    pub fn capacity(&self) -> (ret: Option<usize>) ensures ret is None { None }
    #[verifier::external_body]
    pub fn recv(&self, Tracked(w): Tracked<&mut World>) -> (ret: Result<T, ChanRecvError>)
        ensures match ret {
            Ok(m) => m.label_() && old(w).ev_to(*final(w), old(w).ev.push(came(self.id(), m.g_()))),
            Err(_) => *final(w) == (World { fault: true, ..*old(w) }),
        },
    { unimplemented!() }
}
impl<T: Chan_> crossbeam_channel__Receiver<T> {
    /// gives up when nothing comes
    #[verifier::external_body]
    pub fn recv_timeout(&self, d: Duration, Tracked(w): Tracked<&mut World>) -> (ret: Result<T, ChanRecvError>)
        ensures match ret {
            Ok(m) => m.label_() && old(w).ev_to(*final(w), old(w).ev.push(came(self.id(), m.g_()))),
            Err(_) => *final(w) == *old(w) || *final(w) == (World { fault: true, ..*old(w) }),
        },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn crossbeam_channel__unbounded<T: Chan_>(Tracked(w): Tracked<&mut World>) -> (ret: (crossbeam_channel__Sender<T>, crossbeam_channel__Receiver<T>))
    ensures ret.0.id() == ret.1.id(), old(w).ev_to(*final(w), old(w).ev.push(Ev::Ext(GExt::New(ret.0.id())))),
        untold(old(w).ev, ret.0.id()), cnt(old(w).ev, Ev::Ext(GExt::New(ret.0.id()))) == 0,
{ unimplemented!() }

// ---- threads
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct JoinHandle<T> { k: core::marker::PhantomData<T> }
impl<T> JoinHandle<T> {
    #[verifier::external_body]
    pub fn is_finished(&self) -> bool { unimplemented!() }
    /// the channel the thread listens on
    pub uninterp spec fn waits(&self) -> int;
    /// waiting for a thread that nobody told to stop never ends; threads do not panic (proved here of their code, assumed of the jobs)
    #[verifier::external_body]
    pub fn join(self, Tracked(w): Tracked<&mut World>) -> (ret: Result<T, SendError_>)
        requires !untold(old(w).ev, self.waits()),
        ensures ret is Ok, old(w).ev_to(*final(w), old(w).ev.push(Ev::Ext(GExt::Joined(self.waits())))),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn thread__spawn(f: Fut, Tracked(w): Tracked<&mut World>) -> (ret: JoinHandle<()>)
    ensures ret.waits() == reads(f.ev@), final(w).tasks[old(w).tasks.len() as int] == f.as_task(false), *final(w) == (World { tasks: old(w).tasks.push(f.as_task(false)), ..*old(w) }),
{ unimplemented!() }
