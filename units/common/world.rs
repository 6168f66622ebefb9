// ---- ghost history of what a handler or task does to the outside.  `GMsg`/`GAns` are the unit's message and answer kinds.
pub enum Ev {
    /// waited this long (nanoseconds)
    Sleep(int),
    /// sent to an actor; `ans` is what it answered, `None` if it did not
    Send { to: int, msg: GMsg, ans: Option<GAns> },
    /// something specific to the unit
    Ext(GExt),
}
/// one deferred task: what it will do, which requests it answers, and whether the actor is blocked meanwhile
pub struct Task { pub ev: Seq<Ev>, pub replied: Seq<int>, pub blocks: bool }

impl Task {
    pub open spec fn replies(self, id: int) -> bool { self.replied.len() > 0 && self.replied.last() == id || self.replied.contains(id) }
}

/// a no-op (see vx, lowering of matches with guards)
pub fn touch_(Tracked(w): Tracked<&mut World>) ensures *final(w) == *old(w) { }

/// the answer to a message nobody waited for
pub uninterp spec fn unseen_() -> Option<GAns>;

pub tracked struct World {
    pub ghost ev: Seq<Ev>,
    pub ghost tasks: Seq<Task>,
    /// ids of the requests answered
    pub ghost replied: Seq<int>,
    /// actors started: (address, state)
    pub ghost started: Seq<(int, GState)>,
    pub ghost stops: int,
    /// running as a deferred task: requesters may be gone
    pub ghost deferred: bool,
    /// an actor was unreachable, a channel was closed, or something else outside failed
    pub ghost fault: bool,
}
impl World {
    pub axiom fn task() -> (tracked r: World)
        ensures r.ev == Seq::<Ev>::empty(), r.tasks == Seq::<Task>::empty(), r.replied == Seq::<int>::empty(), r.started == Seq::<(int, GState)>::empty(), r.stops == 0, r.deferred, !r.fault;
    /// nothing happened except what the listed fields say
    pub open spec fn ev_to(self, o: World, ev: Seq<Ev>) -> bool { o == World { ev: ev, ..self } }
    pub open spec fn quiet(self, o: World) -> bool { self.ev == o.ev && self.tasks == o.tasks && self.started == o.started && self.stops == o.stops }
    /// the request `id` is answered, now or by a task started here
    pub open spec fn answers(self, o: World, id: int) -> bool {
        ||| o.replied == self.replied.push(id)
        ||| self.tasks.len() < o.tasks.len() && o.tasks.last().replies(id)
        ||| self.tasks.len() < o.tasks.len() && exists|i: int| self.tasks.len() <= i < o.tasks.len() && (#[trigger] o.tasks[i]).replies(id)
    }
}

#[verifier::external_body]
pub struct SendError_ { _p: () }
#[verifier::external] impl core::fmt::Debug for SendError_ { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }

/// a future that has not been started
pub struct Fut { pub ev: Ghost<Seq<Ev>>, pub replied: Ghost<Seq<int>> }
impl Fut {
    pub fn into_actor<A>(self, a: &A) -> (ret: Fut) ensures ret == self { self }
    pub open spec fn as_task(self, blocks: bool) -> Task { Task { ev: self.ev@, replied: self.replied@, blocks } }
}

// ---- tokio's oneshot channel; a sender can send only once, so the value is a property of the channel
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Sender<T> { k: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Receiver<T> { k: core::marker::PhantomData<T> }
#[verifier::external_body]
pub struct RecvError { _p: () }
#[verifier::external] impl core::fmt::Debug for RecvError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl<T> Sender<T> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn val(&self) -> T;
    #[verifier::external_body]
    pub fn send(self, v: T, Tracked(w): Tracked<&mut World>) -> (ret: Result<(), T>)
        ensures
            // the requester's end is still in our hands until the handler returns
            !old(w).deferred ==> ret is Ok,
            v == self.val(),
            *final(w) == (World { replied: old(w).replied.push(self.id()), ..*old(w) }),
    { unimplemented!() }
}
impl<T> Receiver<T> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn val(&self) -> T;
    #[verifier::external_body]
    pub fn awaited(self, Tracked(w): Tracked<&mut World>) -> (ret: Result<T, RecvError>)
        ensures *final(w) == (World { fault: old(w).fault || ret is Err, ..*old(w) }), ret matches Ok(v) ==> v == self.val(),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn oneshot__channel<T>() -> (ret: (Sender<T>, Receiver<T>)) ensures ret.0.id() == ret.1.id(), ret.0.val() == ret.1.val() { unimplemented!() }

pub trait Awaited_: Sized {
    fn awaited(self, Tracked(w): Tracked<&mut World>) -> (ret: Self);
}
impl<T, E> Awaited_ for Result<T, E> { fn awaited(self, Tracked(w): Tracked<&mut World>) -> (ret: Self) ensures ret == self, *final(w) == *old(w) { self } }
impl Awaited_ for () { fn awaited(self, Tracked(w): Tracked<&mut World>) -> (ret: Self) ensures *final(w) == *old(w) { self } }
impl Awaited_ for bool { fn awaited(self, Tracked(w): Tracked<&mut World>) -> (ret: Self) ensures ret == self, *final(w) == *old(w) { self } }

// ---- time
#[derive(Clone, Copy)]
pub struct Duration { n: u128 }
impl Duration {
    pub closed spec fn ns(&self) -> int { self.n as int }
    /// whole seconds fit in 64 bits
    #[verifier::type_invariant]
    spec fn in_range_(&self) -> bool { self.n < 0x1_0000_0000_0000_0000 * 1_000_000_000 }
    pub fn new(secs: u64, nanos: u32) -> (ret: Self) requires nanos < 1_000_000_000, ensures ret.ns() == secs * 1_000_000_000 + nanos {
        Duration { n: secs as u128 * 1_000_000_000 + nanos as u128 }
    }
    pub fn as_nanos(&self) -> (ret: u128) ensures ret == self.ns() { self.n }
    pub fn as_micros(&self) -> (ret: u128) ensures ret == self.ns() / 1_000 { self.n / 1_000 }
    pub fn as_millis(&self) -> (ret: u128) ensures ret == self.ns() / 1_000_000 { self.n / 1_000_000 }
    pub fn as_secs(&self) -> (ret: u64) ensures ret == self.ns() / 1_000_000_000 { proof { use_type_invariant(self); } (self.n / 1_000_000_000) as u64 }
    pub fn subsec_nanos(&self) -> (ret: u32) ensures ret == self.ns() % 1_000_000_000 { (self.n % 1_000_000_000) as u32 }
    pub fn from_secs(secs: u64) -> (ret: Self) ensures ret.ns() == secs * 1_000_000_000 { Duration { n: secs as u128 * 1_000_000_000 } }
    pub fn from_millis(m: u64) -> (ret: Self) ensures ret.ns() == m * 1_000_000 { Duration { n: m as u128 * 1_000_000 } }
    pub fn from_micros(m: u64) -> (ret: Self) ensures ret.ns() == m * 1_000 { Duration { n: m as u128 * 1_000 } }
    pub fn from_nanos(m: u64) -> (ret: Self) ensures ret.ns() == m { Duration { n: m as u128 } }
}
impl Duration {
    #[verifier::external_body]
    pub exec const ZERO: Duration ensures Duration::ZERO.ns() == 0 { Duration { n: 0 } }
    pub fn is_zero(&self) -> (ret: bool) ensures ret == (self.ns() == 0) { self.n == 0 }
    pub fn saturating_sub_(self, o: Duration) -> (ret: Duration) ensures ret.ns() == if self.ns() > o.ns() { self.ns() - o.ns() } else { 0 } { proof { use_type_invariant(&self); } Duration { n: if self.n > o.n { (self.n - o.n) as u128 } else { 0 } } }
    pub fn checked_sub(self, o: Duration) -> (ret: Option<Duration>) ensures match ret { None => self.ns() < o.ns(), Some(d) => d.ns() == self.ns() - o.ns() } { proof { use_type_invariant(&self); } if self.n < o.n { None } else { Some(Duration { n: (self.n - o.n) as u128 }) } }
    #[verifier::external_body] pub fn mul_f64(self, x: f64) -> Duration { unimplemented!() }
    #[verifier::external_body] pub fn mul_f32(self, x: f32) -> Duration { unimplemented!() }
    #[verifier::external_body] pub fn as_secs_f64(&self) -> f64 { unimplemented!() }
    #[verifier::external_body] pub fn as_secs_f32(&self) -> f32 { unimplemented!() }
    pub fn min_(self, o: Duration) -> (ret: Duration) ensures ret.ns() == if self.ns() < o.ns() { self.ns() } else { o.ns() } { if self.n < o.n { self } else { o } }
    pub fn max_(self, o: Duration) -> (ret: Duration) ensures ret.ns() == if self.ns() < o.ns() { o.ns() } else { self.ns() } { if self.n < o.n { o } else { self } }
}
impl Default_ for Duration { open spec fn is_default_(&self) -> bool { self.ns() == 0 } fn default_() -> (ret: Self) { Duration { n: 0 } } }
/// points in time: nothing is known of them
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Instant { _p: () }
impl Instant {
    #[verifier::external_body] pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> Duration { unimplemented!() }
    #[verifier::external_body] pub fn duration_since(&self, t: Instant) -> Duration { unimplemented!() }
}
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct SystemTime { _p: () }
#[verifier::external_body]
pub struct SystemTimeError { _p: () }
#[verifier::external] impl core::fmt::Debug for SystemTimeError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
#[verifier::external_body]
pub const UNIX_EPOCH: SystemTime = SystemTime { _p: () };
impl SystemTime {
    #[verifier::external_body]
    pub const UNIX_EPOCH: SystemTime = SystemTime { _p: () };
    #[verifier::external_body] pub fn now() -> SystemTime { unimplemented!() }
    #[verifier::external_body] pub fn duration_since(&self, t: SystemTime) -> Result<Duration, SystemTimeError> { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> Result<Duration, SystemTimeError> { unimplemented!() }
}
pub struct SleepFut { pub d: Duration }
pub fn clock__sleep(d: Duration) -> (ret: SleepFut) ensures ret.d == d { SleepFut { d } }
pub fn time__sleep(d: Duration) -> (ret: SleepFut) ensures ret.d == d { SleepFut { d } }
impl SleepFut {
    #[verifier::external_body]
    pub fn awaited(self, Tracked(w): Tracked<&mut World>)
        ensures old(w).ev_to(*final(w), old(w).ev.push(Ev::Sleep(self.d.ns()))),
    { unimplemented!() }
}
/// tokio::time::timeout over a pause: whichever is due first
pub struct TimeoutFut_ { pub limit: Duration, pub f: SleepFut }
#[verifier::external_body]
pub struct Elapsed { _p: () }
#[verifier::external] impl core::fmt::Debug for Elapsed { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub fn time__timeout(limit: Duration, f: SleepFut) -> (ret: TimeoutFut_) ensures ret.limit == limit, ret.f == f { TimeoutFut_ { limit, f } }
pub fn clock__timeout(limit: Duration, f: SleepFut) -> (ret: TimeoutFut_) ensures ret.limit == limit, ret.f == f { TimeoutFut_ { limit, f } }
impl TimeoutFut_ {
    #[verifier::external_body]
    pub fn awaited(self, Tracked(w): Tracked<&mut World>) -> (ret: Result<(), Elapsed>)
        ensures
            ret is Ok ==> self.f.d.ns() <= self.limit.ns() && old(w).ev_to(*final(w), old(w).ev.push(Ev::Sleep(self.f.d.ns()))),
            ret is Err ==> self.limit.ns() <= self.f.d.ns() && old(w).ev_to(*final(w), old(w).ev.push(Ev::Sleep(self.limit.ns()))),
    { unimplemented!() }
}
/// seconds, as the code counts durations
pub open spec fn secs(s: u64) -> int { s * 1_000_000_000 }
pub open spec fn is_send(e: Ev, to: int, msg: GMsg) -> bool { e is Send && e->to == to && e->msg == msg }
/// exactly one task was started; after `s` seconds it sends `msg` to `to`, and does nothing else
pub open spec fn one_later(o: World, n: World, s: u64, to: int, msg: GMsg) -> bool {
    &&& n.tasks.len() == o.tasks.len() + 1
    &&& n.tasks.drop_last() =~= o.tasks
    &&& !n.tasks.last().blocks
    &&& n.tasks.last().ev.len() == 2
    &&& n.tasks.last().ev[0] == Ev::Sleep(secs(s))
    &&& is_send(n.tasks.last().ev[1], to, msg)
    &&& n.ev == o.ev && n.started == o.started && n.stops == o.stops
}

