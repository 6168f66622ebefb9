pub use std::sync::Arc;
pub enum GMsg {
    Visit(Seq<char>),
    Cache { string: Seq<char>, difficulty: u32, duration: u64, key: Seq<char> },
    Retrieve(Seq<char>),
    Store { token: Seq<char>, key: Seq<char>, duration: u64 },
    Verify { token: Seq<char>, key: Seq<char> },
    Other,
}
pub enum GAns {
    Visit(Receiver<CaptchaResult<Option<AddVisitorResult>>>),
    Cached(Receiver<CaptchaResult<Option<CachedPoWConfig>>>),
    Done(Receiver<CaptchaResult<()>>),
    Valid(Receiver<CaptchaResult<bool>>),
    Other,
}
pub enum GState { Other }
pub enum GExt {
    /// a verdict was sent on a channel
    Verdict { ch: int, ok: bool },
    /// a verdict was received from a channel
    Got { ch: int },
    /// a job reporting on `ch` was accepted by the work queue
    Submit { ip: Seq<char>, ch: int },
}
pub type oneshot__Receiver<T> = Receiver<T>;
pub trait Save: Sized { }
pub trait Master: Sized { }

// ---- mcaptcha_pow_sha256: the proof check itself is that crate's
pub struct Config { pub salt: String }
#[verifier::accept_recursive_types(T)]
pub struct PoW<T> { pub nonce: u64, pub result: String, pub p: core::marker::PhantomData<T> }
pub uninterp spec fn sufficient_(c: Config, nonce: u64, result: Seq<char>, difficulty: u32) -> bool;
pub uninterp spec fn valid_(c: Config, nonce: u64, result: Seq<char>, phrase: Seq<char>) -> bool;
pub open spec fn passes_(c: Config, nonce: u64, result: Seq<char>, difficulty: u32, phrase: Seq<char>) -> bool {
    sufficient_(c, nonce, result, difficulty) && valid_(c, nonce, result, phrase)
}
impl Config {
    #[verifier::external_body]
    pub fn is_sufficient_difficulty<T>(&self, pow: &PoW<T>, d: u32) -> (ret: bool) ensures ret == sufficient_(*self, pow.nonce, pow.result@, d) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_valid_proof<T: View<V = Seq<char>>>(&self, pow: &PoW<T>, t: &T) -> (ret: bool) ensures ret == valid_(*self, pow.nonce, pow.result@, t@) { unimplemented!() }
}
impl Clone for Config { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Clone for PoW<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct PoWBuilder<T> { pub n: Option<u64>, pub r: Option<String>, pub p: core::marker::PhantomData<T> }
pub struct PoWBuilderError;
impl<T> PoWBuilder<T> {
    pub fn default() -> (ret: Self) ensures ret.n is None, ret.r is None { PoWBuilder { n: None, r: None, p: core::marker::PhantomData } }
    pub fn nonce(&mut self, v: u64) -> (ret: &mut Self) ensures ret.n == Some(v), ret.r == old(self).r, *final(self) == *final(ret) { self.n = Some(v); self }
    pub fn result(&mut self, v: String) -> (ret: &mut Self) ensures ret.r == Some(v), ret.n == old(self).n, *final(self) == *final(ret) { self.r = Some(v); self }
    #[verifier::external_body]
    pub fn build(&self) -> (ret: Result<PoW<T>, PoWBuilderError>)
        ensures (ret is Ok) == (self.n is Some && self.r is Some), ret matches Ok(p) ==> Some(p.nonce) == self.n && Some(p.result) == self.r,
    { unimplemented!() }
}
#[verifier::external] impl core::fmt::Debug for PoWBuilderError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }

// ---- rand: which generators are seeded by the operating system
pub struct Alphanumeric;
pub open spec fn alnum_(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' }
/// `s` is the complete sequence of what one generator, seeded by the operating system, has produced
pub uninterp spec fn is_drawn_(s: Seq<char>) -> bool;
#[verifier::external_body]
pub struct ThreadRng { _p: () }
pub type StdRng = ThreadRng;
pub type SmallRng = ThreadRng;
impl ThreadRng {
    pub uninterp spec fn draws(&self) -> Seq<char>;
    /// seeded by the operating system
    pub uninterp spec fn os(&self) -> bool;
    #[verifier::external_body]
    pub fn sample(&mut self, d: Alphanumeric) -> (ret: u8)
        ensures ret < 128, alnum_(ret as char), final(self).draws() == old(self).draws().push(ret as char), final(self).os() == old(self).os(), old(self).os() ==> is_drawn_(final(self).draws()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_os_rng() -> (ret: ThreadRng) ensures ret.draws() == Seq::<char>::empty(), ret.os(), is_drawn_(ret.draws()) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_rng(r: &mut ThreadRng) -> (ret: ThreadRng) ensures ret.draws() == Seq::<char>::empty(), ret.os() == old(r).os(), old(r).os() ==> is_drawn_(ret.draws()) { unimplemented!() }
    #[verifier::external_body]
    pub fn seed_from_u64(x: u64) -> (ret: ThreadRng) requires unpredictable_(x), ensures ret.draws() == Seq::<char>::empty(), ret.os(), is_drawn_(ret.draws()) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_seed(x: [u8; 32]) -> (ret: ThreadRng) requires unpredictable_(x), ensures ret.draws() == Seq::<char>::empty(), ret.os(), is_drawn_(ret.draws()) { unimplemented!() }
}
/// a seed obtained from the operating system
pub uninterp spec fn unpredictable_<T>(x: T) -> bool;
#[verifier::external_body]
pub fn rand__random<T>() -> (ret: T) ensures unpredictable_(ret) { unimplemented!() }
#[verifier::external_body]
pub fn rand__rng() -> (ret: ThreadRng) ensures ret.draws() == Seq::<char>::empty(), ret.os(), is_drawn_(ret.draws()) { unimplemented!() }
impl Alphanumeric {
    #[verifier::external_body]
    pub fn sample_string(&self, r: &mut ThreadRng, n: usize) -> (ret: String)
        ensures ret@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] alnum_(ret@[i]), old(r).os() && old(r).draws().len() == 0 ==> is_drawn_(ret@), final(r).os() == old(r).os(),
    { unimplemented!() }
}
// ---- the clock, the process: anything
#[verifier::external_body]
pub fn process__id() -> u32 { unimplemented!() }

// ---- crossbeam's channel: `first` is the first value ever sent on it
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct crossbeam_channel__Sender<T> { k: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct crossbeam_channel__Receiver<T> { k: core::marker::PhantomData<T> }
pub enum TryRecvError { Empty, Disconnected }
#[verifier::external] impl core::fmt::Debug for TryRecvError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
#[verifier::external_body]
pub struct ChanRecvError { _p: () }
pub open spec fn got_(ev: Seq<Ev>, ch: int) -> bool { exists|i: int| 0 <= i < ev.len() && #[trigger] ev[i] == Ev::Ext(GExt::Got { ch }) }
impl crossbeam_channel__Sender<bool> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn first(&self) -> bool;
    #[verifier::external_body]
    pub fn send(&self, v: bool, Tracked(w): Tracked<&mut World>) -> (ret: Result<(), SendError_>)
        ensures old(w).ev_to(*final(w), old(w).ev.push(Ev::Ext(GExt::Verdict { ch: self.id(), ok: v }))),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_send(&self, v: bool, Tracked(w): Tracked<&mut World>) -> (ret: Result<(), SendError_>)
        ensures old(w).ev_to(*final(w), if ret is Ok { old(w).ev.push(Ev::Ext(GExt::Verdict { ch: self.id(), ok: v })) } else { old(w).ev }),
    { unimplemented!() }
}
impl Clone for crossbeam_channel__Sender<bool> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl crossbeam_channel__Receiver<bool> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn first(&self) -> bool;
    #[verifier::external_body]
    pub fn try_recv(&self, Tracked(w): Tracked<&mut World>) -> (ret: Result<bool, TryRecvError>)
        ensures match ret {
            Ok(v) => (!got_(old(w).ev, self.id()) ==> v == self.first()) && old(w).ev_to(*final(w), old(w).ev.push(Ev::Ext(GExt::Got { ch: self.id() }))),
            Err(TryRecvError::Empty) => *final(w) == *old(w),
            Err(TryRecvError::Disconnected) => *final(w) == (World { fault: true, ..*old(w) }),
        },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn recv(&self, Tracked(w): Tracked<&mut World>) -> (ret: Result<bool, ChanRecvError>)
        ensures match ret {
            Ok(v) => (!got_(old(w).ev, self.id()) ==> v == self.first()) && old(w).ev_to(*final(w), old(w).ev.push(Ev::Ext(GExt::Got { ch: self.id() }))),
            Err(_) => *final(w) == (World { fault: true, ..*old(w) }),
        },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn crossbeam_channel__bounded(n: usize) -> (ret: (crossbeam_channel__Sender<bool>, crossbeam_channel__Receiver<bool>))
    ensures ret.0.id() == ret.1.id(), ret.0.first() == ret.1.first(),
{ unimplemented!() }
#[verifier::external_body]
pub fn crossbeam_channel__unbounded() -> (ret: (crossbeam_channel__Sender<bool>, crossbeam_channel__Receiver<bool>))
    ensures ret.0.id() == ret.1.id(), ret.0.first() == ret.1.first(),
{ unimplemented!() }

// ---- the work queue as its users see it: an accepted job is run by a worker (C12, C13, C22), so the first verdict is the one of C11
#[verifier::external_body]
pub struct Manager { _p: () }
pub struct AddFut { pub ip: String, pub job: Box<QueuedWork> }
impl Manager {
    pub uninterp spec fn workers(&self) -> usize;
    pub uninterp spec fn limit(&self) -> usize;
    #[verifier::external_body]
    pub fn new(w: usize, q: usize) -> (ret: Self) ensures ret.workers() == w, ret.limit() == q { unimplemented!() }
    pub fn add(&self, ip: String, job: Box<QueuedWork>) -> (ret: AddFut) ensures ret.ip == ip, ret.job == job { AddFut { ip, job } }
}
