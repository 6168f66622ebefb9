// ---- actix: contracts assumed of the actor framework
pub trait Message: Sized {
    type Result;
    spec fn g_(self) -> GMsg;
    spec fn ga_(r: Self::Result) -> GAns;
    /// what every handler of this message guarantees of its answer (proved of the handler)
    spec fn post_(r: Self::Result) -> bool;
}
pub struct MessageResult<M: Message>(pub M::Result);

#[verifier::external_body]
pub struct MailboxError { _p: () }
#[verifier::external] impl core::fmt::Debug for MailboxError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct Addr<A> { k: core::marker::PhantomData<A> }
impl<A> Addr<A> {
    pub uninterp spec fn id(&self) -> int;
    /// the address of the actor that is handling a message (see `Context::address`): its mailbox is open while it or its tasks run
    pub uninterp spec fn own(&self) -> bool;
    #[verifier::external_body]
    pub fn send<M: Message>(&self, msg: M, Tracked(w): Tracked<&mut World>) -> (ret: Result<M::Result, MailboxError>)
        ensures
            self.own() ==> ret is Ok,
            ret matches Ok(v) ==> M::post_(v),
            *final(w) == (World { ev: old(w).ev.push(Ev::Send { to: self.id(), msg: msg.g_(), ans: match ret { Ok(v) => Some(M::ga_(v)), Err(_) => None } }),
                fault: old(w).fault || ret is Err, ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn do_send<M: Message>(&self, msg: M, Tracked(w): Tracked<&mut World>)
        ensures old(w).ev_to(*final(w), old(w).ev.push(Ev::Send { to: self.id(), msg: msg.g_(), ans: unseen_() })),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_send<M: Message>(&self, msg: M, Tracked(w): Tracked<&mut World>) -> (ret: Result<(), SendError_>)
        ensures old(w).ev_to(*final(w), old(w).ev.push(Ev::Send { to: self.id(), msg: msg.g_(), ans: unseen_() })),
    { unimplemented!() }
}
impl<A> Clone for Addr<A> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

#[verifier::external_body]
#[verifier::accept_recursive_types(A)]
pub struct Context<A> { k: core::marker::PhantomData<A> }
impl<A> Context<A> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn address(&self) -> (ret: Addr<A>) ensures ret.id() == self.id(), ret.own() { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn(&mut self, f: Fut, Tracked(w): Tracked<&mut World>)
        ensures *final(self) == *old(self), *final(w) == (World { tasks: old(w).tasks.push(f.as_task(false)), ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn wait(&mut self, f: Fut, Tracked(w): Tracked<&mut World>)
        ensures *final(self) == *old(self), *final(w) == (World { tasks: old(w).tasks.push(f.as_task(true)), ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn notify_later<M: Message>(&mut self, msg: M, d: Duration, Tracked(w): Tracked<&mut World>)
        ensures *final(self) == *old(self), *final(w) == (World { tasks: old(w).tasks.push(Task {
            ev: seq![Ev::Sleep(d.ns()), Ev::Send { to: old(self).id(), msg: msg.g_(), ans: unseen_() }], replied: seq![], blocks: false }), ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn notify<M: Message>(&mut self, msg: M, Tracked(w): Tracked<&mut World>)
        ensures *final(self) == *old(self), *final(w) == (World { tasks: old(w).tasks.push(Task {
            ev: seq![Ev::Send { to: old(self).id(), msg: msg.g_(), ans: unseen_() }], replied: seq![], blocks: false }), ..*old(w) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn stop(&mut self, Tracked(w): Tracked<&mut World>)
        ensures *final(self) == *old(self), *final(w) == (World { stops: old(w).stops + 1, ..*old(w) }),
    { unimplemented!() }
}

pub enum Running { Stop, Continue }

pub trait Actor: Sized { spec fn gs_(self) -> GState; }
pub trait Start_: Sized { fn start(self, Tracked(w): Tracked<&mut World>) -> (ret: Addr<Self>); }
impl<A: Actor> Start_ for A {
    #[verifier::external_body]
    fn start(self, Tracked(w): Tracked<&mut World>) -> (ret: Addr<Self>)
        ensures
            *final(w) == (World { started: old(w).started.push((ret.id(), self.gs_())), ..*old(w) }),
            forall|i: int| 0 <= i < old(w).started.len() ==> (#[trigger] old(w).started[i]).0 != ret.id(),
    { unimplemented!() }
}
