impl AddFut {
    #[verifier::external_body]
    pub fn awaited(self, Tracked(w): Tracked<&mut World>) -> (ret: CaptchaResult<()>)
        ensures
            ret is Ok ==> self.job.tx().first() == self.job.passes(),
            *final(w) == (World { ev: if ret is Ok { old(w).ev.push(Ev::Ext(GExt::Submit { ip: self.ip@, ch: self.job.tx().id() })) } else { old(w).ev }, fault: old(w).fault || ret is Err, ..*old(w) }),
    { unimplemented!() }
}
impl QueuedWork {
    pub open spec fn tx(self) -> crossbeam_channel__Sender<bool> { self.@QueuedWork.tx@ }
    pub open spec fn cfg(self) -> Config { *self.@QueuedWork.pow@ }
    pub open spec fn pw(self) -> PoW<String> { self.@QueuedWork.work@ }
    pub open spec fn phrase(self) -> Seq<char> { self.@QueuedWork.string@@ }
    pub open spec fn factor(self) -> u32 { self.@QueuedWork.difficulty_factor@ }
    /// the proof check on exactly this job
    pub open spec fn passes(self) -> bool { passes_(self.cfg(), self.pw().nonce, self.pw().result@, self.factor(), self.phrase()) }
}
impl<T: Save, X: Master> System<T, X> {
    pub open spec fn to_master(self) -> int { self.@System.master@.id() }
    pub open spec fn to_cache(self) -> int { self.@System.cache@.id() }
    pub open spec fn cfg(self) -> Config { *self.@System.pow@ }
    pub open spec fn queue(self) -> Manager { self.@System.runners@ }
}
impl<T: Save, X: Master> SystemBuilder<T, X> {
    pub open spec fn m(self) -> Option<Addr<X>> { self.@SystemBuilder.master@ }
    pub open spec fn c(self) -> Option<Addr<T>> { self.@SystemBuilder.cache@ }
    pub open spec fn p(self) -> Option<Config> { self.@SystemBuilder.pow@ }
    pub open spec fn r(self) -> Option<usize> { self.@SystemBuilder.runners@ }
    pub open spec fn q(self) -> Option<usize> { self.@SystemBuilder.queue_length@ }
}
impl World { pub open spec fn fresh(self) -> bool { self.ev.len() == 0 && self.tasks.len() == 0 && self.replied.len() == 0 && !self.fault && !self.deferred } }
pub open spec fn alnums(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> alnum_(#[trigger] s[i]) }
/// what was retrieved from the cache, if anything was
pub open spec fn retrieved(ev: Seq<Ev>) -> Option<CachedPoWConfig> {
    if ev.len() > 0 { match ev[0]->ans { Some(GAns::Cached(rx)) => match rx.val() { Ok(o) => o, Err(_) => None }, _ => None } } else { None }
}
pub open spec fn acked(e: Ev) -> bool { e is Send && match e->ans { Some(GAns::Done(rx)) => rx.val() is Ok, _ => false } }
pub open spec fn refused(e: Ev) -> bool { e is Send && match e->ans { Some(GAns::Done(rx)) => rx.val() is Err, _ => false } }
/// the work deserves a token
pub open spec fn earned(cfg: Config, work: Work, ev: Seq<Ev>) -> bool {
    &&& retrieved(ev) matches Some(c)
    &&& c.key@ == work.key@
    &&& passes_(cfg, work.nonce, work.result@, c.difficulty_factor, work.string@)
}
pub open spec fn is_store(e: Ev) -> bool { e is Send && e->msg is Store }
/// the answer of the named site
pub open spec fn visited(ev: Seq<Ev>) -> Option<Option<AddVisitorResult>> {
    if ev.len() > 0 { match ev[0]->ans { Some(GAns::Visit(rx)) => match rx.val() { Ok(o) => Some(o), Err(_) => None }, _ => None } } else { None }
}
