impl Counter { pub open spec fn c(self) -> MCaptcha { self.@Counter.0@ } }
pub type Sites = Map<Seq<char>, (Option<()>, Addr<Counter>)>;
impl Master {
    pub open spec fn sites(self) -> Sites { self.@Master.sites@@ }
    /// the order in which the registry is walked
    pub open spec fn order(self) -> Seq<String> { self.@Master.sites@.ord() }
    pub open spec fn gc(self) -> u64 { self.@Master.gc@ }
    /// name -> counter
    pub open spec fn reg(self) -> Map<Seq<char>, int> { regs(self.sites()) }
    pub open spec fn used(self, n: Seq<char>) -> bool { used_in(self.sites(), n) }
    pub open spec fn same_used_except(self, o: Self, n: Seq<char>) -> bool {
        forall|k: Seq<char>| k != n ==> (#[trigger] self.used(k)) == o.used(k)
    }
}
pub open spec fn regs(s: Sites) -> Map<Seq<char>, int> { s.map_values(|e: (Option<()>, Addr<Counter>)| e.1.id()) }
pub open spec fn used_in(s: Sites, n: Seq<char>) -> bool { s.dom().contains(n) && s[n].0 is Some }
/// `n` adds exactly one deferred task to `o`, and does nothing else but answer
pub open spec fn one_task(o: World, n: World) -> bool {
    &&& n.tasks.len() == o.tasks.len() + 1
    &&& n.tasks.drop_last() =~= o.tasks
    &&& n.ev == o.ev && n.started == o.started && n.stops == o.stops
}
/// the task sends exactly one message
pub open spec fn only_sends(t: Task, to: int, msg: GMsg) -> bool { t.ev.len() == 1 && is_send(t.ev[0], to, msg) }

// ---- clean-up: `ev` is what a round does for the first `k` sites
/// the site's counter was asked and answered that it has no visitors
pub open spec fn idle(e: Ev, to: int) -> bool { is_send(e, to, GMsg::Count) && e->ans == Some(GAns::Count(0)) }
pub open spec fn removes(e: Seq<Ev>, to: int, own: int, name: Seq<char>) -> bool {
    ||| e.len() == 1 && is_send(e[0], own, GMsg::Remove(name))
    ||| e.len() == 2 && is_send(e[0], to, GMsg::Stop) && is_send(e[1], own, GMsg::Remove(name))
    ||| e.len() == 2 && is_send(e[1], to, GMsg::Stop) && is_send(e[0], own, GMsg::Remove(name))
}
pub open spec fn site_round(e: Seq<Ev>, used: bool, to: int, own: int, name: Seq<char>) -> bool {
    ||| e.len() == 0 && !used
    ||| e.len() == 1 && is_send(e[0], to, GMsg::Count) && !(used && idle(e[0], to))
    ||| e.len() > 1 && used && idle(e[0], to) && removes(e.skip(1), to, own, name)
}
/// `ev` is a clean-up of the first `k` sites
pub open spec fn cleaned(ks: Seq<String>, s: Sites, own: int, k: int, ev: Seq<Ev>) -> bool
    decreases k,
{
    if k <= 0 { ev.len() == 0 } else {
        ||| cleaned(ks, s, own, k - 1, ev) && !used_in(s, ks[k - 1]@)
        ||| exists|n: int| #![trigger ev.take(n)] 0 <= n < ev.len() && cleaned(ks, s, own, k - 1, ev.take(n))
            && site_round(ev.skip(n), used_in(s, ks[k - 1]@), s[ks[k - 1]@].1.id(), own, ks[k - 1]@)
    }
}
pub broadcast proof fn cleaned1(ks: Seq<String>, s: Sites, own: int, k: int, ev: Seq<Ev>, a: Ev)
    requires #[trigger] cleaned(ks, s, own, k, ev), k >= 0, site_round(seq![a], used_in(s, ks[k]@), s[ks[k]@].1.id(), own, ks[k]@),
    ensures cleaned(ks, s, own, k + 1, #[trigger] ev.push(a)),
{
    let e = ev.push(a);
    assert(e.take(ev.len() as int) =~= ev);
    assert(e.skip(ev.len() as int) =~= seq![a]);
}
pub broadcast proof fn cleaned2(ks: Seq<String>, s: Sites, own: int, k: int, ev: Seq<Ev>, a: Ev, b: Ev)
    requires #[trigger] cleaned(ks, s, own, k, ev), k >= 0, site_round(seq![a, b], used_in(s, ks[k]@), s[ks[k]@].1.id(), own, ks[k]@),
    ensures cleaned(ks, s, own, k + 1, #[trigger] ev.push(a).push(b)),
{
    let e = ev.push(a).push(b);
    assert(e.take(ev.len() as int) =~= ev);
    assert(e.skip(ev.len() as int) =~= seq![a, b]);
}
pub broadcast proof fn cleaned3(ks: Seq<String>, s: Sites, own: int, k: int, ev: Seq<Ev>, a: Ev, b: Ev, c: Ev)
    requires #[trigger] cleaned(ks, s, own, k, ev), k >= 0, site_round(seq![a, b, c], used_in(s, ks[k]@), s[ks[k]@].1.id(), own, ks[k]@),
    ensures cleaned(ks, s, own, k + 1, #[trigger] ev.push(a).push(b).push(c)),
{
    let e = ev.push(a).push(b).push(c);
    assert(e.take(ev.len() as int) =~= ev);
    assert(e.skip(ev.len() as int) =~= seq![a, b, c]);
}
/// a clean-up of all sites, a pause of `gc` seconds, and another round
pub open spec fn whole_round(ks: Seq<String>, s: Sites, own: int, gc: u64, ev: Seq<Ev>) -> bool {
    &&& ev.len() >= 2
    &&& cleaned(ks, s, own, ks.len() as int, ev.take(ev.len() - 2))
    &&& ev[ev.len() - 2] == Ev::Sleep(secs(gc))
    &&& is_send(ev.last(), own, GMsg::CleanUp)
}
pub broadcast proof fn whole(ks: Seq<String>, s: Sites, own: int, k: int, gc: u64, x: Seq<Ev>, a: Ev, b: Ev)
    requires #[trigger] cleaned(ks, s, own, k, x), k == ks.len(), a == Ev::Sleep(secs(gc)), is_send(b, own, GMsg::CleanUp),
    ensures #[trigger] whole_round(ks, s, own, gc, x.push(a).push(b)),
{
    assert(x.push(a).push(b).take(x.len() as int) =~= x);
}

// ---- snapshots
/// `ev` asks the first `k` sites for their state
pub open spec fn asked(ks: Seq<String>, s: Sites, k: int, ev: Seq<Ev>) -> bool {
    &&& ev.len() == k
    &&& forall|i: int| 0 <= i < k ==> is_send(#[trigger] ev[i], s[ks[i]@].1.id(), GMsg::Data)
}
/// `data` holds exactly what the first `k` sites answered
pub open spec fn collected(ks: Seq<String>, k: int, ev: Seq<Ev>, data: Map<Seq<char>, MCaptcha>) -> bool {
    &&& forall|i: int| #![trigger ks[i]] 0 <= i < k ==> (data.dom().contains(ks[i]@) <==> ev[i]->ans is Some)
    &&& forall|i: int| #![trigger ks[i]] 0 <= i < k ==> (ev[i]->ans matches Some(a) ==> a == GAns::Data(data[ks[i]@]))
    &&& forall|n: Seq<char>| #[trigger] data.dom().contains(n) ==> exists|i: int| 0 <= i < k && (#[trigger] ks[i])@ == n
}
// ---- restores
pub open spec fn restored(ks: Seq<String>, data: Map<Seq<char>, MCaptcha>, k: int, base: int, tasks: Seq<Task>, reg: Map<Seq<char>, int>) -> bool {
    &&& tasks.len() == base + k
    &&& forall|i: int| #![trigger ks[i]] 0 <= i < k ==> reg.dom().contains(ks[i]@) && only_sends(tasks[base + i], reg[ks[i]@], GMsg::SetData(data[ks[i]@]))
}
impl Actor for Counter { open spec fn gs_(self) -> GState { GState::Counter(self.@Counter.0@) } }
