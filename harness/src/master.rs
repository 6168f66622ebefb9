use crate::defense::*;
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::master::embedded::counter::{self, Counter};
use libmcaptcha::master::embedded::master::{CleanUp, GetSite, Master};
use libmcaptcha::master::messages::*;
use libmcaptcha::*;
use std::collections::{BTreeMap, HashMap};
use std::time::Duration;

/// all that can be told of a captcha: its encoding, what it prints, its accessors
fn state(m: &MCaptcha) -> serde_json::Value {
    let d = m.get_defense();
    let levels: Vec<libmcaptcha::defense::Level> = d.clone().into();
    let levels: Vec<(u32, u32)> = levels.iter().map(|l| (l.visitor_threshold, l.difficulty_factor)).collect();
    serde_json::json!({
        "encoding": serde_json::to_value(m).unwrap(),
        "debug": format!("{m:?}"),
        "visitors": m.get_visitors(),
        "duration": m.get_duration(),
        "difficulty": m.get_difficulty(),
        "threshold": d.visitor_threshold(),
        "factor": d.get_difficulty(),
        "levels": levels,
    })
}

/// a counter as the statements describe it; the captcha's own arithmetic is C03's and C04's business
#[derive(Clone)]
struct Site {
    m: MCaptcha,
    /// (when, how many)
    exp: Vec<(u64, u32)>,
}
impl Site {
    fn new(m: MCaptcha) -> Self {
        Site { m, exp: vec![] }
    }
    fn to(&mut self, t: u64) {
        self.exp.sort();
        while !self.exp.is_empty() && self.exp[0].0 <= t {
            let (_, n) = self.exp.remove(0);
            self.m.decrement_visitor_by(n);
        }
    }
    fn visit(&mut self, now: u64) -> (u64, u32) {
        self.m.add_visitor();
        self.exp.push((now.saturating_add(self.m.get_duration().saturating_mul(1000)), 1));
        (self.m.get_duration(), self.m.get_difficulty())
    }
    fn restore(&mut self, m: MCaptcha, now: u64) {
        self.exp.push((now.saturating_add(m.get_duration().saturating_mul(1000)), m.get_visitors()));
        self.m = m;
    }
}

fn random_captcha(r: &mut Rng, d: u64) -> MCaptcha {
    let ls = small_levels(r);
    let mut m = captcha(r, &ls, d);
    for _ in 0..r.below(5) {
        m.add_visitor();
    }
    m
}

pub async fn c05(mut r: Rng, t: Trace) -> R {
    let d = r.range(1, 5);
    let first = random_captcha(&mut r, d);
    t.log(format!("counter of {first:?}"));
    let mut s = Site::new(first.clone());
    let c: Counter = first.into();
    let addr = c.start();
    let mut now = 0u64;
    for _ in 0..r.range(3, 40) {
        let adv = r.below(3) * 1000 + 7;
        pass(Duration::from_millis(adv)).await;
        now += adv;
        s.to(now);
        t.log(format!("+{adv} ms"));
        match r.below(12) {
            0..=5 => {
                t.log("AddVisitor");
                let (dur, dif) = s.visit(now);
                let x = addr.send(counter::AddVisitor).await.map_err(|e| format!("counter gone: {e}"))?;
                chk!(x.duration == dur && x.difficulty_factor == dif, "AddVisitor answered {x:?}, expected duration {dur}, difficulty {dif}");
            }
            6 => {
                let d = r.range(1, 6);
                let mut m = random_captcha(&mut r, d);
                if r.chance(15) {
                    m = with_visitors(&m, u32::MAX - 1);
                }
                t.log(format!("SetInternalData({m:?})"));
                s.restore(m.clone(), now);
                addr.send(counter::SetInternalData(m)).await.map_err(|e| format!("counter gone: {e}"))?;
            }
            7..=8 => {
                t.log("GetCurrentVisitorCount");
                let x = addr.send(counter::GetCurrentVisitorCount).await.map_err(|e| format!("counter gone: {e}"))?;
                chk!(x == s.m.get_visitors(), "counter reports {x} visitors, expected {}", s.m.get_visitors());
            }
            9 => {
                // a requester that does not wait
                t.log("AddVisitor, requester leaves");
                s.visit(now);
                addr.do_send(counter::AddVisitor);
            }
            _ => {
                t.log("GetInternalData");
                let x = addr.send(counter::GetInternalData).await.map_err(|e| format!("counter gone: {e}"))?;
                chk!(state(&x) == state(&s.m), "counter state is {x:?}, expected {:?}", s.m);
            }
        }
        let x = addr.send(counter::GetCurrentVisitorCount).await.map_err(|e| format!("counter gone: {e}"))?;
        chk!(x == s.m.get_visitors(), "counter reports {x} visitors, expected {}", s.m.get_visitors());
    }
    // everything expires
    for _ in 0..9 {
        pass(Duration::from_millis(1000)).await;
        now += 1000;
        s.to(now);
        let x = addr.send(counter::GetCurrentVisitorCount).await.map_err(|e| format!("counter gone: {e}"))?;
        chk!(x == s.m.get_visitors(), "{now} ms in, the counter reports {x} visitors, expected {}", s.m.get_visitors());
    }
    Ok(())
}

/// C04 through the counter and the master
pub async fn c04(mut r: Rng, t: Trace) -> R {
    let ls = small_levels(&mut r);
    let d = r.range(1, 4);
    let m = captcha(&mut r, &ls, d);
    t.log(format!("levels {ls:?}, duration {d}"));
    let master = Master::new(1_000_000).start();
    master.send(AddSite { id: "s".into(), mcaptcha: m }).await.map_err(|e| e.to_string())?.await.map_err(|e| e.to_string())?.map_err(|e| format!("{e:?}"))?;
    let mut cur = 0;
    let mut visits: Vec<u64> = vec![];
    let mut now = 0u64;
    for _ in 0..r.range(2, 25) {
        let adv = r.below(2) * 500 + 7;
        pass(Duration::from_millis(adv)).await;
        now += adv;
        visits.retain(|v| v + d * 1000 > now);
        visits.push(now);
        let want = level_of(&ls, visits.len() as u32);
        cur = if cur < want { cur + 1 } else if cur > want { cur - 1 } else { cur };
        t.log(format!("+{adv} ms, visit"));
        let x = master.send(AddVisitor("s".into())).await.map_err(|e| e.to_string())?.await.map_err(|e| e.to_string())?.map_err(|e| format!("{e:?}"))?;
        let x = x.ok_or("visit to a registered site answered with nothing")?;
        chk!(x.difficulty_factor == ls[cur].difficulty_factor && x.duration == d, "with {} visitors the visitor was given {x:?}, expected level {cur} and duration {d}", visits.len());
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq)]
pub enum Focus {
    Registry,
    Gc,
    Snapshot,
    Departed,
}

struct Reg {
    site: Site,
    used: bool,
    alive: bool,
    addr: Option<Addr<Counter>>,
}

pub async fn registry(mut r: Rng, t: Trace, f: Focus) -> R {
    let gc = if f == Focus::Gc || f == Focus::Departed { r.range(1, 4) } else { 1_000_000 };
    t.log(format!("master with collection period {gc}"));
    let addr = Master::new(gc).start();
    let all = ["a", "b", "", "a b", "a ", " a", "A", "ab"];
    let first = r.below(5) as usize;
    let names: Vec<String> = all[first..first + 4].iter().map(|x| x.to_string()).collect();
    let mut w: BTreeMap<String, Reg> = BTreeMap::new();
    let mut gone: Vec<(String, Addr<Counter>)> = vec![];
    let mut now = 0u64;
    // clean-up rounds: one chain per CleanUp message received
    let mut rounds: Vec<u64> = vec![0];
    settle().await;
    let gone_err = |e: MailboxError| format!("master gone: {e}");
    for _ in 0..r.range(5, 40) {
        let adv = r.below(if f == Focus::Gc { 3 } else { 2 }) * 1000 + 7;
        pass(Duration::from_millis(adv)).await;
        now += adv;
        t.log(format!("+{adv} ms"));
        // rounds and expiries in the order in which they happen
        loop {
            let next = rounds.iter().cloned().min().unwrap();
            if next > now {
                break;
            }
            let i = rounds.iter().position(|x| *x == next).unwrap();
            rounds[i] = next + gc * 1000;
            for s in w.values_mut() {
                if s.alive {
                    s.site.to(next);
                }
            }
            let dead: Vec<String> = w.iter().filter(|(_, s)| s.alive && s.used && s.site.m.get_visitors() == 0).map(|(n, _)| n.clone()).collect();
            for n in dead {
                let s = w.remove(&n).unwrap();
                if let Some(a) = s.addr {
                    gone.push((n, a));
                }
            }
        }
        for s in w.values_mut() {
            if s.alive {
                s.site.to(now);
            }
        }
        settle().await;
        let n = r.pick(&names).clone();
        let leave = f == Focus::Departed && r.chance(50);
        let kind = match f {
            Focus::Snapshot => *r.pick(&[0, 0, 1, 2, 3, 5, 5, 6, 7, 8]),
            Focus::Registry => *r.pick(&[0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8]),
            _ => r.below(9),
        };
        match kind {
            0 => {
                let d = r.range(1, 4);
                let mut m = random_captcha(&mut r, d);
                if f == Focus::Gc && r.chance(60) {
                    m = with_visitors(&m, 0);
                }
                t.log(format!("AddSite({n:?}, {m:?})"));
                let old = w.insert(n.clone(), Reg { site: Site::new(m.clone()), used: false, alive: true, addr: None });
                drop(old);
                let msg = AddSite { id: n, mcaptcha: m };
                if leave {
                    addr.do_send(msg);
                } else {
                    let x = addr.send(msg).await.map_err(gone_err)?.await.map_err(|e| format!("no answer: {e}"))?;
                    chk!(x == Ok(()), "AddSite answered {x:?}");
                }
            }
            1 => {
                t.log(format!("AddVisitor({n:?})"));
                let want = w.get_mut(&n).map(|s| {
                    s.used = true;
                    if s.alive { Some(s.site.visit(now)) } else { None }
                });
                if leave {
                    addr.do_send(AddVisitor(n));
                    settle().await;
                } else {
                    let x = addr.send(AddVisitor(n.clone())).await.map_err(gone_err)?.await.map_err(|e| format!("no answer: {e}"))?;
                    match want {
                        None => chk!(matches!(x, Ok(None)), "a visit to the unknown site {n:?} was answered with {x:?}"),
                        Some(None) => chk!(x.is_err(), "a visit to a stopped site was answered with {x:?}"),
                        Some(Some((du, df))) => chk!(matches!(&x, Ok(Some(v)) if v.duration == du && v.difficulty_factor == df), "a visit to {n:?} was answered with {x:?}, expected duration {du} and difficulty {df}"),
                    }
                }
            }
            2 => {
                t.log(format!("Rename({n:?})"));
                let to = r.pick(&names).clone();
                t.log(format!("  to {to:?}"));
                if let Some(s) = w.remove(&n) {
                    w.insert(to.clone(), Reg { used: false, ..s });
                }
                let msg = Rename { name: n, rename_to: to };
                if leave {
                    addr.do_send(msg);
                } else {
                    let x = addr.send(msg).await.map_err(gone_err)?.await.map_err(|e| format!("no answer: {e}"))?;
                    chk!(x == Ok(()), "Rename answered {x:?}");
                }
            }
            3 => {
                t.log(format!("RemoveCaptcha({n:?})"));
                let old = w.remove(&n);
                let was_dead = old.as_ref().map(|s| !s.alive).unwrap_or(false);
                if leave {
                    addr.do_send(RemoveCaptcha(n.clone()));
                    settle().await;
                } else {
                    let x = addr.send(RemoveCaptcha(n.clone())).await.map_err(gone_err)?.await.map_err(|e| format!("no answer: {e}"))?;
                    chk!(was_dead || x == Ok(()), "RemoveCaptcha answered {x:?}");
                }
                if let Some(Reg { addr: Some(a), .. }) = old {
                    gone.push((n, a));
                }
            }
            4 => {
                t.log(format!("GetSite({n:?})"));
                let x = addr.send(GetSite(n.clone())).await.map_err(gone_err)?;
                match w.get_mut(&n) {
                    None => chk!(x.is_none(), "the unknown site {n:?} resolves"),
                    Some(s) => {
                        let a = x.ok_or(format!("the site {n:?} does not resolve"))?;
                        if let Some(b) = &s.addr {
                            chk!(a == *b, "the site {n:?} resolves to another counter than before");
                        }
                        s.used = true;
                        s.addr = Some(a);
                    }
                }
            }
            5 if f != Focus::Registry => {
                // restore
                let mut h = HashMap::new();
                let gcd = r.range(1, 4);
                for x in &names {
                    if r.chance(40) {
                        let m = random_captcha(&mut r, gcd);
                        t.log(format!("SetInternalData({x:?}: {m:?})"));
                        match w.get_mut(x) {
                            Some(s) => {
                                s.used = true;
                                if s.alive {
                                    s.site.restore(m.clone(), now);
                                }
                            }
                            None => {
                                let mut site = Site::new(m.clone());
                                site.restore(m.clone(), now);
                                w.insert(x.clone(), Reg { site, used: false, alive: true, addr: None });
                            }
                        }
                        h.insert(x.clone(), m);
                    }
                }
                t.log("SetInternalData");
                let msg = SetInternalData { mcaptcha: h };
                if leave {
                    addr.do_send(msg);
                } else {
                    let x = addr.send(msg).await.map_err(gone_err)?.await.map_err(|e| format!("no answer: {e}"))?;
                    chk!(x == Ok(()), "SetInternalData answered {x:?}");
                }
                settle().await;
            }
            7 if f != Focus::Registry => {
                // a counter stops behind the master's back
                if let Some(s) = w.get_mut(&n) {
                    if s.addr.is_none() {
                        s.used = true;
                        s.addr = addr.send(GetSite(n.clone())).await.map_err(gone_err)?;
                    }
                    if let (Some(a), true) = (&s.addr, s.alive) {
                        t.log(format!("the counter of {n:?} stops by itself"));
                        let _ = a.send(counter::Stop).await;
                        settle().await;
                        s.alive = false;
                    }
                }
            }
            8 if f == Focus::Gc || f == Focus::Departed => {
                t.log("CleanUp");
                // counts as a round now; modelled on the next turn of the loop at this very time
                rounds.push(now);
                addr.do_send(CleanUp);
                // sites are removed while the round is on
                if f == Focus::Gc && r.chance(60) {
                    for _ in 0..r.range(1, 2) {
                        for _ in 0..if r.chance(50) { 0 } else { r.below(9) } {
                            tokio::task::yield_now().await;
                        }
                        let due: Vec<String> = w.iter().filter(|(_, s)| s.alive && s.used && s.site.m.get_visitors() == 0).map(|(n, _)| n.clone()).collect();
                        let n = if !due.is_empty() && r.chance(60) { r.pick(&due).clone() } else { r.pick(&names).clone() };
                        t.log(format!("meanwhile RemoveCaptcha({n:?})"));
                        if let Some(Reg { addr: Some(a), .. }) = w.remove(&n) {
                            gone.push((n.clone(), a));
                        }
                        addr.do_send(RemoveCaptcha(n));
                    }
                }
                settle().await;
                for s in w.values_mut() {
                    if s.alive {
                        s.site.to(now);
                    }
                }
                let dead: Vec<String> = w.iter().filter(|(_, s)| s.alive && s.used && s.site.m.get_visitors() == 0).map(|(n, _)| n.clone()).collect();
                for n in dead {
                    let s = w.remove(&n).unwrap();
                    if let Some(a) = s.addr {
                        gone.push((n, a));
                    }
                }
                let l = rounds.len() - 1;
                rounds[l] = now + gc * 1000;
            }
            _ => {
                if leave {
                    t.log("GetInternalData, requester leaves");
                    addr.do_send(GetInternalData);
                    settle().await;
                }
            }
        }
        settle().await;
        // the whole registry, through a snapshot (which marks nothing as used)
        let x = addr.send(GetInternalData).await.map_err(gone_err)?.await.map_err(|e| format!("no answer to a snapshot: {e}"))?.map_err(|e| format!("snapshot answered {e:?}"))?;
        let got: BTreeMap<String, serde_json::Value> = x.iter().map(|(n, m)| (n.clone(), state(m))).collect();
        let want: BTreeMap<String, serde_json::Value> = w.iter().filter(|(_, s)| s.alive).map(|(n, s)| (n.clone(), state(&s.site.m))).collect();
        if got.keys().collect::<Vec<_>>() != want.keys().collect::<Vec<_>>() {
            return Err(format!("{now} ms in, the registered sites are {:?}, expected {:?}", got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>()));
        }
        for (n, v) in &want {
            chk!(got[n] == *v, "{now} ms in, the state of {n:?} is {}, expected {v}", got[n]);
        }
        for (n, a) in &gone {
            chk!(!a.connected(), "{n:?} was removed, but its counter still runs");
        }
        for (n, s) in &w {
            if let (Some(a), true) = (&s.addr, s.alive) {
                chk!(a.connected(), "{n:?} is registered, but its counter was stopped");
            }
        }
    }
    Ok(())
}

/// sites are removed while a collection round is under way; the round, and the ones after it, still see to every other site
pub async fn gc_race(mut r: Rng, t: Trace) -> R {
    let gc = r.range(4, 6);
    let addr = Master::new(gc).start();
    t.log(format!("master with collection period {gc}"));
    settle().await;
    let gone_err = |e: MailboxError| format!("master gone: {e}");
    let n = r.range(2, 7);
    // name, used, removed
    let mut sites: Vec<(String, bool, bool)> = vec![];
    let chained = r.chance(50);
    for round in 0..r.range(1, 3) {
        for i in 0..n {
            let name = format!("{round}.{i}");
            let ls = small_levels(&mut r);
            let m = captcha(&mut r, &ls, 1);
            addr.send(AddSite { id: name.clone(), mcaptcha: m }).await.map_err(gone_err)?.await.map_err(|e| format!("no answer: {e}"))?.map_err(|e| format!("{e:?}"))?;
            let used = r.chance(80);
            if used {
                let x = addr.send(AddVisitor(name.clone())).await.map_err(gone_err)?.await.map_err(|e| format!("no answer: {e}"))?;
                chk!(matches!(x, Ok(Some(_))), "a visit to {name} was answered with {x:?}");
            }
            t.log(format!("site {name}{}", if used { ", visited" } else { "" }));
            sites.push((name, used, false));
        }
        if chained {
            // up to the next round's very moment
            pass(Duration::from_secs(gc)).await;
            t.log(format!("{gc} s later, at the moment of the round"));
        } else {
            pass(Duration::from_millis(2500)).await;
            t.log("2.5 s later: CleanUp");
            addr.do_send(CleanUp);
        }
        for _ in 0..r.range(0, 3) {
            for _ in 0..if r.chance(50) { 0 } else { r.below(6) } {
                tokio::task::yield_now().await;
            }
            let i = r.below(sites.len() as u64) as usize;
            t.log(format!("meanwhile RemoveCaptcha({})", sites[i].0));
            sites[i].2 = true;
            addr.do_send(RemoveCaptcha(sites[i].0.clone()));
        }
        settle().await;
        pass(Duration::from_millis(500)).await;
        for s in sites.iter_mut() {
            let x = addr.send(GetSite(s.0.clone())).await.map_err(gone_err)?;
            if s.2 || s.1 {
                chk!(x.is_none(), "the site {} is still there ({})", s.0, if s.2 { "it was removed" } else { "used, and without visits for over a round" });
                s.2 = true;
            } else {
                chk!(x.is_some(), "the never used site {} was collected", s.0);
                s.1 = true;
            }
        }
        if chained {
            // sites looked at count as used; the round to come takes them
            pass(Duration::from_millis(gc * 1000 - 500)).await;
            settle().await;
            pass(Duration::from_millis(500)).await;
            t.log("a round later");
            for s in sites.iter_mut() {
                let x = addr.send(GetSite(s.0.clone())).await.map_err(gone_err)?;
                chk!(x.is_none(), "the site {} is still there a round after it was used", s.0);
                s.2 = true;
            }
            pass(Duration::from_millis(gc * 1000 - 1000)).await;
            // away from the round
            pass(Duration::from_millis(500)).await;
            settle().await;
            pass(Duration::from_millis(0)).await;
        }
    }
    Ok(())
}

/// collection periods from seconds to months: round after round comes when it is due
pub async fn long_periods(mut r: Rng, t: Trace) -> R {
    let gc = *r.pick(&[30, 61, 300, 3601, 40_000, 86_400, 90_000, 200_000, 700_000, 3_000_000, 30_000_000]);
    let addr = Master::new(gc).start();
    t.log(format!("master with collection period {gc}"));
    let gone_err = |e: MailboxError| format!("master gone: {e}");
    settle().await;
    pass(Duration::from_secs(1)).await;
    for round in 0..3 {
        for (name, used) in [(format!("used{round}"), true), (format!("new{round}"), false)] {
            let ls = small_levels(&mut r);
            let m = captcha(&mut r, &ls, 1);
            addr.send(AddSite { id: name.clone(), mcaptcha: m }).await.map_err(gone_err)?.await.map_err(|e| format!("no answer: {e}"))?.map_err(|e| format!("{e:?}"))?;
            if used {
                let x = addr.send(AddVisitor(name.clone())).await.map_err(gone_err)?.await.map_err(|e| format!("no answer: {e}"))?;
                chk!(matches!(x, Ok(Some(_))), "a visit to {name} was answered with {x:?}");
            }
        }
        t.log(format!("sites used{round} and new{round}, the first visited; {gc} s later"));
        settle().await;
        pass(Duration::from_secs(gc)).await;
        settle().await;
        let x = addr.send(GetSite(format!("used{round}"))).await.map_err(gone_err)?;
        chk!(x.is_none(), "the site used{round} is still there a round after its last visit expired");
        let x = addr.send(GetSite(format!("new{round}"))).await.map_err(gone_err)?;
        chk!(x.is_some(), "the never used site new{round} was collected");
    }
    Ok(())
}

/// many more visits at once than elsewhere; they expire when their time comes
pub async fn many_visits(mut r: Rng, t: Trace) -> R {
    let n = 10_000u32;
    let ls = small_levels(&mut r);
    let m = captcha(&mut r, &ls, 5);
    t.log(format!("{n} visits to {m:?}"));
    let c: Counter = m.into();
    let addr = c.start();
    let gone = |e: MailboxError| format!("counter gone: {e}");
    for half in 1..=2u32 {
        for i in 0..n / 2 {
            // some do not wait for their answer
            if i % 64 == 0 {
                addr.send(counter::AddVisitor).await.map_err(gone)?;
            } else {
                addr.do_send(counter::AddVisitor);
            }
        }
        let x = addr.send(counter::GetCurrentVisitorCount).await.map_err(gone)?;
        chk!(x == half * (n / 2), "after {} visits the counter reports {x}", half * (n / 2));
        pass(Duration::from_secs(3)).await;
    }
    // the first half is 6 s old, the second 3 s
    let x = addr.send(counter::GetCurrentVisitorCount).await.map_err(gone)?;
    chk!(x == n / 2, "with {} visits expired the counter reports {x}, expected {}", n / 2, n / 2);
    pass(Duration::from_secs(3)).await;
    let x = addr.send(counter::GetCurrentVisitorCount).await.map_err(gone)?;
    chk!(x == 0, "with every visit expired the counter reports {x}");
    Ok(())
}

/// more sites than usual: each resolves, each is in the snapshot, each is collected when its time comes
pub async fn many_sites(mut r: Rng, t: Trace) -> R {
    let n = 3000;
    let addr = Master::new(100).start();
    let gone = |e: MailboxError| format!("master gone: {e}");
    t.log(format!("{n} sites, collected every 100 s, visits last 5 s; every other one is visited"));
    for i in 0..n {
        let ls = small_levels(&mut r);
        let m = captcha(&mut r, &ls, 5);
        let x = addr.send(AddSite { id: format!("s{i}"), mcaptcha: m }).await.map_err(gone)?.await.map_err(|e| format!("no answer: {e}"))?;
        chk!(x == Ok(()), "AddSite {i} answered {x:?}");
    }
    for i in (0..n).step_by(2) {
        let x = addr.send(AddVisitor(format!("s{i}"))).await.map_err(gone)?.await.map_err(|e| format!("no answer: {e}"))?;
        chk!(matches!(x, Ok(Some(_))), "a visit to site {i} of {n} was answered with {x:?}");
    }
    let x = addr.send(GetInternalData).await.map_err(gone)?.await.map_err(|e| format!("no answer to a snapshot: {e}"))?.map_err(|e| format!("snapshot answered {e:?}"))?;
    chk!(x.len() == n, "the snapshot of {n} sites has {}", x.len());
    for i in 0..n {
        let got = x.get(&format!("s{i}")).map(|m| m.get_visitors());
        chk!(got == Some(((i + 1) % 2) as u32), "the snapshot of {n} sites has {got:?} visitors for site {i}");
    }
    pass(Duration::from_secs(101)).await;
    settle().await;
    for i in 0..n {
        let x = addr.send(GetSite(format!("s{i}"))).await.map_err(gone)?;
        chk!(x.is_some() == (i % 2 == 1), "after the round site {i} of {n} is {}", if x.is_some() { "still there" } else { "gone" });
    }
    Ok(())
}
