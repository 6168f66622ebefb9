use crate::util::*;
use actix::prelude::*;
use libmcaptcha::cache::hashcache::HashCache;
use libmcaptcha::cache::messages::*;
use std::collections::HashMap;
use std::time::Duration;

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Challenges,
    Tokens,
    Expiry,
    Departed,
}

#[derive(Default)]
struct Model {
    now: u64, // ms
    ch: HashMap<String, CachedPoWConfig>,
    tk: HashMap<String, String>,
    /// (when, is a token, name)
    exp: Vec<(u64, bool, String)>,
}
impl Model {
    fn to(&mut self, t: u64) {
        self.now = t;
        let (due, rest): (Vec<_>, Vec<_>) = self.exp.drain(..).partition(|e| e.0 <= t);
        self.exp = rest;
        for (_, tok, n) in due {
            if tok {
                self.tk.remove(&n);
            } else {
                self.ch.remove(&n);
            }
        }
    }
}

pub async fn run(mut r: Rng, t: Trace, what: What) -> R {
    let addr = HashCache::default().start();
    let mut m = Model::default();
    let names: Vec<String> = (0..if what == What::Expiry { 12 } else { 4 }).map(|i| if i == 1 { String::new() } else { format!("n{i}") }).collect();
    let keys: Vec<String> = ["k", "K", "n0", "", "k ", " k", "kk", "k\0"].map(String::from).to_vec();
    let mut stored: HashMap<String, String> = HashMap::new();
    let mut last: Option<(u64, String)> = None;
    let mut used_c: Vec<String> = vec![];
    let mut used_t: Vec<String> = vec![];
    let mut long = 5;
    for step in 0..r.range(4, 40) {
        let mut adv = r.below(if what == What::Expiry { 3 } else { 2 }) * 1000 + 7;
        // now and then a day or more goes by, less than what is stored for good lives
        if long > 0 && r.chance(3) {
            long -= 1;
            adv += r.range(3_600, 150_000) * 1000;
        }
        pass(Duration::from_millis(adv)).await;
        let now = m.now + adv;
        m.to(now);
        t.log(format!("+{adv} ms"));
        let mut name = r.pick(&names).clone();
        let key = r.pick(&keys).clone();
        let dur = match what {
            What::Challenges | What::Tokens => 1_000_000 + r.below(5) + *r.pick(&[0u64, 0, 1 << 32, 1 << 50]),
            _ => *r.pick(&[0u64, 1, 1, 2, 3, 5, 1 << 40, u64::MAX]),
        };
        let leave = what == What::Departed && r.chance(50);
        let kind = match what {
            What::Challenges => *r.pick(&[0, 0, 0, 1, 1, 1, 2, 3, 4, 5, 6]),
            What::Tokens => *r.pick(&[3, 3, 3, 4, 4, 4, 5, 0, 1, 2, 7]),
            _ => r.below(8),
        };
        let mut kind = kind;
        // what was just stored is looked at, or stored again
        if let Some((k, n)) = last.take() {
            if r.chance(40) {
                name = n;
                kind = if r.chance(70) { k } else { [0, 3][(k == 4) as usize] };
            }
        }
        match kind {
            0 | 6 => last = Some((1, name.clone())),
            3 => last = Some((4, name.clone())),
            _ => (),
        }
        match kind {
            0 | 6 => {
                let msg = CachePoW { string: name.clone(), difficulty_factor: r.count(), duration: dur, key: key.clone() };
                t.log(format!("{step}: CachePoW({name:?}, factor {}, duration {dur}, key {key:?}){}", msg.difficulty_factor, if leave { ", requester leaves" } else { "" }));
                m.ch.insert(name.clone(), CachedPoWConfig { key, difficulty_factor: msg.difficulty_factor, duration: dur });
                m.exp.push((now.saturating_add(dur.saturating_mul(1000)), false, name.clone()));
                used_c.retain(|x| *x != name);
                if leave {
                    addr.do_send(msg);
                } else {
                    let x = addr.send(msg).await.map_err(|e| format!("cache gone: {e}"))?.await.map_err(|e| format!("no answer: {e}"))?;
                    chk!(x == Ok(()), "CachePoW answered {x:?}");
                }
            }
            1 | 7 => {
                if what == What::Expiry && used_c.contains(&name) {
                    continue;
                }
                let other = r.pick(&keys).clone();
                t.log(format!("{step}: RetrivePoW({name:?}){}", if leave { ", requester leaves" } else { "" }));
                let msg = RetrivePoW(VerifyCaptchaResult { token: name.clone(), key: other });
                let want = m.ch.remove(&name);
                used_c.push(name.clone());
                if leave {
                    addr.do_send(msg);
                } else {
                    let x = addr.send(msg).await.map_err(|e| format!("cache gone: {e}"))?.await.map_err(|e| format!("no answer: {e}"))?;
                    chk!(x == Ok(want.clone()), "retrieving challenge {name:?} gave {x:?}, expected {want:?}");
                }
            }
            2 => {
                t.log(format!("{step}: DeletePoW({name:?})"));
                m.ch.remove(&name);
                let x = addr.send(DeletePoW(name)).await.map_err(|e| format!("cache gone: {e}"))?;
                chk!(x == Ok(()), "DeletePoW answered {x:?}");
            }
            3 => {
                t.log(format!("{step}: CacheResult({name:?}, key {key:?}, duration {dur}){}", if leave { ", requester leaves" } else { "" }));
                m.tk.insert(name.clone(), key.clone());
                stored.insert(name.clone(), key.clone());
                m.exp.push((now.saturating_add(dur.saturating_mul(1000)), true, name.clone()));
                used_t.retain(|x| *x != name);
                let msg = CacheResult { token: name, key, duration: dur };
                if leave {
                    addr.do_send(msg);
                } else {
                    let x = addr.send(msg).await.map_err(|e| format!("cache gone: {e}"))?.await.map_err(|e| format!("no answer: {e}"))?;
                    chk!(x == Ok(()), "CacheResult answered {x:?}");
                }
            }
            4 => {
                if what == What::Expiry && used_t.contains(&name) {
                    continue;
                }
                let key = match m.tk.get(&name) {
                    Some(k) if what == What::Expiry || r.chance(50) => k.clone(),
                    // expired or not, asked for by its own site
                    None if what == What::Expiry => stored.get(&name).cloned().unwrap_or(key),
                    // almost the right one
                    Some(k) if r.chance(30) => r.pick(&[format!("{k} "), format!(" {k}"), k.to_lowercase(), k.to_uppercase(), k.trim().to_string(), k.chars().skip(1).collect()]).clone(),
                    _ => key,
                };
                t.log(format!("{step}: VerifyCaptchaResult({name:?}, key {key:?}){}", if leave { ", requester leaves" } else { "" }));
                let want = m.tk.remove(&name) == Some(key.clone());
                used_t.push(name.clone());
                let msg = VerifyCaptchaResult { token: name.clone(), key: key.clone() };
                if leave {
                    addr.do_send(msg);
                } else {
                    let x = addr.send(msg).await.map_err(|e| format!("cache gone: {e}"))?.await.map_err(|e| format!("no answer: {e}"))?;
                    chk!(x == Ok(want), "verifying token {name:?} for {key:?} gave {x:?}, expected {want}");
                }
            }
            _ => {
                t.log(format!("{step}: DeleteCaptchaResult({name:?})"));
                m.tk.remove(&name);
                let x = addr.send(DeleteCaptchaResult { token: name }).await.map_err(|e| format!("cache gone: {e}"))?;
                chk!(x == Ok(()), "DeleteCaptchaResult answered {x:?}");
            }
        }
    }
    pass(Duration::from_millis(7)).await;
    let now = m.now + 7;
    m.to(now);
    // nothing else was disturbed
    if what != What::Expiry {
        for n in &names {
            let want = if what == What::Tokens { None } else { Some(m.ch.remove(n)) };
            if let Some(want) = want {
                let x = addr.send(RetrivePoW(VerifyCaptchaResult { token: n.clone(), key: "k".into() })).await.map_err(|e| format!("cache gone: {e}"))?.await.map_err(|e| format!("no answer: {e}"))?;
                chk!(x == Ok(want.clone()), "in the end challenge {n:?} is {x:?}, expected {want:?}");
            }
            if what != What::Challenges {
                let key = m.tk.get(n).or(stored.get(n)).cloned().unwrap_or("k".into());
                let want = m.tk.remove(n).is_some();
                let x = addr.send(VerifyCaptchaResult { token: n.clone(), key: key.clone() }).await.map_err(|e| format!("cache gone: {e}"))?.await.map_err(|e| format!("no answer: {e}"))?;
                chk!(x == Ok(want), "in the end verifying {n:?} for {key:?} gives {x:?}, expected {want}");
            }
        }
    }
    Ok(())
}

/// many more entries at once than elsewhere, then all of them redeemed, or all of them expired
pub async fn many(mut r: Rng, t: Trace, what: What) -> R {
    let n = 2_200u64;
    let addr = HashCache::default().start();
    let tokens = match what {
        What::Challenges => false,
        What::Tokens => true,
        _ => r.chance(50),
    };
    let short = what == What::Expiry;
    let dur = if short { 5 } else { 1_000_000 };
    t.log(format!("{n} {} stored for {dur} s", if tokens { "tokens" } else { "challenges" }));
    let mut last = None;
    let mut last_p = None;
    for i in 0..n {
        if tokens {
            let m = CacheResult { token: format!("t{i}"), key: format!("k{}", i % 7), duration: dur };
            if i % 64 == 0 { last = Some(addr.send(m).await.map_err(|e| format!("cache gone: {e}"))?); } else { addr.do_send(m); }
        } else {
            let m = CachePoW { string: format!("t{i}"), difficulty_factor: i as u32, duration: dur, key: format!("k{}", i % 7) };
            if i % 64 == 0 { last_p = Some(addr.send(m).await.map_err(|e| format!("cache gone: {e}"))?); } else { addr.do_send(m); }
        }
    }
    for x in last.into_iter().chain(last_p) {
        let x = x.await.map_err(|e| format!("no answer: {e}"))?;
        chk!(x == Ok(()), "a store answered {x:?}");
    }
    if short {
        pass(Duration::from_secs(4)).await;
    }
    // once while they live, once after
    for turn in 0..2 {
        let step = if short && turn == 0 { 2 } else { 1 };
        for i in (0..n).step_by(step) {
            let alive = turn == 0;
            if tokens {
                let m = VerifyCaptchaResult { token: format!("t{i}"), key: format!("k{}", i % 7) };
                let x = addr.send(m).await.map_err(|e| format!("cache gone: {e}"))?.await.map_err(|e| format!("no answer: {e}"))?;
                chk!(x == Ok(alive), "token {i} of {n} verifies to {x:?}, expected {alive}{}", if alive { "" } else { ": it was redeemed or has expired" });
            } else {
                let m = RetrivePoW(VerifyCaptchaResult { token: format!("t{i}"), key: "k".into() });
                let x = addr.send(m).await.map_err(|e| format!("cache gone: {e}"))?.await.map_err(|e| format!("no answer: {e}"))?;
                let want = alive.then(|| CachedPoWConfig { key: format!("k{}", i % 7), difficulty_factor: i as u32, duration: dur });
                chk!(x == Ok(want.clone()), "challenge {i} of {n} is {x:?}, expected {want:?}");
            }
        }
        if short && turn == 0 {
            pass(Duration::from_secs(3)).await;
        }
    }
    Ok(())
}
