use crate::util::*;
use actix::prelude::*;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::Save;
use libmcaptcha::errors::*;
use libmcaptcha::master::messages::*;
use libmcaptcha::master::Master as MasterTrait;
use libmcaptcha::pow::{ConfigBuilder, PoWConfig, QueuedWork, Work};
use libmcaptcha::system::{System, SystemBuilder};
use libmcaptcha::verif_hooks::{get_random, Runnable};
use libmcaptcha::{AddVisitorResult, HashCache};
use mcaptcha_pow_sha256::{Config, PoW};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use std::sync::Arc;
use tokio::sync::oneshot;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
pub enum Ans<T> {
    Yes(T),
    Fail,
    /// the answer never comes
    Silent,
}
impl<T: Clone> Ans<T> {
    fn rx(&self) -> oneshot::Receiver<CaptchaResult<T>> {
        let (tx, rx) = oneshot::channel();
        match self {
            Ans::Yes(v) => {
                let _ = tx.send(Ok(v.clone()));
            }
            Ans::Fail => {
                let _ = tx.send(Err(CaptchaError::MCaptchaRedisModuleError));
            }
            Ans::Silent => (),
        }
        rx
    }
    fn or(r: &mut Rng, v: T, percent_bad: u64) -> Self {
        if r.chance(percent_bad) {
            if r.chance(50) { Ans::Fail } else { Ans::Silent }
        } else {
            Ans::Yes(v)
        }
    }
}

#[derive(Default)]
struct Log {
    retrieved: Vec<(String, String)>,
    cached: Vec<CachePoW>,
    results: Vec<(String, String, u64)>,
    verified: Vec<(String, String)>,
    deleted: usize,
    visits: Vec<String>,
    others: usize,
}
struct FakeCache {
    log: Rc<RefCell<Log>>,
    retrieve: Ans<Option<CachedPoWConfig>>,
    store: Ans<()>,
    verify: Ans<bool>,
}
impl Actor for FakeCache {
    type Context = Context<Self>;
}
impl Save for FakeCache {}
impl Handler<RetrivePoW> for FakeCache {
    type Result = MessageResult<RetrivePoW>;
    fn handle(&mut self, m: RetrivePoW, _: &mut Self::Context) -> Self::Result {
        self.log.borrow_mut().retrieved.push((m.0.token, m.0.key));
        MessageResult(self.retrieve.rx())
    }
}
impl Handler<CachePoW> for FakeCache {
    type Result = MessageResult<CachePoW>;
    fn handle(&mut self, m: CachePoW, _: &mut Self::Context) -> Self::Result {
        self.log.borrow_mut().cached.push(m);
        MessageResult(self.store.rx())
    }
}
impl Handler<DeletePoW> for FakeCache {
    type Result = MessageResult<DeletePoW>;
    fn handle(&mut self, _: DeletePoW, _: &mut Self::Context) -> Self::Result {
        self.log.borrow_mut().deleted += 1;
        MessageResult(Ok(()))
    }
}
impl Handler<CacheResult> for FakeCache {
    type Result = MessageResult<CacheResult>;
    fn handle(&mut self, m: CacheResult, _: &mut Self::Context) -> Self::Result {
        self.log.borrow_mut().results.push((m.token, m.key, m.duration));
        MessageResult(self.store.rx())
    }
}
impl Handler<VerifyCaptchaResult> for FakeCache {
    type Result = MessageResult<VerifyCaptchaResult>;
    fn handle(&mut self, m: VerifyCaptchaResult, _: &mut Self::Context) -> Self::Result {
        self.log.borrow_mut().verified.push((m.token, m.key));
        MessageResult(self.verify.rx())
    }
}
impl Handler<DeleteCaptchaResult> for FakeCache {
    type Result = MessageResult<DeleteCaptchaResult>;
    fn handle(&mut self, _: DeleteCaptchaResult, _: &mut Self::Context) -> Self::Result {
        self.log.borrow_mut().deleted += 1;
        MessageResult(Ok(()))
    }
}
struct FakeMaster {
    log: Rc<RefCell<Log>>,
    visit: Ans<Option<AddVisitorResult>>,
}
impl Actor for FakeMaster {
    type Context = Context<Self>;
}
impl MasterTrait for FakeMaster {}
impl Handler<AddVisitor> for FakeMaster {
    type Result = MessageResult<AddVisitor>;
    fn handle(&mut self, m: AddVisitor, _: &mut Self::Context) -> Self::Result {
        self.log.borrow_mut().visits.push(m.0);
        MessageResult(self.visit.rx())
    }
}
macro_rules! ignore { ($($t:ty => $r:ty),*) => { $(impl Handler<$t> for FakeMaster {
    type Result = MessageResult<$t>;
    fn handle(&mut self, _: $t, _: &mut Self::Context) -> Self::Result { self.log.borrow_mut().others += 1; MessageResult(Ans::<$r>::Fail.rx()) }
})* } }
ignore!(AddSite => (), Rename => (), RemoveCaptcha => (), SetInternalData => (), GetInternalData => HashMap<String, libmcaptcha::MCaptcha>);

/// stops at once when told to
struct Die;
impl Message for Die {
    type Result = ();
}
impl Handler<Die> for FakeCache {
    type Result = ();
    fn handle(&mut self, _: Die, c: &mut Self::Context) {
        c.stop()
    }
}
impl Handler<Die> for FakeMaster {
    type Result = ();
    fn handle(&mut self, _: Die, c: &mut Self::Context) {
        c.stop()
    }
}

struct Setup {
    log: Rc<RefCell<Log>>,
    sys: System<FakeCache, FakeMaster>,
    pow: Config,
}
fn config(r: &mut Rng) -> Config {
    ConfigBuilder::default().salt(format!("salt{}", r.below(100))).build().unwrap()
}
/// the greatest difficulty that work meets
fn strength(pow: &Config, w: &PoW<String>) -> u32 {
    let (mut lo, mut hi) = (1u32, u32::MAX);
    while lo < hi {
        let mid = lo + (hi - lo).div_ceil(2);
        if pow.is_sufficient_difficulty(w, mid) {
            lo = mid;
        } else {
            hi = mid - 1;
        }
    }
    lo
}
async fn setup(
    r: &mut Rng,
    retrieve: Ans<Option<CachedPoWConfig>>,
    store: Ans<()>,
    verify: Ans<bool>,
    visit: Ans<Option<AddVisitorResult>>,
    cache_dead: bool,
    master_dead: bool,
    runners: usize,
    queue: usize,
) -> Setup {
    let log = Rc::new(RefCell::new(Log::default()));
    let pow = config(r);
    let cache = FakeCache { log: log.clone(), retrieve, store, verify }.start();
    let master = FakeMaster { log: log.clone(), visit }.start();
    if cache_dead {
        let _ = cache.send(Die).await;
    }
    if master_dead {
        let _ = master.send(Die).await;
    }
    let sys = SystemBuilder::default().master(master).cache(cache).pow(pow.clone()).runners(runners).queue_length(queue).build();
    Setup { log, sys, pow }
}

/// some work for a challenge: valid, too weak, or broken in one way
fn work(r: &mut Rng, pow: &Config, string: &str, factor: u32, key: &str, t: &Trace) -> Work {
    let s = string.to_string();
    let p = match r.below(8) {
        0 => pow.prove_work(&s, 1).unwrap(),
        1 => pow.prove_work(&format!("{s}x"), factor).unwrap(),
        2 => pow.prove_work(&s, 2).unwrap(),
        _ => pow.prove_work(&s, factor).unwrap(),
    };
    let mut w = Work { string: s, result: p.result, nonce: p.nonce, key: key.into() };
    match r.below(13) {
        0 => w.nonce = w.nonce.wrapping_add(1),
        1 => w.result = u128::MAX.to_string(),
        2 => w.result.push('0'),
        3 => w.result = "not a number".into(),
        4 => w.result = format!("0{}", w.result),
        5 => w.result = format!("+{}", w.result),
        6 => w.nonce |= 1 << r.range(32, 63),
        7 => w.result.push(' '),
        8 => w.result.insert(0, ' '),
        _ => (),
    }
    t.log(format!("{w:?}, required factor {factor}"));
    w
}
fn passes(pow: &Config, w: &Work, string: &str, factor: u32) -> bool {
    let p: PoW<String> = mcaptcha_pow_sha256::PoWBuilder::default().result(w.result.clone()).nonce(w.nonce).build().unwrap();
    pow.is_sufficient_difficulty(&p, factor) && pow.is_valid_proof(&p, &string.to_string())
}

pub async fn c09(mut r: Rng, t: Trace) -> R {
    if r.chance(15) {
        return once(r, t).await;
    }
    let string = if r.chance(10) { String::new() } else { format!("challenge{}", r.below(1000)) };
    if r.chance(8) {
        return no_verdict(r, t, string).await;
    }
    // setup draws the same one
    let pow = config(&mut r.clone());
    let again = r.clone();
    r.below(1);
    let mut factor = r.range(1, 60) as u32;
    // just as strong as required, or one too weak
    let edge = r.below(6);
    if edge < 2 {
        let p = pow.prove_work(&string, r.range(1, 8) as u32).unwrap();
        factor = strength(&pow, &p).saturating_add(edge as u32);
    }
    let key = if r.chance(50) { "site" } else { "" };
    let minted = if r.chance(25) { *r.pick(&["other", "Site", "site ", ""]) } else { key };
    let cfg = CachedPoWConfig { key: minted.into(), difficulty_factor: factor, duration: r.range(1, 100) };
    let found = if r.chance(15) { None } else { Some(cfg.clone()) };
    let retrieve = Ans::or(&mut r, found, 15);
    let store = Ans::or(&mut r, (), 20);
    let dead = r.chance(5);
    let (a, b) = (r.range(1, 3) as usize, r.range(1, 5) as usize);
    t.log(format!("cache answers {retrieve:?}, storing {store:?}, cache gone: {dead}"));
    let s = setup(&mut again.clone(), retrieve.clone(), store.clone(), Ans::Fail, Ans::Fail, dead, false, a, b).await;
    let w = if edge < 2 {
        let p = (1..9).map(|d| pow.prove_work(&string, d).unwrap()).find(|p| strength(&pow, p) == factor - edge as u32).unwrap();
        let w = Work { string: string.clone(), result: p.result, nonce: p.nonce, key: key.into() };
        t.log(format!("{w:?}, required factor {factor}"));
        w
    } else {
        work(&mut r, &s.pow, &string, factor, key, &t)
    };
    let good = passes(&s.pow, &w, &string, factor);
    let out = s.sys.verify_pow(w.clone(), "ip".into()).await;
    t.log(format!("verify_pow gave {out:?}"));
    let log = s.log.borrow();
    let earned = !dead && retrieve == Ans::Yes(Some(cfg.clone())) && minted == key && good;
    if !dead {
        chk!(log.retrieved == vec![(string.clone(), key.to_string())], "asked the cache for {:?}", log.retrieved);
    }
    if earned {
        chk!(log.results.len() == 1, "valid work stored {} tokens", log.results.len());
        let (tok, k, d) = log.results[0].clone();
        chk!(k == key && d == cfg.duration, "the token was stored for {k:?} with duration {d}, expected {key:?} and {}", cfg.duration);
        match (&out, &store) {
            (Ok((x, f)), Ans::Yes(())) => chk!(*x == tok && *f == factor, "returned token {x:?} with factor {f}, stored {tok:?}, cached factor {factor}"),
            (Err(_), Ans::Yes(())) => return Err(format!("valid work was answered with {out:?}")),
            (Ok(_), _) => return Err("a token was returned although storing it failed".into()),
            _ => (),
        }
    } else {
        chk!(out.is_err(), "work that earns nothing was answered with {out:?}");
        chk!(log.results.is_empty(), "a token was stored for work that earns nothing");
    }
    Ok(())
}
/// the worker ends without a verdict (no difficulty is defined for the factor 0; the check panics on it)
async fn no_verdict(mut r: Rng, t: Trace, string: String) -> R {
    let cfg = CachedPoWConfig { key: "site".into(), difficulty_factor: 0, duration: 10 };
    // shutting down a queue with such a worker is not this property's business
    let s = std::mem::ManuallyDrop::new(setup(&mut r, Ans::Yes(Some(cfg)), Ans::Yes(()), Ans::Fail, Ans::Fail, false, false, 2, 4).await);
    let w = work(&mut r, &s.pow, &string, 1, "site", &t);
    t.log("cached with factor 0");
    let out = actix::clock::timeout(Duration::from_secs(20), s.sys.verify_pow(w, "ip".into())).await;
    t.log(format!("verify_pow gave {out:?}"));
    // unanswered or refused, both are fine
    chk!(!matches!(out, Ok(Ok(_))), "work that was never checked was answered with {out:?}");
    chk!(s.log.borrow().results.is_empty(), "a token was stored for work that was never checked");
    Ok(())
}
/// with the real cache: a challenge earns one token at most
async fn once(mut r: Rng, t: Trace) -> R {
    let pow: Config = ConfigBuilder::default().salt("s".into()).build().unwrap();
    let cache = HashCache::default().start();
    let log = Rc::new(RefCell::new(Log::default()));
    let res = AddVisitorResult { duration: 1000, difficulty_factor: r.range(2, 30) as u32 };
    let master = FakeMaster { log, visit: Ans::Yes(Some(res)) }.start();
    let sys = SystemBuilder::default().master(master).cache(cache).pow(pow.clone()).runners(2).queue_length(4).build();
    let c = sys.get_pow("site".into()).await.map_err(|e| format!("{e:?}"))?.ok_or("no challenge")?;
    let p = pow.prove_work(&c.string, c.difficulty_factor).unwrap();
    let mut w = Work { string: c.string.clone(), result: p.result, nonce: p.nonce, key: "site".into() };
    let first = r.below(3);
    if first == 0 {
        w.key = "other".into();
    } else if first == 1 {
        w.result = "1".into();
    }
    t.log(format!("get_pow, then {w:?}"));
    let a = sys.verify_pow(w.clone(), "1".into()).await;
    chk!(a.is_ok() == (first == 2), "first submission of {w:?} gave {a:?}");
    w.key = "site".into();
    if first == 1 {
        w.result = pow.prove_work(&c.string, c.difficulty_factor).unwrap().result;
    }
    t.log(format!("then {w:?}"));
    let b = sys.verify_pow(w.clone(), "1".into()).await;
    chk!(b.is_err(), "the challenge was redeemed twice: {a:?}, {b:?}");
    if let Ok((tok, _)) = a {
        for (k, want) in [("site", true), ("site", false)] {
            let x = sys.validate_verification_tokens(VerifyCaptchaResult { token: tok.clone(), key: k.into() }).await;
            chk!(x == Ok(want), "verifying the token for {k} gave {x:?}, expected {want}");
        }
    }
    Ok(())
}

pub async fn c10(mut r: Rng, t: Trace) -> R {
    let res = AddVisitorResult { duration: r.range(1, u64::MAX - 1), difficulty_factor: r.count().max(1) };
    let known = r.chance(75);
    let bad = r.chance(20);
    let visit: Ans<Option<(u64, u32)>> = if bad { if r.chance(50) { Ans::Fail } else { Ans::Silent } } else { Ans::Yes(known.then_some((res.duration, res.difficulty_factor))) };
    let store = Ans::or(&mut r, (), 25);
    let (cd, md) = (r.chance(6), r.chance(6));
    t.log(format!("master answers {visit:?}, storing {store:?}, cache gone: {cd}, master gone: {md}"));
    let v = match &visit {
        Ans::Yes(x) => Ans::Yes(x.map(|(duration, difficulty_factor)| AddVisitorResult { duration, difficulty_factor })),
        Ans::Fail => Ans::Fail,
        Ans::Silent => Ans::Silent,
    };
    let s = setup(&mut r, Ans::Fail, store.clone(), Ans::Fail, v, cd, md, 1, 1).await;
    let id = r.pick(&["site", "", "a b"]).to_string();
    t.log(format!("get_pow({id:?})"));
    let out = s.sys.get_pow(id.clone()).await;
    t.log(format!("gave {out:?}"));
    let log = s.log.borrow();
    chk!(log.visits == if md { vec![] } else { vec![id.clone()] }, "visits recorded: {:?}", log.visits);
    chk!(log.others == 0, "other requests reached the master");
    let answered = !md && !bad && known;
    if answered && !cd {
        chk!(log.cached.len() == 1, "{} challenges were cached", log.cached.len());
        let c = &log.cached[0];
        chk!(c.key == id && c.difficulty_factor == res.difficulty_factor && c.duration == res.duration, "cached for {:?} with factor {} and duration {}", c.key, c.difficulty_factor, c.duration);
        if store == Ans::Yes(()) {
            match &out {
                Ok(Some(p)) => chk!(p.string == c.string && p.difficulty_factor == res.difficulty_factor && p.salt == s.pow.salt, "handed out {p:?}, cached {:?}", c.string),
                _ => return Err(format!("a registered site's request was answered with {out:?}")),
            }
        }
    } else {
        chk!(log.cached.is_empty(), "a challenge was cached although the site did not answer");
    }
    if !answered || cd || store != Ans::Yes(()) {
        chk!(!matches!(out, Ok(Some(_))), "a challenge was handed out although something failed: {out:?}");
    }
    Ok(())
}

pub fn c11(r: &mut Rng, t: &Trace) -> R {
    let pow: Config = ConfigBuilder::default().salt(format!("s{}", r.below(9))).build().unwrap();
    let string = format!("c{}", r.below(1000));
    let factor = if r.chance(10) { u32::MAX } else { r.range(1, 60) as u32 };
    let w = work(r, &pow, &string, factor.min(60), "k", t);
    let p: PoW<String> = w.clone().into();
    chk!(p.nonce == w.nonce && p.result == w.result, "the submitted work became {p:?}");
    let checked = if r.chance(20) { format!("{string}x") } else { string };
    // just strong enough, or one too weak
    let factor = if r.chance(25) && pow.is_sufficient_difficulty(&p, 1) { strength(&pow, &p).saturating_add(r.below(2) as u32) } else { factor };
    t.log(format!("checked against {checked:?}, factor {factor}"));
    let want = passes(&pow, &w, &checked, factor);
    let (job, rx) = QueuedWork::new(Arc::new(pow), p, checked, factor);
    let b: Box<dyn Runnable> = Box::new(job);
    // later verdicts may find the channel full: nobody but the first one's reader waits for them
    let h = std::thread::spawn(move || b.run());
    let got = rx.recv_timeout(Duration::from_secs(20));
    drop(rx);
    chk!(h.join().is_ok(), "the worker panicked after the verdict {got:?}");
    chk!(got == Ok(want), "the first verdict is {got:?}, expected {want}");
    Ok(())
}

pub async fn c07(mut r: Rng, t: Trace) -> R {
    let b = r.chance(50);
    let ans = Ans::or(&mut r, b, 30);
    let dead = r.chance(10);
    let (tok, key) = (format!("t{}", r.below(10)), format!("k{}", r.below(10)));
    t.log(format!("cache answers {ans:?}, gone: {dead}; validate_verification_tokens({tok}, {key})"));
    let s = setup(&mut r, Ans::Fail, Ans::Fail, ans.clone(), Ans::Fail, dead, false, 1, 1).await;
    let x = s.sys.validate_verification_tokens(VerifyCaptchaResult { token: tok.clone(), key: key.clone() }).await;
    match (ans, dead) {
        (Ans::Yes(b), false) => chk!(x == Ok(b), "the cache said {b}, the caller was told {x:?}"),
        _ => chk!(x.is_err(), "verification failed, the caller was told {x:?}"),
    }
    chk!(s.log.borrow().verified == if dead { vec![] } else { vec![(tok.clone(), key.clone())] }, "asked the cache about {:?}", s.log.borrow().verified);
    Ok(())
}

pub async fn c14(mut r: Rng, t: Trace) -> R {
    let q = r.below(3) as usize;
    let runners = r.range(1, 3) as usize;
    let factor = 2;
    let cfg = CachedPoWConfig { key: "k".into(), difficulty_factor: factor, duration: 9 };
    let s = setup(&mut r, Ans::Yes(Some(cfg)), Ans::Yes(()), Ans::Fail, Ans::Fail, false, false, runners, q).await;
    t.log(format!("{runners} workers, queue length {q}"));
    for i in 0..r.range(1, 8) {
        let c = format!("c{i}");
        let p = s.pow.prove_work(&c, factor).unwrap();
        let ip = format!("{}", r.below(4));
        t.log(format!("submission from {ip}"));
        let x = s.sys.verify_pow(Work { string: c, result: p.result, nonce: p.nonce, key: "k".into() }, ip).await;
        if q == 0 {
            chk!(x == Err(CaptchaError::QueueFull), "with no room a submission was answered with {x:?}");
        } else {
            chk!(x.is_ok(), "with nothing waiting a submission was answered with {x:?}");
        }
    }
    Ok(())
}

fn fine(s: &str, n: usize) -> R {
    chk!(s.len() == n && s.chars().all(|c| c.is_ascii_alphanumeric()), "{s:?} is not {n} ASCII alphanumerics");
    Ok(())
}
pub fn c21(r: &mut Rng, t: &Trace) -> R {
    let mut all: HashMap<char, usize> = HashMap::new();
    let mut first: HashMap<char, usize> = HashMap::new();
    let mut seen = std::collections::HashSet::new();
    t.log("300 strings");
    let mut same = vec![0usize; 32 * 32];
    let mut n_seen = 0;
    for _ in 0..150 {
        let (f, salt) = (r.count(), r.pick(&["s", "", "a much longer salt than usual, longer than a string"]).to_string());
        let a = PoWConfig::new(f, salt.clone());
        chk!(a.difficulty_factor == f && a.salt == salt, "PoWConfig::new({f}, {salt:?}) gave {a:?}");
        let (d, f) = (*r.pick(&[0u64, 1, 30, 300, 3601, 100_000, 1 << 33, u64::MAX]), r.count());
        let key = r.pick(&["k", "", "0123456789012345678901234567890123456789"]).to_string();
        let b: CacheResult = CachedPoWConfig { key: key.clone(), difficulty_factor: f, duration: d }.into();
        chk!(b.key == key && b.duration == d, "a token for {:?} lasting {}", b.key, b.duration);
        for s in [a.string, b.token] {
            fine(&s, 32)?;
            for c in s.chars() {
                *all.entry(c).or_default() += 1;
            }
            let c: Vec<char> = s.chars().collect();
            for i in 0..32 {
                for j in 0..i {
                    same[i * 32 + j] += (c[i] == c[j]) as usize;
                }
            }
            n_seen += 1;
            *first.entry(s.chars().next().unwrap()).or_default() += 1;
            chk!(seen.insert(s.clone()), "{s:?} came twice");
        }
    }
    // two places agree in one string of 62: in 60 of 300 with probability below 1e-40
    for (i, n) in same.iter().enumerate() {
        chk!(*n < 60, "the characters {} and {} agree in {n} of {n_seen} strings", i % 32, i / 32);
    }
    // 9600 draws: a character expected 154 times stays within 60..320 except with probability below 1e-12
    chk!(all.len() == 62, "only {} characters are ever drawn", all.len());
    for (c, n) in &all {
        chk!((60..=320).contains(n), "{c:?} was drawn {n} times of 9600");
    }
    chk!(first.len() > 40, "the first character takes only {} values", first.len());
    let n = *r.pick(&[0usize, 1, 2, 31, 33, 64, 100, 1000]);
    t.log(format!("get_random({n})"));
    fine(&get_random(n), n)?;
    // neither do several threads at once
    if r.chance(10) {
        t.log("eight threads");
        let ths: Vec<_> = (0..8).map(|i| std::thread::spawn(move || (0..2000).map(|_| match i % 3 {
            0 => get_random(32),
            1 => PoWConfig::new(1, String::new()).string,
            _ => CacheResult::from(CachedPoWConfig { key: String::new(), difficulty_factor: 1, duration: 1 }).token,
        }).collect::<Vec<_>>())).collect();
        for th in ths {
            for s in th.join().map_err(|_| "a thread panicked")? {
                chk!(seen.insert(s.clone()), "{s:?} came twice");
            }
        }
    }
    // another process draws something else
    if r.chance(20) {
        let me = std::env::current_exe().unwrap();
        let run = || String::from_utf8_lossy(&std::process::Command::new(&me).arg("rng").output().unwrap().stdout).to_string();
        let (a, b) = (run(), run());
        t.log("two processes");
        chk!(a != b, "two processes drew the same {a:?}");
    }
    Ok(())
}
pub async fn c21_system(mut r: Rng, t: Trace) -> R {
    let res = AddVisitorResult { duration: 100, difficulty_factor: 2 };
    let cfg = CachedPoWConfig { key: "k".into(), difficulty_factor: 2, duration: 9 };
    let s = setup(&mut r, Ans::Yes(Some(cfg)), Ans::Yes(()), Ans::Fail, Ans::Yes(Some(res)), false, false, 1, 4).await;
    t.log("get_pow and verify_pow");
    let mut seen = std::collections::HashSet::new();
    for _ in 0..5 {
        let c = s.sys.get_pow("k".into()).await.map_err(|e| format!("{e:?}"))?.ok_or("no challenge")?;
        fine(&c.string, 32)?;
        let p = s.pow.prove_work(&c.string, 2).unwrap();
        let (tok, _) = s.sys.verify_pow(Work { string: c.string.clone(), result: p.result, nonce: p.nonce, key: "k".into() }, "1".into()).await.map_err(|e| format!("{e:?}"))?;
        fine(&tok, 32)?;
        chk!(seen.insert(c.string) && seen.insert(tok), "a string came twice");
    }
    Ok(())
}
