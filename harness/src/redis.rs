//! A server on the loopback interface that speaks the Redis protocol, records every command and answers with well-formed,
//! strange and failing replies; what each requester is told is compared with what the server answered to that requester's command.
use crate::defense::{captcha, levels};
use crate::util::*;
use actix::prelude::*;
use libmcaptcha::cache::messages::*;
use libmcaptcha::cache::redis::RedisCache;
use libmcaptcha::cache::AddChallenge;
use libmcaptcha::errors::CaptchaError as E;
use libmcaptcha::master::messages::{AddSite, AddVisitor, RemoveCaptcha, Rename};
use libmcaptcha::master::redis::master::Master;
use libmcaptcha::redis::mcaptcha_redis::{MCaptchaRedis, MCaptchaRedisConnection};
use libmcaptcha::redis::RedisConfig;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::sync::{Arc, Mutex};

type Args = Vec<String>;

#[derive(Clone, Debug, PartialEq)]
enum Reply {
    Nil,
    Int(i64),
    Bulk(String),
    Simple(&'static str),
    Arr(Vec<Reply>),
    Error,
    /// the connection is dropped without an answer
    Close,
}
impl Reply {
    fn encode(&self) -> Vec<u8> {
        match self {
            Reply::Nil => b"$-1\r\n".to_vec(),
            Reply::Int(n) => format!(":{n}\r\n").into_bytes(),
            Reply::Bulk(s) => format!("${}\r\n{s}\r\n", s.len()).into_bytes(),
            Reply::Simple(s) => format!("+{s}\r\n").into_bytes(),
            Reply::Arr(v) => {
                let mut o = format!("*{}\r\n", v.len()).into_bytes();
                v.iter().for_each(|x| o.extend(x.encode()));
                o
            }
            Reply::Error => b"-ERR no such thing\r\n".to_vec(),
            Reply::Close => vec![],
        }
    }
    fn failed(&self) -> bool {
        matches!(self, Reply::Error | Reply::Close)
    }
}

struct State {
    rng: Rng,
    /// percentage of replies that are failures or nonsense
    faults: u64,
    log: Vec<(Args, Reply)>,
    /// key -> value, seconds to live
    store: HashMap<String, (String, String)>,
    modules: Vec<&'static str>,
    missing: Option<&'static str>,
    /// fails the n-th command of a handshake
    fail_at: Option<usize>,
}
impl State {
    fn json(&mut self) -> String {
        let d = *self.rng.pick(&[0u64, 1, 30, u64::MAX, 1 << 33]);
        let f = self.rng.count();
        format!("{{\"duration\":{d},\"difficulty_factor\":{f}}}")
    }
    fn odd(&mut self) -> Reply {
        match self.rng.below(14) {
            0 => Reply::Nil,
            1 => Reply::Int(-1),
            2 => Reply::Int(2),
            3 => Reply::Int(*self.rng.pick(&[i64::MAX, i64::MIN, 1 << 32, (1 << 32) + 1])),
            4 => Reply::Bulk("{\"duration\":1}".into()),
            5 => Reply::Bulk("{\"duration\":-1,\"difficulty_factor\":4294967296}".into()),
            6 => Reply::Bulk(String::new()),
            7 => Reply::Arr(vec![]),
            8 => Reply::Arr(vec![Reply::Nil, Reply::Bulk("nonsense".into())]),
            9 => Reply::Close,
            10 => Reply::Bulk("{\"difficulty_factor\":3}".into()),
            11 => Reply::Bulk(r#"{"duration":"30","difficulty_factor":3}"#.into()),
            12 => Reply::Bulk(self.rng.pick(&["{}", "null", "{\"duration\":1,\"difficulty_factor\":null}", "{\"duration\":1.5,\"difficulty_factor\":2}", "{\"duration\":1,\"difficulty_factor\":2"]).to_string()),
            _ => Reply::Error,
        }
    }
    fn answer(&mut self, a: &Args) -> Reply {
        let n = self.log.len();
        if self.fail_at == Some(n) {
            return self.rng.pick(&[Reply::Error, Reply::Close]).clone();
        }
        let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
        match s[..] {
            ["MODULE", "LIST"] => Reply::Arr(self.modules.iter().map(|m| Reply::Arr(vec![Reply::Bulk("name".into()), Reply::Bulk(m.to_string()), Reply::Bulk("ver".into()), Reply::Int(1)])).collect()),
            ["COMMAND", "INFO", c] => Reply::Arr(vec![if self.missing == Some(c) { Reply::Nil } else { Reply::Arr(vec![Reply::Bulk(c.to_lowercase()), Reply::Int(2)]) }]),
            _ if self.rng.chance(self.faults) => {
                let o = self.odd();
                // for a command whose reply carries nothing, only failures are faults
                if matches!(s[0], "SET" | "MCAPTCHA_CACHE.DELETE_CAPTCHA" | "MCAPTCHA_CACHE.ADD_CAPTCHA" | "MCAPTCHA_CACHE.RENAME_CAPTCHA" | "MCAPTCHA_CACHE.ADD_CHALLENGE" | "MCAPTCHA_CACHE.DELETE_CHALLENGE") && !o.failed() {
                    Reply::Simple("OK")
                } else {
                    o
                }
            }
            ["SET", k, v, "EX", d] => {
                self.store.insert(k.into(), (v.into(), d.into()));
                Reply::Simple("OK")
            }
            ["DEL", k] => Reply::Int(self.store.remove(k).is_some() as i64),
            ["GETDEL", k] | ["GET", k] => self.store.get(k).map(|v| Reply::Bulk(v.0.clone())).unwrap_or(Reply::Nil),
            ["EXISTS", k] => Reply::Int(self.store.contains_key(k) as i64),
            ["PING"] => Reply::Simple("PONG"),
            ["MCAPTCHA_CACHE.GET", ..] => Reply::Int(*self.rng.pick(&[0, 1, 2, 7, u32::MAX as i64])),
            ["MCAPTCHA_CACHE.CAPTCHA_EXISTS", ..] => Reply::Int(self.rng.below(2) as i64),
            ["MCAPTCHA_CACHE.ADD_VISITOR", ..] | ["MCAPTCHA_CACHE.GET_CHALLENGE", ..] => Reply::Bulk(self.json()),
            _ => Reply::Simple("OK"),
        }
    }
}

pub struct Server {
    port: u16,
    st: Arc<Mutex<State>>,
    open: Arc<Mutex<Option<Vec<TcpStream>>>>,
}
impl Drop for Server {
    fn drop(&mut self) {
        if let Some(v) = self.open.lock().unwrap().take() {
            v.iter().for_each(|c| {
                let _ = c.shutdown(Shutdown::Both);
            });
        }
        let _ = TcpStream::connect(("127.0.0.1", self.port));
    }
}

fn read_command(i: &mut BufReader<TcpStream>) -> Option<Args> {
    fn num(i: &mut BufReader<TcpStream>, p: char) -> Option<usize> {
        let mut l = String::new();
        i.read_line(&mut l).ok()?;
        l.trim_end().strip_prefix(p)?.parse().ok()
    }
    let n = num(i, '*')?;
    (0..n)
        .map(|_| {
            let mut b = vec![0; num(i, '$')? + 2];
            i.read_exact(&mut b).ok()?;
            b.truncate(b.len() - 2);
            Some(String::from_utf8_lossy(&b).into_owned())
        })
        .collect()
}

impl Server {
    fn start(rng: Rng, faults: u64) -> Server {
        let l = TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        let st = Arc::new(Mutex::new(State { rng, faults, log: vec![], store: HashMap::new(), modules: vec!["search", "mcaptcha_cache"], missing: None, fail_at: None }));
        let open = Arc::new(Mutex::new(Some(vec![])));
        let (s2, o2) = (st.clone(), open.clone());
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                match o2.lock().unwrap().as_mut() {
                    Some(v) => v.push(c.try_clone().unwrap()),
                    None => return,
                }
                let s3 = s2.clone();
                std::thread::spawn(move || {
                    let _ = c.set_nodelay(true);
                    let mut o = c.try_clone().unwrap();
                    let mut i = BufReader::new(c);
                    while let Some(a) = read_command(&mut i) {
                        let rep = if matches!(a[0].as_str(), "CLIENT" | "HELLO" | "AUTH" | "SELECT") {
                            Reply::Simple("OK")
                        } else {
                            let mut s = s3.lock().unwrap();
                            let rep = s.answer(&a);
                            s.log.push((a, rep.clone()));
                            rep
                        };
                        if rep == Reply::Close || o.write_all(&rep.encode()).is_err() {
                            let _ = o.shutdown(Shutdown::Both);
                            return;
                        }
                    }
                });
            }
        });
        Server { port, st, open }
    }
    fn config(&self) -> RedisConfig {
        RedisConfig::Single(format!("redis://127.0.0.1:{}", self.port))
    }
    fn log(&self) -> Vec<(Args, Reply)> {
        std::mem::take(&mut self.st.lock().unwrap().log)
    }
}

#[derive(Clone, Debug)]
enum Op {
    AddVisitor(String),
    AddSite(String, Vec<(u32, u32)>, u64),
    Exists(String),
    DeleteCaptcha(String),
    Rename(String, String),
    AddChallenge(String, String, u32, u64),
    GetChallenge(String, String),
    DeleteChallenge(String, String),
    Visitors(String),
    AddToken(String, String, u64),
    GetToken(String, String),
    DeleteToken(String, String),
    Ping,
}
#[derive(Clone, Debug, PartialEq)]
enum Out {
    Unit,
    Flag(bool),
    Count(usize),
    Challenge(u64, u32),
    Config(String, u32, u64),
    Failed,
}
fn out<T>(r: Result<T, E>, f: impl FnOnce(T) -> Out) -> Out {
    r.map(f).unwrap_or(Out::Failed)
}

impl Op {
    fn command(&self) -> (&'static str, Vec<String>) {
        let v = |a: &[&String]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>();
        match self {
            Op::AddVisitor(k) => ("MCAPTCHA_CACHE.ADD_VISITOR", v(&[k])),
            Op::AddSite(k, ..) => ("MCAPTCHA_CACHE.ADD_CAPTCHA", v(&[k])),
            Op::Exists(k) => ("MCAPTCHA_CACHE.CAPTCHA_EXISTS", v(&[k])),
            Op::DeleteCaptcha(k) => ("MCAPTCHA_CACHE.DELETE_CAPTCHA", v(&[k])),
            Op::Rename(a, b) => ("MCAPTCHA_CACHE.RENAME_CAPTCHA", v(&[a, b])),
            Op::AddChallenge(k, ..) => ("MCAPTCHA_CACHE.ADD_CHALLENGE", v(&[k])),
            Op::GetChallenge(k, t) => ("MCAPTCHA_CACHE.GET_CHALLENGE", v(&[k, t])),
            Op::DeleteChallenge(k, t) => ("MCAPTCHA_CACHE.DELETE_CHALLENGE", v(&[k, t])),
            Op::Visitors(k) => ("MCAPTCHA_CACHE.GET", v(&[k])),
            Op::AddToken(k, ..) => ("SET", v(&[k])),
            Op::GetToken(..) | Op::DeleteToken(..) => ("DEL", vec![]),
            Op::Ping => ("PING", vec![]),
        }
    }
    /// the command this operation stands for
    fn is(&self, a: &Args) -> bool {
        let (name, lead) = self.command();
        if a[0] != name {
            return false;
        }
        let json = |s: &String| serde_json::from_str::<serde_json::Value>(s).ok();
        match self {
            Op::AddSite(_, ls, d) => {
                let ls: Vec<_> = ls.iter().map(|l| serde_json::json!({"visitor_threshold": l.0, "difficulty_factor": l.1})).collect();
                a.len() == 3 && a[1] == lead[0] && json(&a[2]) == Some(serde_json::json!({"levels": ls, "duration": d}))
            }
            Op::AddChallenge(_, c, f, d) => a.len() == 3 && a[1] == lead[0] && json(&a[2]) == Some(serde_json::json!({"difficulty": f, "duration": d, "challenge": c})),
            // which record is C19's business
            Op::AddToken(k, t, d) => a.len() == 5 && a[1].contains(t) && a[2] == *k && a[3].eq_ignore_ascii_case("EX") && a[4] == d.to_string(),
            Op::GetToken(k, t) | Op::DeleteToken(k, t) => a.len() == 2 && a[1].contains(k) && a[1].contains(t),
            _ => a[1..] == lead[..],
        }
    }
    fn expect(&self, rep: &Reply) -> Out {
        if rep.failed() {
            return match self {
                Op::Ping => Out::Flag(false),
                _ => Out::Failed,
            };
        }
        let parsed = || match rep {
            Reply::Bulk(s) => serde_json::from_str::<serde_json::Value>(s).ok().and_then(|v| Some((v["duration"].as_u64()?, u32::try_from(v["difficulty_factor"].as_u64()?).ok()?))),
            _ => None,
        };
        match self {
            Op::AddVisitor(_) => parsed().map(|x| Out::Challenge(x.0, x.1)).unwrap_or(Out::Failed),
            Op::GetChallenge(k, _) => parsed().map(|x| Out::Config(k.clone(), x.1, x.0)).unwrap_or(Out::Failed),
            Op::Exists(_) => match rep {
                Reply::Int(1) => Out::Flag(false),
                Reply::Int(0) => Out::Flag(true),
                _ => Out::Failed,
            },
            Op::GetToken(..) => match rep {
                Reply::Int(1) => Out::Flag(true),
                Reply::Int(0) => Out::Flag(false),
                _ => Out::Failed,
            },
            Op::Visitors(_) => match rep {
                Reply::Int(n) if *n >= 0 => Out::Count(*n as usize),
                _ => Out::Failed,
            },
            Op::Ping => Out::Flag(*rep == Reply::Simple("PONG")),
            _ => Out::Unit,
        }
    }
}

fn name(r: &mut Rng, n: &mut u64) -> String {
    *n += 1;
    let odd = ["", " ", ":", "\r\n", "é", "\u{1F600}", "\"", "\\", "{}", "%s", "3:a:b", "\0"];
    format!("{}#{n}#{}", r.pick(&odd), r.pick(&odd))
}
fn op(r: &mut Rng, n: &mut u64, kinds: &[u64]) -> (Op, Option<libmcaptcha::MCaptcha>) {
    let k = name(r, n);
    let t = name(r, n);
    let d = *r.pick(&[0u64, 1, 9, 10, 3600, u64::MAX, 1 << 40]);
    let mut site = None;
    let o = match *r.pick(kinds) {
        0 => Op::AddVisitor(k),
        1 => {
            let ls = levels(r);
            let m = captcha(r, &ls, d.max(1));
            site = Some(m);
            Op::AddSite(k, ls.iter().map(|l| (l.visitor_threshold, l.difficulty_factor)).collect(), d.max(1))
        }
        2 => Op::DeleteCaptcha(k),
        3 => Op::Rename(k, t),
        4 => Op::AddChallenge(k, t, r.count(), d),
        5 => Op::GetChallenge(k, t),
        6 => Op::AddToken(k, t, d),
        7 => Op::GetToken(k, t),
        8 => Op::Exists(k),
        9 => Op::DeleteChallenge(k, t),
        10 => Op::Visitors(k),
        11 => Op::DeleteToken(k, t),
        _ => Op::Ping,
    };
    (o, site)
}

async fn direct(c: &MCaptchaRedisConnection, o: Op, site: Option<libmcaptcha::MCaptcha>) -> Out {
    let vc = |key, token| VerifyCaptchaResult { key, token };
    match o {
        Op::AddVisitor(k) => out(c.add_visitor(AddVisitor(k)).await, |x| x.map(|x| Out::Challenge(x.duration, x.difficulty_factor)).unwrap_or(Out::Unit)),
        Op::AddSite(id, ..) => out(c.add_mcaptcha(AddSite { id, mcaptcha: site.unwrap() }).await, |_| Out::Unit),
        Op::Exists(k) => out(c.check_captcha_exists(&k).await, Out::Flag),
        Op::DeleteCaptcha(k) => out(c.delete_captcha(&k).await, |_| Out::Unit),
        Op::Rename(a, b) => out(c.rename_captcha(&a, &b).await, |_| Out::Unit),
        Op::AddChallenge(k, challenge, difficulty, duration) => out(c.add_challenge(&k, &AddChallenge { challenge, difficulty, duration }).await, |_| Out::Unit),
        Op::GetChallenge(k, t) => {
            let k2 = k.clone();
            out(c.get_challenge(&vc(k, t)).await, |x| Out::Config(k2, x.difficulty_factor, x.duration))
        }
        Op::DeleteChallenge(k, t) => out(c.delete_challenge(&vc(k, t)).await, |_| Out::Unit),
        Op::Visitors(k) => out(c.get_visitors(&k).await, Out::Count),
        Op::AddToken(key, token, duration) => out(c.add_token(&CacheResult { key, token, duration }).await, |_| Out::Unit),
        Op::GetToken(k, t) => out(c.get_token(&vc(k, t)).await, Out::Flag),
        Op::DeleteToken(k, t) => out(c.delete_token(&vc(k, t)).await, |_| Out::Unit),
        Op::Ping => Out::Flag(c.ping().await),
    }
}

type Answer = std::pin::Pin<Box<dyn std::future::Future<Output = Result<Out, String>>>>;
macro_rules! ask {
    ($addr:expr, $msg:expr, $f:expr) => {{
        let x = $addr.send($msg);
        let x = actix_rt::spawn(async move { x.await });
        Box::pin(async move {
            let rx = x.await.map_err(|e| e.to_string())?.map_err(|e| format!("actor gone: {e}"))?;
            let x = rx.await.map_err(|_| "no answer".to_string())?;
            Ok(out(x, $f))
        })
    }};
}
/// the message is in the mailbox once every ready task ran; awaiting yields the answer
fn post(cache: &Addr<RedisCache>, master: &Addr<Master>, o: Op, site: Option<libmcaptcha::MCaptcha>) -> Answer {
    match o {
        Op::AddVisitor(k) => ask!(master, AddVisitor(k), |x| x.map(|x| Out::Challenge(x.duration, x.difficulty_factor)).unwrap_or(Out::Unit)),
        Op::AddSite(id, ..) => ask!(master, AddSite { id, mcaptcha: site.unwrap() }, |_| Out::Unit),
        Op::DeleteCaptcha(k) => ask!(master, RemoveCaptcha(k), |_| Out::Unit),
        Op::Rename(name, rename_to) => ask!(master, Rename { name, rename_to }, |_| Out::Unit),
        Op::AddChallenge(key, string, difficulty_factor, duration) => ask!(cache, CachePoW { key, string, difficulty_factor, duration }, |_| Out::Unit),
        Op::GetChallenge(key, token) => ask!(cache, RetrivePoW(VerifyCaptchaResult { key, token }), |x| x.map(|x| Out::Config(x.key, x.difficulty_factor, x.duration)).unwrap_or(Out::Unit)),
        Op::AddToken(key, token, duration) => ask!(cache, CacheResult { key, token, duration }, |_| Out::Unit),
        Op::GetToken(key, token) => ask!(cache, VerifyCaptchaResult { key, token }, Out::Flag),
        _ => unreachable!(),
    }
}
fn leave(cache: &Addr<RedisCache>, master: &Addr<Master>, o: Op, site: Option<libmcaptcha::MCaptcha>) {
    match o {
        Op::AddVisitor(k) => master.do_send(AddVisitor(k)),
        Op::AddSite(id, ..) => master.do_send(AddSite { id, mcaptcha: site.unwrap() }),
        Op::DeleteCaptcha(k) => master.do_send(RemoveCaptcha(k)),
        Op::Rename(name, rename_to) => master.do_send(Rename { name, rename_to }),
        Op::AddChallenge(key, string, difficulty_factor, duration) => cache.do_send(CachePoW { key, string, difficulty_factor, duration }),
        Op::GetChallenge(key, token) => cache.do_send(RetrivePoW(VerifyCaptchaResult { key, token })),
        Op::AddToken(key, token, duration) => cache.do_send(CacheResult { key, token, duration }),
        Op::GetToken(key, token) => cache.do_send(VerifyCaptchaResult { key, token }),
        _ => unreachable!(),
    }
}

async fn within<T>(f: impl std::future::Future<Output = T>, what: &str) -> Result<T, String> {
    tokio::time::timeout(std::time::Duration::from_secs(30), f).await.map_err(|_| format!("{what}: no answer within 30 s"))
}

pub async fn run(r: Rng, t: Trace, p: &'static str) -> R {
    match p {
        "C18" => faithful(r, t).await,
        "C19" => tokens(r, t).await,
        _ => survive(r, t).await,
    }
}

const COMMANDS: [&str; 9] = [
    "MCAPTCHA_CACHE.ADD_VISITOR",
    "MCAPTCHA_CACHE.ADD_CAPTCHA",
    "MCAPTCHA_CACHE.DELETE_CAPTCHA",
    "MCAPTCHA_CACHE.CAPTCHA_EXISTS",
    "MCAPTCHA_CACHE.GET",
    "MCAPTCHA_CACHE.ADD_CHALLENGE",
    "MCAPTCHA_CACHE.GET_CHALLENGE",
    "MCAPTCHA_CACHE.DELETE_CHALLENGE",
    "MCAPTCHA_CACHE.RENAME_CAPTCHA",
];

async fn connecting(r: &mut Rng, t: &Trace, s: &Server) -> R {
    for _ in 0..4 {
        let all = ["search", "timeseries", "mcaptcha_cache", "bloom"];
        let modules: Vec<&'static str> = (0..r.below(5)).map(|_| *r.pick(&all)).collect();
        let missing = if r.chance(40) { Some(*r.pick(&COMMANDS)) } else { None };
        let fail_at = if r.chance(30) { Some(r.below(10) as usize) } else { None };
        let who = r.below(3);
        t.log(format!("connect {} to a server with modules {modules:?}, command {missing:?} missing, failing at {fail_at:?}", ["a cache", "a master", "MCaptchaRedis"][who as usize]));
        {
            let mut st = s.st.lock().unwrap();
            st.log.clear();
            st.modules = modules.clone();
            st.missing = missing;
            st.fail_at = fail_at;
        }
        let c = s.config();
        let ok = within(
            async move {
                match who {
                    0 => RedisCache::new(c).await.map(|_| ()),
                    1 => Master::new(c).await.map(|_| ()),
                    _ => MCaptchaRedis::new(c).await.map(|_| ()),
                }
            },
            "connecting",
        )
        .await?;
        let log = s.log();
        let failed = log.iter().any(|x| x.1.failed());
        let usable = modules.contains(&"mcaptcha_cache") && missing.is_none();
        chk!(!(ok.is_ok() && failed), "connected although {:?} failed", log.last());
        chk!(!(ok.is_ok() && !usable), "connected to a server that lacks the module or one of its commands");
        chk!(ok.is_ok() || failed || !usable, "refused a usable server: {ok:?}");
        let mut st = s.st.lock().unwrap();
        st.modules = vec!["mcaptcha_cache"];
        st.missing = None;
        st.fail_at = None;
        st.log.clear();
    }
    Ok(())
}

/// nobody is there, or nothing could be
async fn unreachable(r: &mut Rng, t: &Trace) -> R {
    let c = match r.below(25) {
        0..=4 => RedisConfig::Single(String::new()),
        5..=9 => RedisConfig::Single("no such url".into()),
        // tried again for some seconds
        10 => RedisConfig::Single("redis://127.0.0.1:1".into()),
        11..=15 => RedisConfig::Cluster(vec![]),
        16..=20 => RedisConfig::Cluster(vec!["redis://127.0.0.1:1".into()]),
        _ => RedisConfig::Cluster(vec!["no such url".into()]),
    };
    let who = r.below(3);
    t.log(format!("connect {} to {}", ["a cache", "a master", "MCaptchaRedis"][who as usize], match &c {
        RedisConfig::Single(u) => format!("the server at {u:?}"),
        RedisConfig::Cluster(u) => format!("the cluster of {u:?}"),
    }));
    let ok = within(
        async move {
            match who {
                0 => RedisCache::new(c).await.map(|_| ()),
                1 => Master::new(c).await.map(|_| ()),
                _ => MCaptchaRedis::new(c).await.map(|_| ()),
            }
        },
        "connecting",
    )
    .await?;
    chk!(ok.is_err(), "connected although nobody is there");
    Ok(())
}

async fn faithful(mut r: Rng, t: Trace) -> R {
    let s = Server::start(r.clone(), 35);
    connecting(&mut r, &t, &s).await?;
    if r.chance(15) {
        unreachable(&mut r, &t).await?;
    }
    let m = MCaptchaRedis::new(s.config()).await.map_err(|e| format!("could not connect: {e:?}"))?;
    let cache = RedisCache::new(s.config()).await.map_err(|e| format!("could not connect: {e:?}"))?.start();
    let master = Master::new(s.config()).await.map_err(|e| format!("could not connect: {e:?}"))?.start();
    let con = m.get_client();
    let mut n = 0;
    for _ in 0..30 {
        let (o, site) = op(&mut r, &mut n, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]);
        s.log();
        t.log(format!("{o:?}"));
        let got = within(direct(&con, o.clone(), site), &format!("{o:?}")).await?;
        let log = s.log();
        chk!(log.len() == 1 && o.is(&log[0].0), "{o:?} issued {:?}", log.iter().map(|x| &x.0).collect::<Vec<_>>());
        t.log(format!("  answered {:?}", log[0].1));
        let want = o.expect(&log[0].1);
        chk!(got == want, "{o:?}: the server answered {:?}, reported {got:?}, expected {want:?}", log[0].1);
    }
    for _ in 0..8 {
        s.log();
        let mut sent = vec![];
        for _ in 0..r.range(1, 6) {
            let (o, site) = op(&mut r, &mut n, &[0, 1, 2, 3, 4, 5, 6, 7]);
            t.log(format!("message for {o:?}"));
            sent.push((o.clone(), post(&cache, &master, o, site)));
            if r.chance(30) {
                settle().await;
            }
        }
        let mut got = vec![];
        for (o, a) in sent {
            let x = within(a, &format!("{o:?}")).await?.map_err(|e| format!("{o:?}: {e}"))?;
            got.push((o, x));
        }
        let log = s.log();
        chk!(log.len() == got.len(), "{} messages issued {:?}", got.len(), log.iter().map(|x| &x.0).collect::<Vec<_>>());
        for (o, x) in got {
            let e: Vec<_> = log.iter().filter(|e| o.is(&e.0)).collect();
            chk!(e.len() == 1, "{o:?} issued its command {} times; all commands: {:?}", e.len(), log.iter().map(|x| &x.0).collect::<Vec<_>>());
            let want = o.expect(&e[0].1);
            chk!(x == want, "{o:?}: the server answered {:?}, reported {x:?}, expected {want:?}", e[0].1);
        }
    }
    Ok(())
}

async fn tokens(mut r: Rng, t: Trace) -> R {
    let s = Server::start(r.clone(), 0);
    let m = MCaptchaRedis::new(s.config()).await.map_err(|e| format!("could not connect: {e:?}"))?;
    let cache = RedisCache::new(s.config()).await.map_err(|e| format!("could not connect: {e:?}"))?.start();
    let con = m.get_client();
    let parts = ["", ":", "a", "b", "a:b", "1:a", "1", "0", "::", "é", "A", " "];
    let mut model: HashMap<(String, String), u64> = HashMap::new();
    let mut record: HashMap<(String, String), String> = HashMap::new();
    let text = |r: &mut Rng| (0..r.range(0, 3)).map(|_| *r.pick(&parts)).collect::<String>();
    // pairs that concatenate to the same characters, and unrelated ones
    let mut pairs: Vec<(String, String)> = vec![];
    for _ in 0..4 {
        let w: Vec<char> = format!("{}{}{}", text(&mut r), r.pick(&[":", "", "a"]), text(&mut r)).chars().collect();
        for i in 0..=w.len() {
            pairs.push((w[..i].iter().collect(), w[i..].iter().collect()));
            if i < w.len() {
                pairs.push((w[..i].iter().collect(), w[i + 1..].iter().collect()));
            }
        }
        pairs.push((text(&mut r), text(&mut r)));
    }
    for _ in 0..60 {
        let (key, token) = r.pick(&pairs).clone();
        let duration = *r.pick(&[0u64, 1, 10, 100, 3600, u64::MAX]);
        let actor = r.chance(50);
        s.log();
        match r.below(6) {
            0..=2 => {
                t.log(format!("add token {token:?} of {key:?} for {duration} s"));
                let msg = CacheResult { token: token.clone(), key: key.clone(), duration };
                let x = if actor { ask_now(&cache, msg).await? } else { con.add_token(&msg).await };
                chk!(x == Ok(()), "adding a token gave {x:?}");
                let log = s.log();
                chk!(log.len() == 1 && log[0].0.len() == 5 && log[0].0[0] == "SET" && log[0].0[3].eq_ignore_ascii_case("EX") && log[0].0[4] == duration.to_string(), "a token of {duration} s was stored by {:?}", log.iter().map(|x| &x.0).collect::<Vec<_>>());
                let rec = log[0].0[1].clone();
                for (p, q) in &record {
                    chk!((*p == (key.clone(), token.clone())) == (*q == rec), "tokens {:?} and {p:?} are stored under {rec:?} and {q:?}", (&key, &token));
                }
                record.insert((key.clone(), token.clone()), rec);
                model.insert((key, token), duration);
            }
            3 => {
                t.log(format!("delete token {token:?} of {key:?}"));
                let x = con.delete_token(&VerifyCaptchaResult { key: key.clone(), token: token.clone() }).await;
                chk!(x == Ok(()), "deleting a token gave {x:?}");
                model.remove(&(key, token));
            }
            _ => {
                t.log(format!("verify token {token:?} of {key:?}"));
                let msg = VerifyCaptchaResult { key: key.clone(), token: token.clone() };
                let x = if actor { ask_now(&cache, msg).await? } else { con.get_token(&msg).await };
                let want = model.remove(&(key.clone(), token.clone())).is_some();
                chk!(x == Ok(want), "verifying token {token:?} for {key:?} gave {x:?}, expected {want}");
                let log = s.log();
                chk!(log.len() == 1, "verifying took {:?}, so two verifications can both succeed", log.iter().map(|x| &x.0).collect::<Vec<_>>());
            }
        }
        let n = s.st.lock().unwrap().store.len();
        chk!(n == model.len(), "{n} records stored for {} tokens", model.len());
    }
    Ok(())
}
async fn ask_now<M, T>(a: &Addr<RedisCache>, m: M) -> Result<Result<T, E>, String>
where
    M: Message<Result = tokio::sync::oneshot::Receiver<Result<T, E>>> + Send + 'static,
    T: Send + 'static,
    RedisCache: Handler<M>,
{
    within(async { a.send(m).await.map_err(|e| format!("cache gone: {e}"))?.await.map_err(|_| "no answer".to_string()) }, "the cache").await?
}

async fn survive(mut r: Rng, t: Trace) -> R {
    let s = Server::start(r.clone(), 60);
    let cache = RedisCache::new(s.config()).await.map_err(|e| format!("could not connect: {e:?}"))?.start();
    let master = Master::new(s.config()).await.map_err(|e| format!("could not connect: {e:?}"))?.start();
    let mut n = 0;
    for _ in 0..14 {
        let mut sent = vec![];
        for _ in 0..r.range(1, 8) {
            let (o, site) = op(&mut r, &mut n, &[0, 1, 2, 3, 4, 5, 6, 7]);
            if r.chance(40) {
                t.log(format!("{o:?}, requester leaves"));
                leave(&cache, &master, o, site);
            } else {
                t.log(format!("{o:?}"));
                sent.push((o.clone(), post(&cache, &master, o, site)));
            }
            if r.chance(20) {
                t.log("DeletePoW, DeleteCaptchaResult");
                chk!(cache.send(DeletePoW("x".into())).await.map_err(|e| format!("cache gone: {e}"))? == Ok(()), "DeletePoW failed");
                chk!(cache.send(DeleteCaptchaResult { token: "x".into() }).await.map_err(|e| format!("cache gone: {e}"))? == Ok(()), "DeleteCaptchaResult failed");
            }
            if r.chance(30) {
                settle().await;
            }
        }
        for (o, a) in sent {
            if r.chance(15) {
                drop(a);
                continue;
            }
            within(a, &format!("{o:?}")).await?.map_err(|e| format!("{o:?}: {e}"))?;
        }
        chk!(panics().is_empty(), "panicked: {}", panics().join("; "));
    }
    chk!(cache.connected() && master.connected(), "the actor is gone");
    Ok(())
}
