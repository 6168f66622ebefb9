use crate::util::*;
use libmcaptcha::defense::Level;
use libmcaptcha::errors::CaptchaError as E;
use libmcaptcha::*;

pub fn lv(t: u32, d: u32) -> Level {
    Level { visitor_threshold: t, difficulty_factor: d }
}
pub fn many_levels(r: &mut Rng) -> Vec<Level> {
    let (mut t, mut d) = (0, 1);
    (0..r.range(7, 300))
        .map(|_| {
            t += r.range(1, 3) as u32;
            d += r.range(0, 4) as u32;
            lv(t, d)
        })
        .collect()
}
/// a valid configuration, in ascending order
pub fn levels(r: &mut Rng) -> Vec<Level> {
    let n = if r.below(100) == 0 { r.range(7, 300) } else { r.range(1, 6) } as usize;
    let mut ts: Vec<u32> = vec![];
    while ts.len() < n {
        let t = r.count();
        if !ts.contains(&t) {
            ts.push(t);
        }
    }
    ts.sort();
    let mut ds: Vec<u32> = (0..n).map(|_| r.count().max(1)).collect();
    ds.sort();
    (0..n).map(|i| lv(ts[i], ds[i])).collect()
}
pub fn defense(r: &mut Rng, ls: &[Level]) -> Result<Defense, E> {
    let mut o: Vec<Level> = ls.to_vec();
    for i in (1..o.len()).rev() {
        o.swap(i, r.below(i as u64 + 1) as usize);
    }
    let mut b = DefenseBuilder::default();
    for l in o {
        b.add_level(l)?;
    }
    b.build()
}
pub fn small_levels(r: &mut Rng) -> Vec<Level> {
    let n = r.range(1, 4) as usize;
    let mut t = 0;
    let mut d = 1;
    (0..n)
        .map(|_| {
            t += r.range(1, 3) as u32;
            d += r.range(0, 4) as u32;
            lv(t, d)
        })
        .collect()
}
pub fn captcha(r: &mut Rng, ls: &[Level], dur: u64) -> MCaptcha {
    MCaptchaBuilder::default().defense(defense(r, ls).unwrap()).duration(dur).build().unwrap()
}
/// a captcha with that many visitors (through its serialised form; the count is the one number that is neither nested nor the duration)
pub fn with_visitors(m: &MCaptcha, n: u32) -> MCaptcha {
    let mut v = serde_json::to_value(m).unwrap();
    let d = m.get_duration();
    for (_, x) in v.as_object_mut().unwrap().iter_mut() {
        if x.as_u64().map(|y| y == m.get_visitors() as u64 && y != d).unwrap_or(false) {
            *x = n.into();
        }
    }
    serde_json::from_value(v).unwrap()
}
fn list(d: &Defense) -> Vec<Level> {
    Vec::<Level>::from(d.clone())
}

pub fn c01(r: &mut Rng, t: &Trace) -> R {
    // levels
    let mut b = LevelBuilder::default();
    let (mut th, mut df) = (None, None);
    for _ in 0..r.below(4) {
        let x = r.count();
        if r.chance(50) {
            t.log(format!("LevelBuilder.visitor_threshold({x})"));
            b.visitor_threshold(x);
            th = Some(x);
        } else {
            t.log(format!("LevelBuilder.difficulty_factor({x})"));
            let got = b.difficulty_factor(x).map(|_| ());
            chk!(got == if x > 0 { Ok(()) } else { Err(E::DifficultyFactorZero) }, "difficulty_factor({x}) gave {got:?}");
            if x > 0 {
                df = Some(x);
            }
        }
    }
    let got = b.build();
    match (th, df) {
        (Some(x), Some(y)) => chk!(got == Ok(lv(x, y)), "LevelBuilder::build gave {got:?}, not threshold {x}, difficulty {y}"),
        _ => {
            let e1 = th.is_none() && got == Err(E::SetVisitorThreshold);
            let e2 = df.is_none() && got == Err(E::SetDifficultyFactor);
            chk!(e1 || e2, "LevelBuilder::build gave {got:?} with threshold {th:?}, difficulty {df:?}");
        }
    }
    if r.below(100) == 0 {
        // many levels, in any order, at most one of them out of line
        let mut ls = if r.chance(50) { levels(r) } else { many_levels(r) };
        if r.chance(40) {
            let i = r.below(ls.len() as u64) as usize;
            ls[i].difficulty_factor = r.count();
        }
        let mut b = DefenseBuilder::default();
        for i in (1..ls.len()).rev() {
            ls.swap(i, r.below(i as u64 + 1) as usize);
        }
        t.log(format!("add_level of each of {ls:?}"));
        for l in &ls {
            let got = b.add_level(*l).map(|_| ());
            chk!(got == Ok(()), "add_level({l:?}) gave {got:?}");
        }
        decide(&mut b, &ls, t)?;
    }
    // configurations
    let mut b = DefenseBuilder::default();
    let mut added: Vec<Level> = vec![];
    let ascending = r.chance(60);
    for i in 0..r.below(7) as u32 {
        let l = if ascending && r.chance(80) { lv(i * 3 + r.below(4) as u32, i * 2 + 1 + r.below(3) as u32) } else { lv(r.count(), r.count()) };
        let before = b.clone();
        let dup = added.iter().any(|x| x.visitor_threshold == l.visitor_threshold);
        t.log(format!("add_level({l:?})"));
        let got = b.add_level(l).map(|_| ());
        if dup {
            chk!(got == Err(E::DuplicateVisitorCount), "add_level({l:?}) with that threshold present gave {got:?}");
            chk!(b == before, "a refused level changed the builder to {b:?}");
        } else {
            chk!(got == Ok(()), "add_level({l:?}) gave {got:?}");
            added.push(l);
        }
        if r.chance(15) || i == 6 {
            decide(&mut b, &added, t)?;
        }
    }
    decide(&mut b, &added, t)
}
fn decide(b: &mut DefenseBuilder, added: &[Level], t: &Trace) -> R {
    let mut s = added.to_vec();
    s.sort_by_key(|l| l.visitor_threshold);
    let zero = s.iter().any(|l| l.difficulty_factor == 0);
    let dec = s.windows(2).any(|w| w[0].difficulty_factor > w[1].difficulty_factor);
    t.log("build()");
    match b.build() {
        Ok(d) => {
            chk!(!s.is_empty() && !zero && !dec, "accepted the invalid levels {s:?}");
            chk!(list(&d) == s, "accepted levels {s:?} became {:?}", list(&d));
            chk!(*d.current_level() == s[0], "a new defense starts at {:?}, not at its lowest level {:?}", d.current_level(), s[0]);
            chk!(d.get_difficulty() == s[0].difficulty_factor, "a new defense reports difficulty {}", d.get_difficulty());
        }
        Err(e) => {
            let ok = match e {
                E::LevelEmpty => s.is_empty(),
                E::DifficultyFactorZero => zero,
                E::DecreaseingDifficultyFactor => dec,
                _ => false,
            };
            chk!(ok, "levels {s:?} were refused with {e:?}");
        }
    }
    Ok(())
}

pub fn c02(r: &mut Rng, t: &Trace) -> R {
    let ls = levels(r);
    t.log(format!("levels {ls:?}"));
    let mut d = defense(r, &ls).map_err(|e| format!("valid levels refused: {e:?}"))?;
    let n = ls.len();
    let mut i = 0usize;
    for _ in 0..r.range(1, 25) + if n > 6 { 3 * n as u64 } else { 0 } {
        match r.below(10) {
            0 => {
                t.log("max_defense");
                d.max_defense();
                i = n - 1;
            }
            1 => {
                t.log("min_defense");
                d.min_defense();
                i = 0;
            }
            2..=5 => {
                t.log("tighten_up");
                d.tighten_up();
                i = (i + 1).min(n - 1);
            }
            _ => {
                t.log("loosen_up");
                d.loosen_up();
                i = i.saturating_sub(1);
            }
        }
        chk!(*d.current_level() == ls[i], "current level is {:?}, expected {:?}", d.current_level(), ls[i]);
        chk!(d.get_difficulty() == ls[i].difficulty_factor, "difficulty is {}, expected {}", d.get_difficulty(), ls[i].difficulty_factor);
        chk!(d.visitor_threshold() == ls[i].visitor_threshold, "threshold is {}, expected {}", d.visitor_threshold(), ls[i].visitor_threshold);
        chk!(list(&d) == ls, "navigation changed the levels to {:?}", list(&d));
    }
    Ok(())
}

pub fn c03(r: &mut Rng, t: &Trace) -> R {
    // builder
    let ls = levels(r);
    let def = defense(r, &ls).map_err(|e| format!("{e:?}"))?;
    let mut b = MCaptchaBuilder::default();
    let (mut sd, mut su) = (None, None);
    for _ in 0..r.below(5) {
        if r.chance(50) {
            let mut d = def.clone();
            for _ in 0..r.below(3) {
                d.tighten_up();
            }
            t.log(format!("defense({d:?})"));
            b.defense(d.clone());
            sd = Some(d);
        } else {
            let x = *r.pick(&[0u64, 1, 5, u32::MAX as u64 + 6, u64::MAX]);
            t.log(format!("duration({x})"));
            b.duration(x);
            su = Some(x);
        }
    }
    // a builder can be used again
    for again in 0..3 {
        if again > 0 {
            t.log("build again");
            if r.chance(40) {
                let x = *r.pick(&[0u64, 1, 9, 1 << 33]);
                t.log(format!("duration({x})"));
                b.duration(x);
                su = Some(x);
            }
        }
        let got = b.build();
        match (&sd, su) {
            (Some(d), Some(u)) if u > 0 => match got {
                Ok(m) => chk!(m.get_visitors() == 0 && m.get_duration() == u && m.get_defense() == *d, "built {m:?} from {d:?} and {u}"),
                Err(e) => return Err(format!("build with a defense and duration {u} gave {e:?}")),
            },
            _ => match got {
                Ok(m) => return Err(format!("built {m:?} from defense {sd:?} and duration {su:?}")),
                Err(E::CaptchaDurationZero) => chk!(su == Some(0), "refused for a zero duration with duration {su:?}"),
                Err(E::PleaseSetValue(s)) => chk!(s == "duration" && su.is_none() || s == "defense" && sd.is_none(), "asked for {s} with defense {sd:?}, duration {su:?}"),
                Err(e) => return Err(format!("refused with {e:?}")),
            },
        }
    }
    // counts
    let mut m = captcha(r, &ls, 7);
    let start = r.count();
    m = with_visitors(&m, start);
    let mut n = m.get_visitors();
    t.log(format!("levels {ls:?}, visitors {n}"));
    for _ in 0..r.range(1, 20) {
        if r.chance(60) {
            t.log("add_visitor");
            m.add_visitor();
            n = n.saturating_add(1);
        } else {
            let k = r.count();
            let d = m.get_defense();
            t.log(format!("decrement_visitor_by({k})"));
            m.decrement_visitor_by(k);
            n = n.saturating_sub(k);
            chk!(m.get_defense() == d, "removing visits changed the defense to {:?}", m.get_defense());
        }
        chk!(m.get_visitors() == n, "visitor count is {}, expected {n}", m.get_visitors());
        chk!(m.get_duration() == 7 && list(&m.get_defense()) == ls, "the captcha changed to {m:?}");
    }
    Ok(())
}

pub fn level_of(ls: &[Level], visitors: u32) -> usize {
    ls.iter().position(|l| visitors <= l.visitor_threshold).unwrap_or(ls.len() - 1)
}
pub fn c04(r: &mut Rng, t: &Trace) -> R {
    let ls = if r.chance(50) { small_levels(r) } else { levels(r) };
    let mut m = captcha(r, &ls, 5);
    if r.chance(50) {
        m = with_visitors(&m, r.count());
    }
    t.log(format!("levels {ls:?}, visitors {}", m.get_visitors()));
    let mut cur = 0usize;
    for _ in 0..r.range(1, 30) {
        if r.chance(75) {
            t.log("add_visitor");
            m.add_visitor();
            let want = level_of(&ls, m.get_visitors());
            let next = if cur < want { cur + 1 } else if cur > want { cur - 1 } else { cur };
            chk!(
                *m.get_defense().current_level() == ls[next] && m.get_difficulty() == ls[next].difficulty_factor,
                "with {} visitors (level {want} is called for) the level moved from {cur} to {:?} instead of level {next}",
                m.get_visitors(),
                m.get_defense().current_level()
            );
            cur = next;
        } else {
            let k = r.below(6) as u32;
            t.log(format!("decrement_visitor_by({k})"));
            m.decrement_visitor_by(k);
        }
        let a = AddVisitorResult::new(&m);
        chk!(a.duration == m.get_duration() && a.difficulty_factor == m.get_difficulty(), "handed out {a:?} for {m:?}");
    }
    Ok(())
}
