impl Level {
    pub open spec fn t(self) -> int { self.visitor_threshold as int }
    pub open spec fn d(self) -> int { self.difficulty_factor as int }
}
impl LevelBuilder {
    pub open spec fn vt(self) -> Option<u32> { self.@LevelBuilder.visitor_threshold@ }
    pub open spec fn df(self) -> Option<u32> { self.@LevelBuilder.difficulty_factor@ }
}
/// thresholds are pairwise distinct
pub open spec fn distinct(s: Seq<Level>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).t() != (#[trigger] s[j]).t()
}
pub open spec fn ascending(s: Seq<Level>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).t() < (#[trigger] s[j]).t()
}
pub open spec fn has_zero(s: Seq<Level>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).d() == 0 }
/// some level with a higher threshold has a lower difficulty
pub open spec fn has_decrease(s: Seq<Level>) -> bool {
    exists|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).t() < (#[trigger] s[j]).t() && s[i].d() > s[j].d()
}
pub open spec fn has_threshold(s: Seq<Level>, t: u32) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).visitor_threshold == t }
impl DefenseBuilder {
    pub open spec fn lv(self) -> Seq<Level> { self.@DefenseBuilder.levels@@ }
    pub open spec fn wf(self) -> bool { distinct(self.lv()) }
}
impl Defense {
    pub open spec fn lv(self) -> Seq<Level> { self.@Defense.levels@@ }
    pub open spec fn cur(self) -> int { self.@Defense.current_visitor_threshold@ as int }
    pub open spec fn wf(self) -> bool {
        0 <= self.cur() < self.lv().len() && ascending(self.lv())
    }
    pub open spec fn level(self) -> Level { self.lv()[self.cur()] }
}
impl MCaptchaBuilder {
    pub open spec fn def(self) -> Option<Defense> { self.@MCaptchaBuilder.defense@ }
    pub open spec fn dur(self) -> Option<u64> { self.@MCaptchaBuilder.duration@ }
    pub open spec fn vis(self) -> int { self.@MCaptchaBuilder.visitor_threshold@ as int }
}
impl MCaptcha {
    pub open spec fn def(self) -> Defense { self.@MCaptcha.defense@ }
    pub open spec fn dur(self) -> u64 { self.@MCaptcha.duration@ }
    pub open spec fn vis(self) -> int { self.@MCaptcha.visitor_threshold@ as int }
    pub open spec fn wf(self) -> bool { self.def().wf() }
}
/// the level that `v` visitors call for
pub open spec fn is_target(lv: Seq<Level>, v: int, t: int) -> bool {
    &&& 0 <= t < lv.len()
    &&& forall|j: int| 0 <= j < t ==> v > (#[trigger] lv[j]).t()
    &&& (t == lv.len() - 1 || v <= lv[t].t())
}
/// every load calls for exactly one level
pub proof fn target_exists_unique(lv: Seq<Level>, v: int) -> (t: int)
    requires lv.len() > 0, ascending(lv),
    ensures is_target(lv, v, t), forall|u: int| is_target(lv, v, u) ==> u == t,
{
    let t = find_target(lv, v, 0);
    assert forall|u: int| is_target(lv, v, u) implies u == t by {
        if u < t { assert(v > lv[u].t()); }
        if t < u { assert(v > lv[t].t()); }
    }
    t
}
proof fn find_target(lv: Seq<Level>, v: int, k: int) -> (t: int)
    requires 0 <= k < lv.len(), ascending(lv), forall|j: int| 0 <= j < k ==> v > (#[trigger] lv[j]).t(),
    ensures is_target(lv, v, t),
    decreases lv.len() - k,
{
    if k == lv.len() - 1 || v <= lv[k].t() { k } else { find_target(lv, v, k + 1) }
}
pub open spec fn step_towards(cur: int, t: int) -> int { if cur < t { cur + 1 } else if cur > t { cur - 1 } else { cur } }
pub open spec fn sat_inc(v: int) -> int { if v == u32::MAX { v } else { v + 1 } }
pub open spec fn sat_sub(v: int, n: int) -> int { if v < n { 0 } else { v - n } }

// ---- reordering keeps what does not depend on order
pub broadcast proof fn permuted(new: Seq<Level>, old: Seq<Level>, p: Seq<int>)
    requires #[trigger] permutes_(new, old, p),
    ensures distinct(old) ==> distinct(new), has_zero(new) == has_zero(old), has_decrease(new) == has_decrease(old),
{
    if distinct(old) {
        assert forall|i: int, j: int| 0 <= i < j < new.len() implies new[i].t() != new[j].t() by {
            let (a, b) = (p[i], p[j]);
            if a < b { assert(old[a].t() != old[b].t()); } else { assert(old[b].t() != old[a].t()); }
        }
    }
    if has_zero(old) {
        let k = choose|k: int| 0 <= k < old.len() && (#[trigger] old[k]).d() == 0;
        let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == k;
        assert(new[i].d() == 0);
    }
    if has_zero(new) {
        let k = choose|k: int| 0 <= k < new.len() && (#[trigger] new[k]).d() == 0;
        assert(old[p[k]].d() == 0);
    }
    if has_decrease(old) {
        let (i, j) = choose|i: int, j: int| 0 <= i < old.len() && 0 <= j < old.len() && (#[trigger] old[i]).t() < (#[trigger] old[j]).t() && old[i].d() > old[j].d();
        let a = choose|a: int| 0 <= a < p.len() && #[trigger] p[a] == i;
        let b = choose|b: int| 0 <= b < p.len() && #[trigger] p[b] == j;
        assert(old[i] == old[i] && old[j] == old[j]);
        assert(new[a].t() < new[b].t() && new[a].d() > new[b].d());
    }
    if has_decrease(new) {
        let (i, j) = choose|i: int, j: int| 0 <= i < new.len() && 0 <= j < new.len() && (#[trigger] new[i]).t() < (#[trigger] new[j]).t() && new[i].d() > new[j].d();
        assert(old[p[i]].t() < old[p[j]].t() && old[p[i]].d() > old[p[j]].d());
    }
}
pub open spec fn step_ok(s: Seq<Level>, k: int) -> bool { s[k].d() <= s[k + 1].d() }
/// the difficulty does not fall over the first `n` steps
pub open spec fn rising(s: Seq<Level>, n: int) -> bool { forall|k: int| 0 <= k < n ==> #[trigger] step_ok(s, k) }
pub open spec fn nonzero(s: Seq<Level>, n: int) -> bool { forall|k: int| 0 <= k < n ==> (#[trigger] s[k]).d() != 0 }
proof fn chain(s: Seq<Level>, i: int, j: int)
    requires 0 <= i <= j < s.len(), rising(s, s.len() - 1),
    ensures s[i].d() <= s[j].d(),
    decreases j - i,
{
    if i < j { chain(s, i, j - 1); assert(step_ok(s, j - 1)); }
}
/// in ascending order, difficulties that never fall between neighbours never fall at all
pub broadcast proof fn neighbours(s: Seq<Level>)
    requires ascending(s), rising(s, s.len() - 1),
    ensures !(#[trigger] has_decrease(s)),
{
    if has_decrease(s) {
        let (i, j) = choose|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).t() < (#[trigger] s[j]).t() && s[i].d() > s[j].d();
        if i <= j { chain(s, i, j); } else { assert(s[j].t() < s[i].t()); }
    }
}
