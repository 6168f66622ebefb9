impl Defense { pub open spec fn lv(self) -> Seq<Level> { self.@Defense.levels@@ } }
impl MCaptcha {
    pub open spec fn def(self) -> Defense { self.@MCaptcha.defense@ }
    pub open spec fn dur(self) -> u64 { self.@MCaptcha.duration@ }
}
/// what a request for a visit means, given what came back
pub open spec fn visit_got(e: Ev) -> Option<AddVisitorResult> { match got_::<String>(e) { Some(s) => visit_of_json_(s@), None => None } }
/// the record a token is stored under
pub open spec fn record(key: Seq<char>, token: Seq<char>) -> Seq<char> { "mcaptcha:token:"@ + dec_(bytes_(key)) + ":"@ + key + ":"@ + token }
/// one task was started, which blocks the actor, issues exactly the one command and answers the requester
pub open spec fn asks(o: World, n: World, a: Seq<Seq<char>>, id: int) -> bool {
    &&& n.tasks.len() == o.tasks.len() + 1
    &&& n.tasks.drop_last() =~= o.tasks
    &&& n.ev == o.ev && n.started == o.started && n.stops == o.stops
    &&& n.tasks.last().ev.len() == 1
    &&& ran_(n.tasks.last().ev[0], a)
    &&& n.tasks.last().replies(id)
}
pub open spec fn asked(n: World) -> Ev { n.tasks.last().ev[0] }
/// the number that came back
pub open spec fn number(e: Ev) -> Option<int> { match reply_(e) { Some(Value::Int(n)) => Some(n as int), Some(v) => num_of_(v), None => None } }
/// every task started blocks the actor, so nothing else uses its connection meanwhile
pub open spec fn all_block(o: World, n: World) -> bool { forall|i: int| o.tasks.len() <= i < n.tasks.len() ==> (#[trigger] n.tasks[i]).blocks }

// ---- connecting
pub open spec fn names_module(s: Seq<Value>) -> bool { exists|i: int| 0 <= i < s.len() && mentions(#[trigger] s[i]) }
pub open spec fn unmentioned(s: Seq<Value>, n: int) -> bool { forall|i: int| 0 <= i < n ==> !mentions(#[trigger] s[i]) }
pub open spec fn mentions(v: Value) -> bool { has_text_(dbg_text_(v), "mcaptcha_cache"@) }
/// the backend failed, does not list the module, or does not know the command
pub open spec fn refused(e: Ev) -> bool {
    match reply_(e) {
        None => true,
        Some(Value::Array(a)) => (ran_(e, seq!["MODULE"@, "LIST"@]) && !names_module(a@)) || (a@.len() > 0 && a@.last() is Nil),
        Some(_) => false,
    }
}
/// each of the first `n` commands was asked about and is known
pub open spec fn all_known(cs: Seq<Seq<char>>, n: int, ev: Seq<Ev>, from: int) -> bool {
    forall|k: int| 0 <= k < n ==> one_known(#[trigger] cs[k], ev, from)
}
pub open spec fn one_known(c: Seq<char>, ev: Seq<Ev>, from: int) -> bool { exists|i: int| from <= i < ev.len() && command_known(#[trigger] ev[i], c) }
/// the reply to MODULE LIST names the module, or is no list
pub open spec fn module_listed(e: Ev) -> bool {
    &&& ran_(e, seq!["MODULE"@, "LIST"@])
    &&& reply_(e) matches Some(Value::Array(a)) ==> names_module(a@)
}
/// the reply to COMMAND INFO describes the command, or is no list
pub open spec fn command_known(e: Ev, c: Seq<char>) -> bool {
    &&& ran_(e, seq!["COMMAND"@, "INFO"@, c])
    &&& reply_(e) matches Some(Value::Array(a)) ==> a@.len() == 0 || !(a@.last() is Nil)
}
pub open spec fn needed() -> Seq<Seq<char>> {
    seq!["MCAPTCHA_CACHE.ADD_VISITOR"@, "MCAPTCHA_CACHE.ADD_CAPTCHA"@, "MCAPTCHA_CACHE.DELETE_CAPTCHA"@, "MCAPTCHA_CACHE.CAPTCHA_EXISTS"@, "MCAPTCHA_CACHE.GET"@,
        "MCAPTCHA_CACHE.ADD_CHALLENGE"@, "MCAPTCHA_CACHE.GET_CHALLENGE"@, "MCAPTCHA_CACHE.DELETE_CHALLENGE"@, "MCAPTCHA_CACHE.RENAME_CAPTCHA"@]
}
pub open spec fn connected(ev: Seq<Ev>, from: int) -> bool {
    &&& exists|i: int| from <= i < ev.len() && module_listed(#[trigger] ev[i])
    &&& all_known(needed(), 9, ev, from)
}
pub open spec fn texts(s: Seq<&str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }
pub broadcast proof fn known_stays(c: Seq<char>, ev: Seq<Ev>, e: Ev, from: int)
    requires one_known(c, ev, from),
    ensures #[trigger] one_known(c, ev.push(e), from),
{
    let i = choose|i: int| from <= i < ev.len() && command_known(#[trigger] ev[i], c);
    assert(ev.push(e)[i] == ev[i]);
}
pub broadcast proof fn known_now(c: Seq<char>, ev: Seq<Ev>, e: Ev, from: int)
    requires from <= ev.len(), command_known(e, c),
    ensures #[trigger] one_known(c, ev.push(e), from),
{ assert(ev.push(e)[ev.len() as int] == e); }
/// the needed command is among those asked about, in whatever order
pub open spec fn among(s: Seq<&str>, c: Seq<char>) -> bool {
    s[0]@ == c || s[1]@ == c || s[2]@ == c || s[3]@ == c || s[4]@ == c || s[5]@ == c || s[6]@ == c || s[7]@ == c || s[8]@ == c
}
pub broadcast proof fn all_needed_known(s: Seq<&str>, n: int, ev: Seq<Ev>, from: int)
    requires #[trigger] all_known(texts(s), n, ev, from), n == 9, s.len() == 9,
        among(s, needed()[0]), among(s, needed()[1]), among(s, needed()[2]), among(s, needed()[3]), among(s, needed()[4]),
        among(s, needed()[5]), among(s, needed()[6]), among(s, needed()[7]), among(s, needed()[8]),
    ensures all_known(needed(), 9, ev, from),
{
    assert forall|k: int| 0 <= k < 9 implies one_known(#[trigger] needed()[k], ev, from) by {
        assert(among(s, needed()[k]));
        let j = choose|j: int| 0 <= j < 9 && #[trigger] s[j]@ == needed()[k];
        assert(texts(s)[j] == s[j]@);
    }
}

// ---- distinct pairs of sitekey and token have distinct records
pub open spec fn is_digit(c: char) -> bool { c == '0' || c == '1' || c == '2' || c == '3' || c == '4' || c == '5' || c == '6' || c == '7' || c == '8' || c == '9' }
pub proof fn dec_digits(n: nat)
    ensures dec_(n).len() > 0, forall|i: int| 0 <= i < dec_(n).len() ==> is_digit(#[trigger] dec_(n)[i]),
    decreases n,
{ if n >= 10 { dec_digits(n / 10); } }
pub proof fn dec_injective(a: nat, b: nat)
    requires dec_(a) == dec_(b),
    ensures a == b,
    decreases a,
{
    dec_digits(a); dec_digits(b);
    if a < 10 {
        if b >= 10 { dec_digits(b / 10); assert(dec_(b).len() == dec_(b / 10).len() + 1); assert(dec_(a).len() == 1); }
        else { assert(dec_(a)[0] == digit_(a)); assert(dec_(b)[0] == digit_(b)); }
    } else if b < 10 {
        dec_digits(a / 10); assert(dec_(a).len() == dec_(a / 10).len() + 1); assert(dec_(b).len() == 1);
    } else {
        assert(dec_(a).drop_last() =~= dec_(a / 10));
        assert(dec_(b).drop_last() =~= dec_(b / 10));
        dec_injective(a / 10, b / 10);
        assert(dec_(a).last() == digit_(a % 10)); assert(dec_(b).last() == digit_(b % 10));
    }
}
pub proof fn bytes_prefix(s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), bytes_(s.take(n)) == bytes_(s),
    ensures n == s.len(),
    decreases s.len(),
{ if n < s.len() { bytes_mono(s, n, s.len() - 1); assert(s.drop_last() =~= s.take(s.len() - 1)); } }
pub proof fn bytes_mono(s: Seq<char>, m: int, n: int)
    requires 0 <= m <= n <= s.len(),
    ensures bytes_(s.take(m)) <= bytes_(s.take(n)),
    decreases n - m,
{ if m < n { bytes_mono(s, m, n - 1); assert(s.take(n).drop_last() =~= s.take(n - 1)); } }
pub proof fn cancel(p: Seq<char>, a: Seq<char>, b: Seq<char>)
    requires p + a == p + b,
    ensures a == b,
{ assert((p + a).skip(p.len() as int) =~= a); assert((p + b).skip(p.len() as int) =~= b); }
pub proof fn assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures (a + b) + c == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }
/// two texts that start with a number and a colon start with the same number
pub proof fn same_number(d1: Seq<char>, r1: Seq<char>, d2: Seq<char>, r2: Seq<char>, c: Seq<char>)
    requires d1 + (c + r1) == d2 + (c + r2), c.len() == 1, !is_digit(c[0]),
        forall|i: int| 0 <= i < d1.len() ==> is_digit(#[trigger] d1[i]), forall|i: int| 0 <= i < d2.len() ==> is_digit(#[trigger] d2[i]),
    ensures d1 == d2, r1 == r2,
{
    let (a, b) = (d1 + (c + r1), d2 + (c + r2));
    assert(a[d1.len() as int] == c[0]); assert(b[d2.len() as int] == c[0]);
    if d1.len() < d2.len() { assert(is_digit(d2[d1.len() as int])); assert(d2[d1.len() as int] == b[d1.len() as int]); }
    if d2.len() < d1.len() { assert(is_digit(d1[d2.len() as int])); assert(d1[d2.len() as int] == a[d2.len() as int]); }
    assert(a.take(d1.len() as int) =~= d1); assert(b.take(d2.len() as int) =~= d2);
    cancel(d1, c + r1, c + r2);
    cancel(c, r1, r2);
}
/// texts of the same length in bytes that are followed by something are told apart
pub proof fn same_key(k1: Seq<char>, r1: Seq<char>, k2: Seq<char>, r2: Seq<char>)
    requires k1 + r1 == k2 + r2, bytes_(k1) == bytes_(k2),
    ensures k1 == k2, r1 == r2,
{
    let r = k1 + r1;
    assert(r.take(k1.len() as int) =~= k1); assert(r.take(k2.len() as int) =~= k2);
    if k1.len() <= k2.len() { assert(k2.take(k1.len() as int) =~= k1); bytes_prefix(k2, k1.len() as int); }
    else { assert(k1.take(k2.len() as int) =~= k2); bytes_prefix(k1, k2.len() as int); }
    cancel(k1, r1, r2);
}
pub proof fn record_parts(key: Seq<char>, token: Seq<char>)
    ensures record(key, token) == "mcaptcha:token:"@ + (dec_(bytes_(key)) + (":"@ + (key + (":"@ + token)))),
{
    let (p, d, c) = ("mcaptcha:token:"@, dec_(bytes_(key)), ":"@);
    assoc(p + d + c + key, c, token);
    assoc(p + d + c, key, c + token);
    assoc(p + d, c, key + (c + token));
    assoc(p, d, c + (key + (c + token)));
}
pub proof fn record_injective(k1: Seq<char>, t1: Seq<char>, k2: Seq<char>, t2: Seq<char>)
    requires record(k1, t1) == record(k2, t2),
    ensures k1 == k2, t1 == t2,
{
    reveal_strlit(":");
    let (p, c) = ("mcaptcha:token:"@, ":"@);
    let (d1, d2) = (dec_(bytes_(k1)), dec_(bytes_(k2)));
    record_parts(k1, t1); record_parts(k2, t2);
    cancel(p, d1 + (c + (k1 + (c + t1))), d2 + (c + (k2 + (c + t2))));
    dec_digits(bytes_(k1)); dec_digits(bytes_(k2));
    same_number(d1, k1 + (c + t1), d2, k2 + (c + t2), c);
    dec_injective(bytes_(k1), bytes_(k2));
    same_key(k1, c + t1, k2, c + t2);
    cancel(c, t1, t2);
}
