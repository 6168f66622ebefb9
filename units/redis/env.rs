// the checks are about 64-bit targets
global size_of usize == 8;
pub use std::rc::Rc;
pub enum GMsg { Other }
pub enum GAns { Other }
pub enum GState { Other }
pub enum GExt {
    /// one command was issued; `reply` is what came back, `None` if nothing intelligible did
    Cmd { args: Seq<Seq<char>>, reply: Option<Value> },
}

// ---- redis: contracts assumed of the client library
pub struct VerbatimFormat;
pub enum Value {
    Nil, Int(i64), BulkString(Vec<u8>), Array(Vec<Value>), SimpleString(String), Okay, Map(Vec<(Value, Value)>), Set(Vec<Value>), Boolean(bool),
    /// the kinds of reply no code here looks into
    Other_(u64),
}
pub type redis__Value = Value;
pub type redis__RedisResult<T> = Result<T, RedisError>;
pub type RedisResult<T> = Result<T, RedisError>;
#[verifier::external_body] pub struct ConnectionManager { _p: () }
#[verifier::external_body] pub struct ClusterConnection { _p: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefCell<T> { k: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RefMut_<'a, T> { k: core::marker::PhantomData<&'a T> }
impl<T> RefCell<T> {
    #[verifier::external_body]
    pub fn new(x: T) -> (ret: Self) { unimplemented!() }
    /// panics while another borrow is alive; excluded because each task blocks its actor (an obligation of C20) and owns the only use of the connection meanwhile
    #[verifier::external_body]
    pub fn borrow_mut<'a>(&'a self) -> (ret: RefMut_<'a, T>) { unimplemented!() }
}

/// what a reply means as a `T`
pub trait FromRedisValue: Sized { spec fn from_(v: Value) -> Option<Self>; }
pub uninterp spec fn text_of_(v: Value) -> Option<String>;
/// the number a reply spells out
pub uninterp spec fn num_of_(v: Value) -> Option<int>;
pub uninterp spec fn bool_of_(v: Value) -> Option<bool>;
impl FromRedisValue for () { open spec fn from_(v: Value) -> Option<()> { Some(()) } }
impl FromRedisValue for String { open spec fn from_(v: Value) -> Option<String> { text_of_(v) } }
impl FromRedisValue for bool { open spec fn from_(v: Value) -> Option<bool> { bool_of_(v) } }
impl FromRedisValue for Value { open spec fn from_(v: Value) -> Option<Value> { Some(v) } }
// an integer reply is cast to the type asked for, whatever its size; a text has to be in range
impl FromRedisValue for usize { open spec fn from_(v: Value) -> Option<usize> { match v { Value::Int(n) => Some(if n >= 0 { n as usize } else { (n as int + 0x1_0000_0000_0000_0000) as usize }), _ => match num_of_(v) { Some(n) if usize::MIN <= n <= usize::MAX => Some(n as usize), _ => None } } } }
impl FromRedisValue for u64 { open spec fn from_(v: Value) -> Option<u64> { match v { Value::Int(n) => Some(if n >= 0 { n as u64 } else { (n as int + 0x1_0000_0000_0000_0000) as u64 }), _ => match num_of_(v) { Some(n) if u64::MIN <= n <= u64::MAX => Some(n as u64), _ => None } } } }
impl FromRedisValue for u32 { open spec fn from_(v: Value) -> Option<u32> { match v { Value::Int(n) => Some(((u32::MIN as int) + ((n as int - (u32::MIN as int)) % (0x1_0000_0000))) as u32), _ => match num_of_(v) { Some(n) if u32::MIN <= n <= u32::MAX => Some(n as u32), _ => None } } } }
impl FromRedisValue for u8 { open spec fn from_(v: Value) -> Option<u8> { match v { Value::Int(n) => Some(((u8::MIN as int) + ((n as int - (u8::MIN as int)) % (0x100))) as u8), _ => match num_of_(v) { Some(n) if u8::MIN <= n <= u8::MAX => Some(n as u8), _ => None } } } }
impl FromRedisValue for i32 { open spec fn from_(v: Value) -> Option<i32> { match v { Value::Int(n) => Some(((i32::MIN as int) + ((n as int - (i32::MIN as int)) % (0x1_0000_0000))) as i32), _ => match num_of_(v) { Some(n) if i32::MIN <= n <= i32::MAX => Some(n as i32), _ => None } } } }
impl FromRedisValue for i64 { open spec fn from_(v: Value) -> Option<i64> { match v { Value::Int(n) => Some(n), _ => match num_of_(v) { Some(n) if i64::MIN <= n <= i64::MAX => Some(n as i64), _ => None } } } }
impl<T: FromRedisValue> FromRedisValue for Option<T> {
    open spec fn from_(v: Value) -> Option<Option<T>> { if v is Nil { Some(None) } else { match T::from_(v) { Some(x) => Some(Some(x)), None => None } } }
}

/// one argument as text
pub trait RArg_ { spec fn arg_(&self) -> Seq<char>; }
impl RArg_ for String { open spec fn arg_(&self) -> Seq<char> { self@ } }
impl RArg_ for str { open spec fn arg_(&self) -> Seq<char> { self@ } }
impl RArg_ for u64 { open spec fn arg_(&self) -> Seq<char> { dec_(*self as nat) } }
impl RArg_ for u32 { open spec fn arg_(&self) -> Seq<char> { dec_(*self as nat) } }
impl RArg_ for usize { open spec fn arg_(&self) -> Seq<char> { dec_(*self as nat) } }
impl<'a, T: RArg_ + ?Sized> RArg_ for &'a T { open spec fn arg_(&self) -> Seq<char> { (**self).arg_() } }
pub trait ToRedisArgs_ { spec fn args_(&self) -> Seq<Seq<char>>; }
impl<'a> ToRedisArgs_ for &'a str { open spec fn args_(&self) -> Seq<Seq<char>> { seq![(**self)@] } }
impl<'a> ToRedisArgs_ for &'a String { open spec fn args_(&self) -> Seq<Seq<char>> { seq![(**self)@] } }
impl<'a, 'b> ToRedisArgs_ for &'a &'b str { open spec fn args_(&self) -> Seq<Seq<char>> { seq![(***self)@] } }
impl ToRedisArgs_ for String { open spec fn args_(&self) -> Seq<Seq<char>> { seq![self@] } }
impl ToRedisArgs_ for u64 { open spec fn args_(&self) -> Seq<Seq<char>> { seq![dec_(*self as nat)] } }
impl ToRedisArgs_ for u32 { open spec fn args_(&self) -> Seq<Seq<char>> { seq![dec_(*self as nat)] } }
impl ToRedisArgs_ for usize { open spec fn args_(&self) -> Seq<Seq<char>> { seq![dec_(*self as nat)] } }
impl<'a, T: RArg_, const N: usize> ToRedisArgs_ for &'a [T; N] { open spec fn args_(&self) -> Seq<Seq<char>> { Seq::new(N as nat, |i: int| (**self)@[i].arg_()) } }
impl<'a, T: RArg_> ToRedisArgs_ for &'a Vec<T> { open spec fn args_(&self) -> Seq<Seq<char>> { Seq::new((**self)@.len(), |i: int| (**self)@[i].arg_()) } }
impl<T: RArg_> ToRedisArgs_ for Vec<T> { open spec fn args_(&self) -> Seq<Seq<char>> { Seq::new(self@.len(), |i: int| self@[i].arg_()) } }

#[verifier::external_body] pub struct Cmd { _p: () }
pub type redis__Cmd = Cmd;
#[verifier::external_body]
pub fn redis__cmd(name: &str) -> (ret: Cmd) ensures ret.args() == seq![name@] { unimplemented!() }
#[verifier::reject_recursive_types(T)]
pub struct QueryFut<T> { pub args: Ghost<Seq<Seq<char>>>, pub k: core::marker::PhantomData<T> }
impl Cmd {
    pub uninterp spec fn args(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (ret: Cmd) ensures ret.args() == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<T: ToRedisArgs_>(&mut self, x: T) -> (ret: &mut Self) ensures ret.args() == old(self).args() + x.args_(), *final(self) == *final(ret) { unimplemented!() }
    /// one round trip on a single connection
    #[verifier::external_body]
    pub fn query_async<T: FromRedisValue, C>(&self, con: RefMut_<'_, C>) -> (ret: QueryFut<T>) ensures ret.args@ == self.args() { unimplemented!() }
    /// one round trip on a cluster
    #[verifier::external_body]
    pub fn query<T: FromRedisValue, C>(&self, con: RefMut_<'_, C>, Tracked(w): Tracked<&mut World>) -> (ret: Result<T, RedisError>)
        ensures came_back_(*old(w), *final(w), self.args(), ret),
    { unimplemented!() }
}
impl<T: FromRedisValue> QueryFut<T> {
    #[verifier::external_body]
    pub fn awaited(self, Tracked(w): Tracked<&mut World>) -> (ret: Result<T, RedisError>)
        ensures came_back_(*old(w), *final(w), self.args@, ret),
    { unimplemented!() }
}
pub open spec fn reply_(e: Ev) -> Option<Value> { match e { Ev::Ext(GExt::Cmd { reply, .. }) => reply, _ => None } }
/// what came back from the command `e`, as a `T`; `None` if it failed or cannot be read as one
pub open spec fn got_<T: FromRedisValue>(e: Ev) -> Option<T> { match reply_(e) { Some(v) => T::from_(v), None => None } }
pub open spec fn ran_(e: Ev, a: Seq<Seq<char>>) -> bool { e matches Ev::Ext(GExt::Cmd { args, .. }) && args =~= a }
/// exactly one command was issued, and nothing else was done
pub open spec fn one_cmd_(o: World, n: World, a: Seq<Seq<char>>) -> bool {
    &&& n.ev.len() == o.ev.len() + 1
    &&& n == (World { ev: o.ev.push(n.ev.last()), fault: n.fault, ..o })
    &&& ran_(n.ev.last(), a)
}
pub open spec fn came_back_<T: FromRedisValue>(o: World, n: World, a: Seq<Seq<char>>, ret: Result<T, RedisError>) -> bool {
    &&& one_cmd_(o, n, a)
    &&& got_::<T>(n.ev.last()) == (match ret { Ok(t) => Some(t), Err(_) => None::<T> })
}

// ---- serde_json: the encodings are that crate's
pub struct JsonError;
#[verifier::external] impl core::fmt::Debug for JsonError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub uninterp spec fn challenge_json_(difficulty: u32, duration: u64, challenge: Seq<char>) -> Seq<char>;
pub uninterp spec fn captcha_json_(levels: Seq<Level>, duration: u64) -> Seq<char>;
pub uninterp spec fn visit_of_json_(s: Seq<char>) -> Option<AddVisitorResult>;
pub trait ToJson_ { spec fn json_(&self) -> Seq<char>; }
impl ToJson_ for AddChallenge { open spec fn json_(&self) -> Seq<char> { challenge_json_(self.difficulty, self.duration, self.challenge@) } }
impl ToJson_ for CreateMCaptcha { open spec fn json_(&self) -> Seq<char> { captcha_json_(self.levels@, self.duration) } }
impl<'a, T: ToJson_> ToJson_ for &'a T { open spec fn json_(&self) -> Seq<char> { (**self).json_() } }
pub trait OfJson_: Sized { spec fn of_json_(s: Seq<char>) -> Option<Self>; }
impl OfJson_ for AddVisitorResult { open spec fn of_json_(s: Seq<char>) -> Option<AddVisitorResult> { visit_of_json_(s) } }
/// encoding a struct of strings and numbers does not fail
#[verifier::external_body]
pub fn serde_json__to_string<T: ToJson_>(x: &T) -> (ret: Result<String, JsonError>) ensures ret is Ok, ret->Ok_0@ == x.json_() { unimplemented!() }
#[verifier::external_body]
pub fn serde_json__from_str<T: OfJson_>(s: &str) -> (ret: Result<T, JsonError>) ensures T::of_json_(s@) == (match ret { Ok(t) => Some(t), Err(_) => None::<T> }) { unimplemented!() }

// ---- connecting: opening a connection issues none of the commands counted here
pub trait ConnInfo_ {}
impl ConnInfo_ for String {}
impl<'a> ConnInfo_ for &'a str {}
impl<'a> ConnInfo_ for &'a String {}
#[verifier::external_body] pub struct Client { _p: () }
impl Client {
    #[verifier::external_body]
    pub fn open<T: ConnInfo_>(url: T) -> (ret: Result<Client, RedisError>) { unimplemented!() }
    pub fn get_connection_manager(&self) -> (ret: Connecting_) { Connecting_ }
}
impl Clone for Client { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Connecting_;
impl Connecting_ {
    #[verifier::external_body]
    pub fn awaited(self, Tracked(w): Tracked<&mut World>) -> (ret: Result<ConnectionManager, RedisError>) ensures *final(w) == *old(w) { unimplemented!() }
}
impl ConnectionManager { pub fn new(c: Client) -> (ret: Connecting_) { Connecting_ } }
impl Clone for ConnectionManager { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct ClusterClient { _p: () }
impl ClusterClient {
    #[verifier::external_body]
    pub fn new<T: ConnInfo_>(nodes: Vec<T>) -> (ret: Result<ClusterClient, RedisError>) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_connection(&self) -> (ret: Result<ClusterConnection, RedisError>) { unimplemented!() }
}
impl Clone for ClusterClient { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---- text of a reply for people
pub uninterp spec fn dbg_text_(v: Value) -> Seq<char>;
pub trait Dbg_ { spec fn dbg_text(&self) -> Seq<char>; fn dbg_(&self) -> (ret: String) ensures ret@ == self.dbg_text(); }
impl Dbg_ for Value { open spec fn dbg_text(&self) -> Seq<char> { dbg_text_(*self) } #[verifier::external_body] fn dbg_(&self) -> (ret: String) { unimplemented!() } }
impl<'a, T: Dbg_> Dbg_ for &'a T { open spec fn dbg_text(&self) -> Seq<char> { (**self).dbg_text() } fn dbg_(&self) -> (ret: String) { (**self).dbg_() } }
pub open spec fn has_text_(s: Seq<char>, t: Seq<char>) -> bool { exists|i: int| 0 <= i && i + t.len() <= s.len() && #[trigger] s.subrange(i, i + t.len()) == t }
pub trait Contains_ { fn contains(&self, t: &str) -> bool; }
impl Contains_ for String { #[verifier::external_body] fn contains(&self, t: &str) -> (ret: bool) ensures ret == has_text_(self@, t@) { unimplemented!() } }
