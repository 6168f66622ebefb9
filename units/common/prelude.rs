// Trusted and proved support code shared by all units.

/// reached only on a panic: `requires false` is the obligation that it never is
#[verifier::external_body]
pub fn unreached_() -> (r: !)
    requires false,
{ unimplemented!() }

pub open spec fn same_<T>(a: T, b: T) -> bool { a == b }
pub open spec fn as_ty_<T>(a: T) -> T { a }
pub fn type_like_<T>(like: T, v: T) -> (r: T) ensures r == v { v }
pub fn drop_<T>(v: T) { }
/// assumed of `Vec::clone`: where cloned elements equal their originals, so does the vector
#[verifier::external_body]
pub fn vec_clone_<T: Clone>(v: &Vec<T>) -> (r: Vec<T>)
    ensures (forall|a: T, b: T| #[trigger] cloned(a, b) ==> a == b) ==> r == *v,
{ v.clone() }
pub fn hint__black_box<T>(v: T) -> (r: T) ensures r == v { v }
pub fn mem__drop<T>(v: T) { }

// ---- text
/// decimal digits of a number
pub open spec fn digit_(d: nat) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
pub open spec fn dec_(n: nat) -> Seq<char>
    decreases n,
{ if n < 10 { seq![digit_(n)] } else { dec_(n / 10).push(digit_(n % 10)) } }
fn digit_of_(d: u64) -> (ret: char) requires d < 10, ensures ret == digit_(d as nat) { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
fn dec_text_(n: u64) -> (ret: String) ensures ret@ == dec_(n as nat) decreases n {
    let mut s = if n < 10 { String::new() } else { dec_text_(n / 10) };
    s.push(digit_of_(n % 10));
    proof { assert(s@ =~= dec_(n as nat)); }
    s
}
pub trait Disp_ { spec fn text_(&self) -> Seq<char>; fn disp_(&self) -> (ret: String) ensures ret@ == self.text_(); }
impl Disp_ for str { open spec fn text_(&self) -> Seq<char> { self@ } fn disp_(&self) -> (ret: String) { str_string_(self) } }
impl Disp_ for String { open spec fn text_(&self) -> Seq<char> { self@ } fn disp_(&self) -> (ret: String) { self.clone() } }
impl<'a, T: Disp_ + ?Sized> Disp_ for &'a T { open spec fn text_(&self) -> Seq<char> { (**self).text_() } fn disp_(&self) -> (ret: String) { (**self).disp_() } }
impl Disp_ for u64 { open spec fn text_(&self) -> Seq<char> { dec_(*self as nat) } fn disp_(&self) -> (ret: String) { dec_text_(*self as u64) } }
impl Disp_ for u32 { open spec fn text_(&self) -> Seq<char> { dec_(*self as nat) } fn disp_(&self) -> (ret: String) { dec_text_(*self as u64) } }
impl Disp_ for usize { open spec fn text_(&self) -> Seq<char> { dec_(*self as nat) } fn disp_(&self) -> (ret: String) { dec_text_(*self as u64) } }
pub fn str_lit_(s: &str) -> (ret: String) ensures ret@ == s@ { str_string_(s) }
pub fn str_cat_(a: String, b: String) -> (ret: String) ensures ret@ == a@ + b@ { let mut a = a; a.append(b.as_str()); a }

// ---- conversions
pub trait Into_<T>: Sized { fn into_(self) -> (ret: T); }
impl<T> Into_<T> for T { fn into_(self) -> (ret: T) ensures ret == self { self } }
pub fn str_string_(s: &str) -> (ret: String) ensures ret@ == s@ { s.to_string() }
impl<'a> Into_<String> for &'a str { fn into_(self) -> (ret: String) ensures as_ty_::<String>(ret)@ == self@ { str_string_(self) } }

pub trait ToOwned_ { type O; fn to_owned_(&self) -> (ret: Self::O); }
impl ToOwned_ for String { type O = String; fn to_owned_(&self) -> (ret: String) ensures ret == *self, ret@ == self@ { self.clone() } }
impl ToOwned_ for str { type O = String; fn to_owned_(&self) -> (ret: String) ensures ret@ == self@ { str_string_(self) } }
impl<T: Clone> ToOwned_ for Vec<T> {
    type O = Vec<T>;
    fn to_owned_(&self) -> (ret: Vec<T>)
        ensures
            ret@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> cloned(self@[i], #[trigger] ret@[i]),
            (forall|a: T, b: T| #[trigger] cloned(a, b) ==> a == b) ==> ret@ =~= self@,
    { self.clone() }
}

pub fn string_with_capacity_(n: usize) -> (ret: String) ensures ret@ == Seq::<char>::empty() { String::new() }
impl Into_<char> for u8 { fn into_(self) -> (ret: char) ensures as_ty_::<char>(ret) == self as char { self as char } }

pub trait AsStr_ { fn as_str_(&self) -> (ret: &str); }
impl AsStr_ for String { fn as_str_(&self) -> (ret: &str) ensures ret@ == self@ { self.as_str() } }

pub trait StrEq_ { fn eq_str_(&self, t: &str) -> bool; }
fn eq_text_(a: &str, b: &str) -> (ret: bool) ensures ret == (a@ == b@) {
    let n = a.unicode_len();
    if n != b.unicode_len() { return false; }
    let mut i = 0;
    while i < n
        invariant n == a@.len(), n == b@.len(), 0 <= i <= n, forall|j: int| 0 <= j < i ==> a@[j] == b@[j],
        decreases n - i,
    { if a.get_char(i) != b.get_char(i) { return false; } i += 1; }
    proof { assert(a@ =~= b@); }
    true
}
impl StrEq_ for str { fn eq_str_(&self, t: &str) -> (ret: bool) ensures ret == (self@ == t@) { eq_text_(self, t) } }
impl StrEq_ for String { fn eq_str_(&self, t: &str) -> (ret: bool) ensures ret == (self@ == t@) { eq_text_(self.as_str(), t) } }

// ---- operations on text: what they return depends on the text alone
pub trait Pat_ { spec fn pat_(&self) -> Seq<char>; }
impl<'a> Pat_ for &'a str { open spec fn pat_(&self) -> Seq<char> { (*self)@ } }
impl<'a> Pat_ for &'a String { open spec fn pat_(&self) -> Seq<char> { (*self)@ } }
impl Pat_ for char { open spec fn pat_(&self) -> Seq<char> { seq![*self] } }
pub open spec fn begins_(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn finishes_(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub open spec fn within_(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p }
pub uninterp spec fn trim_of_(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim_start_of_(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim_end_of_(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn to_lowercase_of_(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn to_uppercase_of_(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn to_ascii_lowercase_of_(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn to_ascii_uppercase_of_(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim_matches_of_(s: Seq<char>, p: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim_start_matches_of_(s: Seq<char>, p: Seq<char>) -> Seq<char>;
pub uninterp spec fn trim_end_matches_of_(s: Seq<char>, p: Seq<char>) -> Seq<char>;
pub uninterp spec fn replace_of_(s: Seq<char>, p: Seq<char>, t: Seq<char>) -> Seq<char>;
pub open spec fn times_(s: Seq<char>, n: nat) -> Seq<char> decreases n { if n == 0 { Seq::empty() } else { times_(s, (n - 1) as nat) + s } }
pub trait StrOps_ {
    fn str_repeat_(&self, n: usize) -> (ret: String);
    fn trim_(&self) -> (ret: &str);
    fn trim_start_(&self) -> (ret: &str);
    fn trim_end_(&self) -> (ret: &str);
    fn to_lowercase_(&self) -> (ret: String);
    fn to_uppercase_(&self) -> (ret: String);
    fn to_ascii_lowercase_(&self) -> (ret: String);
    fn to_ascii_uppercase_(&self) -> (ret: String);
    fn trim_matches_<P: Pat_>(&self, p: P) -> (ret: &str);
    fn trim_start_matches_<P: Pat_>(&self, p: P) -> (ret: &str);
    fn trim_end_matches_<P: Pat_>(&self, p: P) -> (ret: &str);
    fn eq_ignore_ascii_case_(&self, t: &str) -> (ret: bool);
    /// nothing is known of what a text denotes
    fn parse_<T>(&self) -> Result<T, ParseError_>;
    fn starts_with_<P: Pat_>(&self, p: P) -> (ret: bool);
    fn ends_with_<P: Pat_>(&self, p: P) -> (ret: bool);
    fn str_contains_<P: Pat_>(&self, p: P) -> (ret: bool);
    fn strip_prefix_<P: Pat_>(&self, p: P) -> (ret: Option<&str>);
    fn strip_suffix_<P: Pat_>(&self, p: P) -> (ret: Option<&str>);
    fn str_replace_<P: Pat_>(&self, p: P, t: &str) -> (ret: String);
}
#[verifier::external_body]
pub struct ParseError_ { _p: () }
#[verifier::external] impl core::fmt::Debug for ParseError_ { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl StrOps_ for str {
    #[verifier::external_body] fn parse_<T>(&self) -> Result<T, ParseError_> { unimplemented!() }
    fn str_repeat_(&self, n: usize) -> (ret: String) ensures ret@ == times_(self@, n as nat) {
        let mut r = String::new();
        let mut i = 0;
        while i < n
            invariant 0 <= i <= n, r@ == times_(self@, i as nat),
            decreases n - i,
        { r.append(self); i += 1; }
        r
    }
    #[verifier::external_body] fn trim_(&self) -> (ret: &str) ensures ret@ == trim_of_(self@) { unimplemented!() }
    #[verifier::external_body] fn trim_start_(&self) -> (ret: &str) ensures ret@ == trim_start_of_(self@) { unimplemented!() }
    #[verifier::external_body] fn trim_end_(&self) -> (ret: &str) ensures ret@ == trim_end_of_(self@) { unimplemented!() }
    #[verifier::external_body] fn to_lowercase_(&self) -> (ret: String) ensures ret@ == to_lowercase_of_(self@) { unimplemented!() }
    #[verifier::external_body] fn to_uppercase_(&self) -> (ret: String) ensures ret@ == to_uppercase_of_(self@) { unimplemented!() }
    #[verifier::external_body] fn to_ascii_lowercase_(&self) -> (ret: String) ensures ret@ == to_ascii_lowercase_of_(self@) { unimplemented!() }
    #[verifier::external_body] fn to_ascii_uppercase_(&self) -> (ret: String) ensures ret@ == to_ascii_uppercase_of_(self@) { unimplemented!() }
    #[verifier::external_body] fn trim_matches_<P: Pat_>(&self, p: P) -> (ret: &str) ensures ret@ == trim_matches_of_(self@, p.pat_()) { unimplemented!() }
    #[verifier::external_body] fn trim_start_matches_<P: Pat_>(&self, p: P) -> (ret: &str) ensures ret@ == trim_start_matches_of_(self@, p.pat_()) { unimplemented!() }
    #[verifier::external_body] fn trim_end_matches_<P: Pat_>(&self, p: P) -> (ret: &str) ensures ret@ == trim_end_matches_of_(self@, p.pat_()) { unimplemented!() }
    fn eq_ignore_ascii_case_(&self, t: &str) -> (ret: bool) ensures ret == (to_ascii_lowercase_of_(self@) == to_ascii_lowercase_of_(t@)) { self.to_ascii_lowercase_().eq_str_(t.to_ascii_lowercase_().as_str()) }
    #[verifier::external_body] fn starts_with_<P: Pat_>(&self, p: P) -> (ret: bool) ensures ret == begins_(self@, p.pat_()) { unimplemented!() }
    #[verifier::external_body] fn ends_with_<P: Pat_>(&self, p: P) -> (ret: bool) ensures ret == finishes_(self@, p.pat_()) { unimplemented!() }
    #[verifier::external_body] fn str_contains_<P: Pat_>(&self, p: P) -> (ret: bool) ensures ret == within_(self@, p.pat_()) { unimplemented!() }
    #[verifier::external_body] fn strip_prefix_<P: Pat_>(&self, p: P) -> (ret: Option<&str>) ensures (ret is Some) == begins_(self@, p.pat_()), ret matches Some(r) ==> r@ == self@.subrange(p.pat_().len() as int, self@.len() as int) { unimplemented!() }
    #[verifier::external_body] fn strip_suffix_<P: Pat_>(&self, p: P) -> (ret: Option<&str>) ensures (ret is Some) == finishes_(self@, p.pat_()), ret matches Some(r) ==> r@ == self@.subrange(0, self@.len() - p.pat_().len()) { unimplemented!() }
    #[verifier::external_body] fn str_replace_<P: Pat_>(&self, p: P, t: &str) -> (ret: String) ensures ret@ == replace_of_(self@, p.pat_(), t@) { unimplemented!() }
}
impl StrOps_ for String {
    #[verifier::external_body] fn parse_<T>(&self) -> Result<T, ParseError_> { unimplemented!() }
    fn str_repeat_(&self, n: usize) -> (ret: String) ensures ret@ == times_(self@, n as nat) { self.as_str().str_repeat_(n) }
    fn trim_(&self) -> (ret: &str) ensures ret@ == trim_of_(self@) { self.as_str().trim_() }
    fn trim_start_(&self) -> (ret: &str) ensures ret@ == trim_start_of_(self@) { self.as_str().trim_start_() }
    fn trim_end_(&self) -> (ret: &str) ensures ret@ == trim_end_of_(self@) { self.as_str().trim_end_() }
    fn to_lowercase_(&self) -> (ret: String) ensures ret@ == to_lowercase_of_(self@) { self.as_str().to_lowercase_() }
    fn to_uppercase_(&self) -> (ret: String) ensures ret@ == to_uppercase_of_(self@) { self.as_str().to_uppercase_() }
    fn to_ascii_lowercase_(&self) -> (ret: String) ensures ret@ == to_ascii_lowercase_of_(self@) { self.as_str().to_ascii_lowercase_() }
    fn to_ascii_uppercase_(&self) -> (ret: String) ensures ret@ == to_ascii_uppercase_of_(self@) { self.as_str().to_ascii_uppercase_() }
    fn trim_matches_<P: Pat_>(&self, p: P) -> (ret: &str) ensures ret@ == trim_matches_of_(self@, p.pat_()) { self.as_str().trim_matches_(p) }
    fn trim_start_matches_<P: Pat_>(&self, p: P) -> (ret: &str) ensures ret@ == trim_start_matches_of_(self@, p.pat_()) { self.as_str().trim_start_matches_(p) }
    fn trim_end_matches_<P: Pat_>(&self, p: P) -> (ret: &str) ensures ret@ == trim_end_matches_of_(self@, p.pat_()) { self.as_str().trim_end_matches_(p) }
    fn eq_ignore_ascii_case_(&self, t: &str) -> (ret: bool) ensures ret == (to_ascii_lowercase_of_(self@) == to_ascii_lowercase_of_(t@)) { self.as_str().eq_ignore_ascii_case_(t) }
    fn starts_with_<P: Pat_>(&self, p: P) -> (ret: bool) ensures ret == begins_(self@, p.pat_()) { self.as_str().starts_with_(p) }
    fn ends_with_<P: Pat_>(&self, p: P) -> (ret: bool) ensures ret == finishes_(self@, p.pat_()) { self.as_str().ends_with_(p) }
    fn str_contains_<P: Pat_>(&self, p: P) -> (ret: bool) ensures ret == within_(self@, p.pat_()) { self.as_str().str_contains_(p) }
    fn strip_prefix_<P: Pat_>(&self, p: P) -> (ret: Option<&str>) ensures (ret is Some) == begins_(self@, p.pat_()), ret matches Some(r) ==> r@ == self@.subrange(p.pat_().len() as int, self@.len() as int) { self.as_str().strip_prefix_(p) }
    fn strip_suffix_<P: Pat_>(&self, p: P) -> (ret: Option<&str>) ensures (ret is Some) == finishes_(self@, p.pat_()), ret matches Some(r) ==> r@ == self@.subrange(0, self@.len() - p.pat_().len()) { self.as_str().strip_suffix_(p) }
    fn str_replace_<P: Pat_>(&self, p: P, t: &str) -> (ret: String) ensures ret@ == replace_of_(self@, p.pat_(), t@) { self.as_str().str_replace_(p, t) }
}
#[verifier::external_body]
pub fn vec_of_<T, const N: usize>(a: [T; N]) -> (ret: Vec<T>) ensures ret@ == a@ { unimplemented!() }

// ---- sizes
pub trait Len_ { spec fn spec_len_(&self) -> nat; fn len_(&self) -> (ret: usize) ensures ret == self.spec_len_(); }
impl<T> Len_ for Vec<T> { open spec fn spec_len_(&self) -> nat { self@.len() } fn len_(&self) -> (ret: usize) ensures ret == self@.len() { self.len() } }
/// length in bytes
pub open spec fn utf8_(c: char) -> nat { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn bytes_(s: Seq<char>) -> nat
    decreases s.len(),
{ if s.len() == 0 { 0 } else { bytes_(s.drop_last()) + utf8_(s.last()) } }
impl Len_ for String { open spec fn spec_len_(&self) -> nat { bytes_(self@) } #[verifier::external_body] fn len_(&self) -> (ret: usize) ensures ret == bytes_(self@), ret <= isize::MAX { self.len() } }
impl Len_ for str { open spec fn spec_len_(&self) -> nat { bytes_(self@) } #[verifier::external_body] fn len_(&self) -> (ret: usize) ensures ret == bytes_(self@), ret <= isize::MAX { self.len() } }

// ---- iteration over vectors (verified, not trusted)
pub struct VecIt<'a, T> { pub v: &'a Vec<T>, pub k: usize }
impl<'a, T> VecIt<'a, T> {
    pub open spec fn wf(&self) -> bool { self.k <= self.v@.len() }
    pub open spec fn pos(&self) -> int { self.k as int }
    pub open spec fn same_source_(&self, o: Self) -> bool { self.v == o.v }
    pub open spec fn seq(&self) -> Seq<T> { self.v@ }
    pub fn has_next_(&self) -> (r: bool) ensures r == (self.k < self.v@.len()) { self.k < self.v.len() }
    pub fn next_(&mut self) -> (r: &'a T)
        requires old(self).k < old(self).v@.len(),
        ensures final(self).v == old(self).v, final(self).k == old(self).k + 1, *r == old(self).v@[old(self).k as int],
    { let k = self.k; proof { assert(k < self.v.len()); } self.k = k + 1; &self.v[k] }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf(),
        ensures final(self).wf(), match r { None => old(self).pos() == old(self).seq().len() && *final(self) == *old(self), Some(x) => old(self).pos() < old(self).seq().len() && (final(self).v == old(self).v) && (final(self).k == old(self).k + 1) && (*x == old(self).v@[old(self).k as int]) },
    { if self.has_next_() { Some(self.next_()) } else { None } }
    pub fn into_iter_(self) -> (r: Self) ensures r == self { self }
}
pub trait Iter_<'a> { type I; fn iter_(&'a self) -> (ret: Self::I); }
impl<'a, T: 'a> Iter_<'a> for Vec<T> {
    type I = VecIt<'a, T>;
    fn iter_(&'a self) -> (ret: VecIt<'a, T>) ensures ret.v == self, ret.k == 0 { VecIt { v: self, k: 0 } }
}
pub trait IntoIterRef_<'a> { type I; fn into_iter_(self) -> (ret: Self::I); }
impl<'a, T> IntoIterRef_<'a> for &'a Vec<T> {
    type I = VecIt<'a, T>;
    fn into_iter_(self) -> (ret: VecIt<'a, T>) ensures ret.v == self, ret.k == 0 { VecIt { v: self, k: 0 } }
}

// ---- derive(Default)
pub trait Default_: Sized { spec fn is_default_(&self) -> bool; fn default_() -> (ret: Self) ensures ret.is_default_(); }
impl Default_ for u32 { open spec fn is_default_(&self) -> bool { *self == 0 } fn default_() -> (ret: u32) { 0 } }
impl Default_ for u64 { open spec fn is_default_(&self) -> bool { *self == 0 } fn default_() -> (ret: u64) { 0 } }
impl Default_ for usize { open spec fn is_default_(&self) -> bool { *self == 0 } fn default_() -> (ret: usize) { 0 } }
impl Default_ for bool { open spec fn is_default_(&self) -> bool { !*self } fn default_() -> (ret: bool) { false } }
impl<T> Default_ for Option<T> { open spec fn is_default_(&self) -> bool { *self is None } fn default_() -> (ret: Option<T>) { None } }
impl<T> Default_ for Vec<T> { open spec fn is_default_(&self) -> bool { self@.len() == 0 } fn default_() -> (ret: Vec<T>) { Vec::new() } }
impl Default_ for String { open spec fn is_default_(&self) -> bool { self@ == Seq::<char>::empty() } fn default_() -> (ret: String) { String::new() } }

// ---- collect()
pub trait Collect_<T>: Sized { fn new_() -> (ret: Self); fn push_(&mut self, x: T); }
impl Collect_<char> for String {
    fn new_() -> (ret: String) ensures ret@ == Seq::<char>::empty() { String::new() }
    fn push_(&mut self, x: char) ensures final(self)@ == old(self)@.push(x) { self.push(x) }
}
impl<T> Collect_<T> for Vec<T> {
    fn new_() -> (ret: Vec<T>) ensures ret@ == Seq::<T>::empty() { Vec::new() }
    fn push_(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.push(x) }
}
// ---- equality of strings, and of references by what they refer to (as std defines them); with
// these, vstd's equality of options, results and tuples reaches values made of strings
pub broadcast axiom fn string_obeys_eq() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn string_eq(a: String, b: String) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@), vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a == b);
pub broadcast axiom fn ref_obeys_eq<T: PartialEq>() ensures #[trigger] <&T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() == <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ref_eq<'a, T: PartialEq>(a: &'a T, b: &'a T)
    ensures #[trigger] <&'a T as vstd::std_specs::cmp::PartialEqSpec<&'a T>>::eq_spec(&a, &b) == <T as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(a, b);
// ---- Option
pub assume_specification<T>[ Option::<T>::replace ](o: &mut Option<T>, v: T) -> (r: Option<T>)
    ensures r == *old(o), *final(o) == Some(v);
pub assume_specification<T, E>[ Option::<Result<T, E>>::transpose ](o: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures r == (match o { None => Ok(None), Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e) });
pub trait AsDeref_<'a> { type O; fn as_deref_(&'a self) -> Self::O; }
impl<'a> AsDeref_<'a> for Option<String> {
    type O = Option<&'a str>;
    fn as_deref_(&'a self) -> (ret: Option<&'a str>)
        ensures match ret { None => self is None, Some(x) => self is Some && x@ == self->0@ },
    { match self { Some(s) => Some(s.as_str()), None => None } }
}
