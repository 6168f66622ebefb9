// ---- iteration over references and values, verified as models of the standard iterators
#[verifier::reject_recursive_types(T)]
pub struct RefIt_<'a, T> { v: Vec<&'a T>, k: usize }
impl<'a, T> RefIt_<'a, T> {
    pub closed spec fn pos(&self) -> int { self.k as int }
    pub closed spec fn seq(&self) -> Seq<T> { Seq::new(self.v@.len(), |i: int| *self.v@[i]) }
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.seq().len() }
    pub open spec fn same_source_(&self, o: Self) -> bool { self.seq() == o.seq() }
    pub fn into_iter_(self) -> (r: Self) ensures r == self { self }
    pub fn has_next_(&self) -> (r: bool) ensures r == (self.pos() < self.seq().len()) { self.k < self.v.len() }
    pub fn next_(&mut self) -> (r: &'a T)
        requires 0 <= old(self).pos() < old(self).seq().len(),
        ensures final(self).pos() == old(self).pos() + 1, final(self).same_source_(*old(self)), *r == old(self).seq()[old(self).pos()],
    { let k = self.k; proof { assert(k < self.v.len()); } self.k = k + 1; self.v[k] }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf(),
        ensures final(self).wf(), match r { None => old(self).pos() == old(self).seq().len() && *final(self) == *old(self), Some(x) => old(self).pos() < old(self).seq().len() && (final(self).pos() == old(self).pos() + 1) && (final(self).same_source_(*old(self))) && (*x == old(self).seq()[old(self).pos()]) },
    { if self.has_next_() { Some(self.next_()) } else { None } }
}
pub trait Refs_<'a, T>: Sized {
    /// what is still to come
    spec fn rest_(self) -> Seq<T>;
    spec fn ready_(self) -> bool;
    fn refs_(self) -> (ret: RefIt_<'a, T>) requires self.ready_(), ensures ret.pos() == 0, ret.seq() == self.rest_(), ret.wf();
}
impl<'a, T> Refs_<'a, T> for VecIt<'a, T> {
    open spec fn rest_(self) -> Seq<T> { self.seq().skip(self.pos()) }
    open spec fn ready_(self) -> bool { self.wf() }
    fn refs_(self) -> (ret: RefIt_<'a, T>) {
        let mut v: Vec<&'a T> = Vec::new();
        let mut i = self.k;
        while i < self.v.len()
            invariant self.wf(), self.k <= i <= self.v@.len(), v@.len() == i - self.k, forall|j: int| 0 <= j < v@.len() ==> *v@[j] == self.v@[self.k + j],
            decreases self.v@.len() - i,
        { v.push(&self.v[i]); i += 1; }
        let ret = RefIt_ { v, k: 0 };
        proof { assert(ret.seq() =~= self.rest_()); }
        ret
    }
}
impl<'a, T> Refs_<'a, T> for RefIt_<'a, T> {
    open spec fn rest_(self) -> Seq<T> { self.seq().skip(self.pos()) }
    open spec fn ready_(self) -> bool { self.wf() }
    fn refs_(self) -> (ret: RefIt_<'a, T>) {
        let mut v: Vec<&'a T> = Vec::new();
        let mut i = self.k;
        while i < self.v.len()
            invariant self.wf(), self.k <= i <= self.v@.len(), v@.len() == i - self.k, forall|j: int| 0 <= j < v@.len() ==> *v@[j] == *self.v@[self.k + j],
            decreases self.v@.len() - i,
        { v.push(self.v[i]); i += 1; }
        let ret = RefIt_ { v, k: 0 };
        proof { assert(ret.seq() =~= self.rest_()); }
        ret
    }
}
fn rev_of_<'a, T>(a: RefIt_<'a, T>) -> (ret: RefIt_<'a, T>)
    requires a.pos() == 0,
    ensures ret.pos() == 0, ret.wf(), ret.seq().len() == a.seq().len(),
        forall|i: int| #![trigger ret.seq()[i]] 0 <= i < ret.seq().len() ==> ret.seq()[i] == a.seq()[ret.seq().len() - 1 - i],
{
    let mut v: Vec<&'a T> = Vec::new();
    let mut i = a.v.len();
    while i > 0
        invariant 0 <= i <= a.v@.len(), v@.len() == a.v@.len() - i, forall|j: int| 0 <= j < v@.len() ==> *v@[j] == *a.v@[a.v@.len() - 1 - j],
        decreases i,
    { i -= 1; v.push(a.v[i]); }
    RefIt_ { v, k: 0 }
}
fn skip_of_<'a, T>(a: RefIt_<'a, T>, n: usize) -> (ret: RefIt_<'a, T>)
    requires a.pos() == 0,
    ensures ret.pos() == 0, ret.wf(), ret.seq().len() == (if n <= a.seq().len() { a.seq().len() - n } else { 0 }),
        forall|i: int| #![trigger ret.seq()[i]] 0 <= i < ret.seq().len() ==> ret.seq()[i] == a.seq()[i + n],
{
    let mut v: Vec<&'a T> = Vec::new();
    let mut i = n;
    while i < a.v.len()
        invariant n <= i, i <= a.v@.len() || i == n, v@.len() == i - n, forall|j: int| 0 <= j < v@.len() ==> *v@[j] == *a.v@[n + j],
        decreases a.v@.len() - i,
    { v.push(a.v[i]); i += 1; }
    RefIt_ { v, k: 0 }
}
fn zip_of_<'a, T, U>(a: RefIt_<'a, T>, b: RefIt_<'a, U>) -> (ret: ZipIt_<'a, T, U>)
    requires a.pos() == 0, b.pos() == 0,
    ensures ret.pos() == 0, ret.wf(), ret.seq().len() == (if a.seq().len() <= b.seq().len() { a.seq().len() } else { b.seq().len() }),
        forall|i: int| #![trigger ret.seq()[i]] 0 <= i < ret.seq().len() ==> ret.seq()[i] == (a.seq()[i], b.seq()[i]),
{
    let mut v: Vec<(&'a T, &'a U)> = Vec::new();
    let mut i = 0;
    while i < a.v.len() && i < b.v.len()
        invariant 0 <= i <= a.v@.len(), i <= b.v@.len(), v@.len() == i, forall|j: int| 0 <= j < v@.len() ==> *v@[j].0 == *a.v@[j] && *v@[j].1 == *b.v@[j],
        decreases a.v@.len() - i,
    { v.push((a.v[i], b.v[i])); i += 1; }
    ZipIt_ { v, k: 0 }
}
impl<'a, T> VecIt<'a, T> {
    pub fn rev_(self) -> (ret: RefIt_<'a, T>)
        requires self.wf(),
        ensures ret.pos() == 0, ret.wf(), ret.seq().len() == self.rest_().len(),
            forall|i: int| #![trigger ret.seq()[i]] 0 <= i < ret.seq().len() ==> ret.seq()[i] == self.rest_()[ret.seq().len() - 1 - i],
            forall|i: int| #![trigger self.rest_()[i]] 0 <= i < ret.seq().len() ==> self.rest_()[i] == ret.seq()[ret.seq().len() - 1 - i],
    { rev_of_(self.refs_()) }
    pub fn skip_(self, n: usize) -> (ret: RefIt_<'a, T>)
        requires self.wf(),
        ensures ret.pos() == 0, ret.wf(), ret.seq().len() == (if n <= self.rest_().len() { self.rest_().len() - n } else { 0 }),
            forall|i: int| #![trigger ret.seq()[i]] 0 <= i < ret.seq().len() ==> ret.seq()[i] == self.rest_()[i + n],
            forall|i: int| #![trigger self.rest_()[i]] n <= i < self.rest_().len() ==> self.rest_()[i] == ret.seq()[i - n],
    { skip_of_(self.refs_(), n) }
    pub fn zip_<U, O: Refs_<'a, U>>(self, o: O) -> (ret: ZipIt_<'a, T, U>)
        requires self.wf(), o.ready_(),
        ensures ret.pos() == 0, ret.wf(), ret.seq().len() == (if self.rest_().len() <= o.rest_().len() { self.rest_().len() } else { o.rest_().len() }),
            forall|i: int| #![trigger ret.seq()[i]] #![trigger self.rest_()[i]] #![trigger o.rest_()[i]] 0 <= i < ret.seq().len() ==> ret.seq()[i] == (self.rest_()[i], o.rest_()[i]),
    { zip_of_(self.refs_(), o.refs_()) }
}
impl<'a, T> RefIt_<'a, T> {
    pub fn rev_(self) -> (ret: RefIt_<'a, T>)
        requires self.wf(),
        ensures ret.pos() == 0, ret.wf(), ret.seq().len() == self.rest_().len(),
            forall|i: int| #![trigger ret.seq()[i]] 0 <= i < ret.seq().len() ==> ret.seq()[i] == self.rest_()[ret.seq().len() - 1 - i],
            forall|i: int| #![trigger self.rest_()[i]] 0 <= i < ret.seq().len() ==> self.rest_()[i] == ret.seq()[ret.seq().len() - 1 - i],
    { rev_of_(self.refs_()) }
    pub fn skip_(self, n: usize) -> (ret: RefIt_<'a, T>)
        requires self.wf(),
        ensures ret.pos() == 0, ret.wf(), ret.seq().len() == (if n <= self.rest_().len() { self.rest_().len() - n } else { 0 }),
            forall|i: int| #![trigger ret.seq()[i]] 0 <= i < ret.seq().len() ==> ret.seq()[i] == self.rest_()[i + n],
            forall|i: int| #![trigger self.rest_()[i]] n <= i < self.rest_().len() ==> self.rest_()[i] == ret.seq()[i - n],
    { skip_of_(self.refs_(), n) }
    pub fn zip_<U, O: Refs_<'a, U>>(self, o: O) -> (ret: ZipIt_<'a, T, U>)
        requires self.wf(), o.ready_(),
        ensures ret.pos() == 0, ret.wf(), ret.seq().len() == (if self.rest_().len() <= o.rest_().len() { self.rest_().len() } else { o.rest_().len() }),
            forall|i: int| #![trigger ret.seq()[i]] #![trigger self.rest_()[i]] #![trigger o.rest_()[i]] 0 <= i < ret.seq().len() ==> ret.seq()[i] == (self.rest_()[i], o.rest_()[i]),
    { zip_of_(self.refs_(), o.refs_()) }
}
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(U)]
pub struct ZipIt_<'a, T, U> { v: Vec<(&'a T, &'a U)>, k: usize }
impl<'a, T, U> ZipIt_<'a, T, U> {
    pub closed spec fn pos(&self) -> int { self.k as int }
    pub closed spec fn seq(&self) -> Seq<(T, U)> { Seq::new(self.v@.len(), |i: int| (*self.v@[i].0, *self.v@[i].1)) }
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.seq().len() }
    pub open spec fn same_source_(&self, o: Self) -> bool { self.seq() == o.seq() }
    pub fn into_iter_(self) -> (r: Self) ensures r == self { self }
    pub fn has_next_(&self) -> (r: bool) ensures r == (self.pos() < self.seq().len()) { self.k < self.v.len() }
    pub fn next_(&mut self) -> (r: (&'a T, &'a U))
        requires 0 <= old(self).pos() < old(self).seq().len(),
        ensures final(self).pos() == old(self).pos() + 1, final(self).same_source_(*old(self)), *r.0 == old(self).seq()[old(self).pos()].0, *r.1 == old(self).seq()[old(self).pos()].1,
    { let k = self.k; proof { assert(k < self.v.len()); } self.k = k + 1; let p = &self.v[k]; (p.0, p.1) }
    pub fn next(&mut self) -> (r: Option<(&'a T, &'a U)>)
        requires old(self).wf(),
        ensures final(self).wf(), match r { None => old(self).pos() == old(self).seq().len() && *final(self) == *old(self), Some(x) => old(self).pos() < old(self).seq().len() && (final(self).pos() == old(self).pos() + 1) && (final(self).same_source_(*old(self))) && (*x.0 == old(self).seq()[old(self).pos()].0) && (*x.1 == old(self).seq()[old(self).pos()].1) },
    { if self.has_next_() { Some(self.next_()) } else { None } }
}
/// the runs of `n` neighbours
#[verifier::reject_recursive_types(T)]
pub struct WinIt_<'a, T> { v: Vec<&'a [T]>, k: usize, n: Ghost<int> }
impl<'a, T> WinIt_<'a, T> {
    pub closed spec fn pos(&self) -> int { self.k as int }
    pub closed spec fn seq(&self) -> Seq<Seq<T>> { Seq::new(self.v@.len(), |i: int| self.v@[i]@) }
    pub closed spec fn width(&self) -> int { self.n@ }
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.seq().len() && forall|i: int| 0 <= i < self.seq().len() ==> (#[trigger] self.seq()[i]).len() == self.width() }
    pub open spec fn same_source_(&self, o: Self) -> bool { self.seq() == o.seq() && self.width() == o.width() }
    pub fn into_iter_(self) -> (r: Self) ensures r == self { self }
    pub fn has_next_(&self) -> (r: bool) ensures r == (self.pos() < self.seq().len()) { self.k < self.v.len() }
    pub fn next_(&mut self) -> (r: &'a [T])
        requires 0 <= old(self).pos() < old(self).seq().len(),
        ensures final(self).pos() == old(self).pos() + 1, final(self).same_source_(*old(self)), r@ == old(self).seq()[old(self).pos()],
    { let k = self.k; proof { assert(k < self.v.len()); } self.k = k + 1; self.v[k] }
    pub fn next(&mut self) -> (r: Option<&'a [T]>)
        requires old(self).wf(),
        ensures final(self).wf(), match r { None => old(self).pos() == old(self).seq().len() && *final(self) == *old(self), Some(x) => old(self).pos() < old(self).seq().len() && (final(self).pos() == old(self).pos() + 1) && (final(self).same_source_(*old(self))) && (x@ == old(self).seq()[old(self).pos()]) },
    { if self.has_next_() { Some(self.next_()) } else { None } }
}
pub trait Windows_<'a, T> { fn windows_(&'a self, n: usize) -> (ret: WinIt_<'a, T>) requires n > 0; }
impl<'a, T> Windows_<'a, T> for Vec<T> {
    fn windows_(&'a self, n: usize) -> (ret: WinIt_<'a, T>)
        ensures ret.pos() == 0, ret.wf(), ret.width() == n, ret.seq().len() == (if n <= self@.len() { self@.len() - n + 1 } else { 0 }),
            forall|i: int, j: int| #![trigger ret.seq()[i][j]] 0 <= i < ret.seq().len() && 0 <= j < n ==> ret.seq()[i][j] == self@[i + j],
            forall|i: int| #![trigger self@[i]] #![trigger ret.seq()[i]] 0 <= i < ret.seq().len() ==> ret.seq()[i][0] == self@[i] && (n > 1 ==> ret.seq()[i][1] == self@[i + 1]),
    {
        let mut v: Vec<&'a [T]> = Vec::new();
        let mut i = 0;
        while n <= self.len() && i < self.len() - n + 1
            invariant 0 <= i <= self@.len(), n > 0, n <= self@.len() ==> i <= self@.len() - n + 1, n > self@.len() ==> i == 0, v@.len() == i,
                forall|j: int| 0 <= j < v@.len() ==> (#[trigger] v@[j])@ == self@.subrange(j, j + n),
            decreases self@.len() - i,
        { v.push(vstd::slice::slice_subrange(self.as_slice(), i, i + n)); i += 1; }
        let ret = WinIt_ { v, k: 0, n: Ghost(n as int) };
        proof { assert forall|i: int| 0 <= i < ret.seq().len() implies (#[trigger] ret.seq()[i]) == self@.subrange(i, i + n) by {}; }
        ret
    }
}
// ---- the elements themselves, in order
#[verifier::reject_recursive_types(T)]
pub struct OwnIt_<T> { v: Vec<T>, all: Ghost<Seq<T>> }
impl<T> OwnIt_<T> {
    #[verifier::type_invariant]
    spec fn inv(self) -> bool { self.v@.len() <= self.all@.len() && self.v@ == self.all@.skip(self.all@.len() - self.v@.len()) }
    pub closed spec fn pos(&self) -> int { self.all@.len() - self.v@.len() }
    pub closed spec fn seq(&self) -> Seq<T> { self.all@ }
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.seq().len() }
    pub open spec fn same_source_(&self, o: Self) -> bool { self.seq() == o.seq() }
    pub fn into_iter_(self) -> (r: Self) ensures r == self { self }
    pub fn has_next_(&self) -> (r: bool) ensures r == (self.pos() < self.seq().len()) { self.v.len() > 0 }
    pub fn next_(&mut self) -> (r: T)
        requires 0 <= old(self).pos() < old(self).seq().len(),
        ensures final(self).pos() == old(self).pos() + 1, final(self).same_source_(*old(self)), r == old(self).seq()[old(self).pos()],
    {
        proof { use_type_invariant(&*self); assert(Seq::<T>::empty() =~= Seq::<T>::empty().skip(0)); }
        let mut me = OwnIt_ { v: Vec::new(), all: Ghost(Seq::empty()) };
        core::mem::swap(self, &mut me);
        proof { use_type_invariant(&me); }
        let OwnIt_ { v, all } = me;
        let mut v = v;
        let r = v.remove(0);
        proof { assert(v@ =~= all@.skip(all@.len() - v@.len())); }
        *self = OwnIt_ { v, all };
        r
    }
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).wf(),
        ensures final(self).wf(), match r { None => old(self).pos() == old(self).seq().len() && *final(self) == *old(self), Some(x) => old(self).pos() < old(self).seq().len() && (final(self).pos() == old(self).pos() + 1) && (final(self).same_source_(*old(self))) && (x == old(self).seq()[old(self).pos()]) },
    { if self.has_next_() { Some(self.next_()) } else { None } }
}
impl<T> IntoIterRef_<'static> for Vec<T> {
    type I = OwnIt_<T>;
    fn into_iter_(self) -> (ret: OwnIt_<T>) ensures ret.pos() == 0, ret.seq() == self@, ret.wf() {
        proof { assert(self@ =~= self@.skip(0)); }
        let ghost all = self@;
        OwnIt_ { v: self, all: Ghost(all) }
    }
}
// ---- std::mem, std::cmp
pub fn mem__replace<T>(d: &mut T, v: T) -> (ret: T) ensures ret == *old(d), *final(d) == v { let mut v = v; core::mem::swap(d, &mut v); v }
pub fn mem__swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { core::mem::swap(a, b) }
pub fn mem__take<T: Default_>(d: &mut T) -> (ret: T) ensures ret == *old(d), (*final(d)).is_default_() { mem__replace(d, T::default_()) }
pub fn cmp__min<T: Num_>(a: T, b: T) -> (ret: T) ensures ret == (if a.n_() <= b.n_() { a } else { b }) { a.min_(b) }
pub fn cmp__max<T: Num_>(a: T, b: T) -> (ret: T) ensures ret == (if a.n_() > b.n_() { a } else { b }) { a.max_(b) }
