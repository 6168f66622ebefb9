// ---- VecDeque and HashSet: contracts assumed of the standard library
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { v: Vec<T> }
impl<T> View for VecDeque<T> { type V = Seq<T>; closed spec fn view(&self) -> Seq<T> { self.v@ } }
impl<T> VecDeque<T> {
    pub fn new() -> (ret: Self) ensures ret@.len() == 0 { VecDeque { v: Vec::new() } }
    pub fn default() -> (ret: Self) ensures ret@.len() == 0 { VecDeque { v: Vec::new() } }
    pub fn with_capacity(n: usize) -> (ret: Self) ensures ret@.len() == 0 { VecDeque { v: Vec::new() } }
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
    /// of retain's desugaring
    pub fn push(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { self.v.push(x) }
    pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { self.v.insert(0, x); proof { assert(self@ =~= seq![x] + old(self)@); } }
    pub fn pop_front(&mut self) -> (ret: Option<T>)
        ensures match ret { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first() },
    { if self.v.len() == 0 { None } else { let r = self.v.remove(0); proof { assert(self@ =~= old(self)@.drop_first()); } Some(r) } }
    pub fn pop_back(&mut self) -> (ret: Option<T>)
        ensures match ret { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last() },
    { self.v.pop() }
    pub fn front(&self) -> (ret: Option<&T>) ensures match ret { None => self@.len() == 0, Some(x) => self@.len() > 0 && *x == self@[0] } { self.get(0) }
    pub fn back(&self) -> (ret: Option<&T>) ensures match ret { None => self@.len() == 0, Some(x) => self@.len() > 0 && *x == self@.last() } { let n = self.v.len(); if n == 0 { None } else { Some(&self.v[n - 1]) } }
    pub fn get(&self, i: usize) -> (ret: Option<&T>) ensures match ret { None => i >= self@.len(), Some(x) => i < self@.len() && *x == self@[i as int] } { if i < self.v.len() { Some(&self.v[i]) } else { None } }
    pub fn remove(&mut self, i: usize) -> (ret: Option<T>)
        ensures match ret { None => i >= old(self)@.len() && final(self)@ == old(self)@, Some(x) => i < old(self)@.len() && x == old(self)@[i as int] && final(self)@ == old(self)@.remove(i as int) },
    { if i < self.v.len() { Some(self.v.remove(i)) } else { None } }
    pub fn insert(&mut self, i: usize, x: T) requires i <= old(self)@.len(), ensures final(self)@ == old(self)@.insert(i as int, x) { self.v.insert(i, x) }
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == if n < old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ } {
        if n < self.v.len() { self.v.truncate(n); proof { assert(self@ =~= old(self)@.subrange(0, n as int)); } }
    }
    pub fn append(&mut self, o: &mut VecDeque<T>) ensures final(self)@ == old(self)@ + old(o)@, final(o)@.len() == 0 { self.v.append(&mut o.v) }
    pub fn swap(&mut self, i: usize, j: usize)
        requires i < old(self)@.len(), j < old(self)@.len(),
        ensures final(self)@ == old(self)@.update(i as int, old(self)@[j as int]).update(j as int, old(self)@[i as int]),
    {
        if i == j { proof { assert(self@ =~= old(self)@.update(i as int, old(self)@[j as int]).update(j as int, old(self)@[i as int])); } return; }
        let (a, b) = if i < j { (i, j) } else { (j, i) };
        let y = self.v.remove(b); let x = self.v.remove(a);
        self.v.insert(a, y); self.v.insert(b, x);
        proof { assert(self@ =~= old(self)@.update(i as int, old(self)@[j as int]).update(j as int, old(self)@[i as int])); }
    }
    pub fn rotate_left(&mut self, n: usize)
        requires n <= old(self)@.len(),
        ensures final(self)@ == old(self)@.subrange(n as int, old(self)@.len() as int) + old(self)@.subrange(0, n as int),
    {
        let mut t = self.v.split_off(n);
        t.append(&mut self.v);
        self.v = t;
    }
    pub fn rotate_right(&mut self, n: usize)
        requires n <= old(self)@.len(),
        ensures final(self)@ == old(self)@.subrange(old(self)@.len() - n, old(self)@.len() as int) + old(self)@.subrange(0, old(self)@.len() - n),
    { let k = self.v.len() - n; self.rotate_left(k) }
    pub fn split_off(&mut self, n: usize) -> (ret: VecDeque<T>)
        requires n <= old(self)@.len(),
        ensures final(self)@ == old(self)@.subrange(0, n as int), ret@ == old(self)@.subrange(n as int, old(self)@.len() as int),
    { VecDeque { v: self.v.split_off(n) } }
    pub fn swap_remove_front(&mut self, i: usize) -> (ret: Option<T>)
        ensures match ret { None => i >= old(self)@.len() && final(self)@ == old(self)@, Some(x) => i < old(self)@.len() && x == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, old(self)@[0]).drop_first() },
    { if i < self.v.len() { self.swap(0, i); let r = self.v.remove(0); proof { assert(self@ =~= old(self)@.update(i as int, old(self)@[0]).drop_first()); } Some(r) } else { None } }
    pub fn swap_remove_back(&mut self, i: usize) -> (ret: Option<T>)
        ensures match ret { None => i >= old(self)@.len() && final(self)@ == old(self)@, Some(x) => i < old(self)@.len() && x == old(self)@[i as int] && final(self)@ == old(self)@.update(i as int, old(self)@.last()).drop_last() },
    { let n = self.v.len(); if i < n { self.swap(i, n - 1); let r = self.v.remove(n - 1); proof { assert(self@ =~= old(self)@.update(i as int, old(self)@.last()).drop_last()); } Some(r) } else { None } }
    pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { }
    pub fn shrink_to_fit(&mut self) ensures final(self)@ == old(self)@ { }
    pub fn capacity(&self) -> (ret: usize) ensures ret >= self@.len() { self.v.len() }
    pub fn is_empty(&self) -> (ret: bool) ensures ret == (self@.len() == 0) { self.v.len() == 0 }
    pub fn clear(&mut self) ensures final(self)@.len() == 0 { self.v.clear() }
    pub fn iter_<'a>(&'a self) -> (ret: DequeIt<'a, T>) ensures ret.pos() == 0, ret.seq() == self@, ret.wf() { DequeIt { v: self, k: 0 } }
}
impl<T: View> VecDeque<T> {
    #[verifier::external_body]
    pub fn contains(&self, x: &T) -> (ret: bool) ensures ret == exists|i: int| 0 <= i < self@.len() && (#[trigger] self@[i])@ == x@ { unimplemented!() }
}
impl<T> Len_ for VecDeque<T> { open spec fn spec_len_(&self) -> nat { self@.len() } fn len_(&self) -> (ret: usize) ensures ret == self@.len() { self.v.len() } }
impl<T> Default_ for VecDeque<T> { open spec fn is_default_(&self) -> bool { self@.len() == 0 } fn default_() -> (ret: Self) { VecDeque::new() } }
#[verifier::reject_recursive_types(T)]
pub struct DequeIt<'a, T> { v: &'a VecDeque<T>, k: usize }
impl<'a, T> DequeIt<'a, T> {
    pub closed spec fn pos(&self) -> int { self.k as int }
    pub closed spec fn seq(&self) -> Seq<T> { self.v@ }
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.seq().len() }
    pub open spec fn same_source_(&self, o: Self) -> bool { self.seq() == o.seq() }
    pub fn into_iter_(self) -> (r: Self) ensures r == self { self }
    pub fn has_next_(&self) -> (r: bool) ensures r == (self.pos() < self.seq().len()) { self.k < self.v.len_() }
    pub fn next_(&mut self) -> (r: &'a T)
        requires 0 <= old(self).pos() < old(self).seq().len(),
        ensures final(self).pos() == old(self).pos() + 1, final(self).same_source_(*old(self)), *r == old(self).seq()[old(self).pos()],
    { let k = self.k; let n = self.v.len_(); self.k = k + 1; self.v.get(k).unwrap() }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf(),
        ensures final(self).wf(), match r { None => old(self).pos() == old(self).seq().len() && *final(self) == *old(self), Some(x) => old(self).pos() < old(self).seq().len() && (final(self).pos() == old(self).pos() + 1) && (final(self).same_source_(*old(self))) && (*x == old(self).seq()[old(self).pos()]) },
    { if self.has_next_() { Some(self.next_()) } else { None } }
}
impl<'a, T> IntoIterRef_<'a> for &'a VecDeque<T> {
    type I = DequeIt<'a, T>;
    fn into_iter_(self) -> (ret: DequeIt<'a, T>) ensures ret.pos() == 0, ret.seq() == self@, ret.wf() { DequeIt { v: self, k: 0 } }
}
impl<T> IntoIterRef_<'static> for VecDeque<T> {
    type I = OwnIt_<T>;
    fn into_iter_(self) -> (ret: OwnIt_<T>) ensures ret.pos() == 0, ret.seq() == self@, ret.wf() { self.v.into_iter_() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: core::marker::PhantomData<K> }
impl<K: View> View for HashSet<K> { type V = vstd::set::Set<K::V>; uninterp spec fn view(&self) -> vstd::set::Set<K::V>; }
impl<K: View> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret@ == vstd::set::Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (ret: Self) ensures ret@ == vstd::set::Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (ret: Self) ensures ret@ == vstd::set::Set::<K::V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (ret: bool) ensures final(self)@ == old(self)@.insert(k@), ret == !old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (ret: bool) ensures final(self)@ == old(self)@.remove(k@), ret == old(self)@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (ret: bool) ensures ret == self@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (ret: bool) ensures ret == (self@ =~= vstd::set::Set::<K::V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == vstd::set::Set::<K::V>::empty() { unimplemented!() }
}
impl<K: View> Len_ for HashSet<K> { uninterp spec fn spec_len_(&self) -> nat; #[verifier::external_body] fn len_(&self) -> (ret: usize) ensures ret <= isize::MAX, ret == self@.len(), ret == self.spec_len_() { unimplemented!() } }
