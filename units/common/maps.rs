/// `ks` lists every key of `m` exactly once
pub open spec fn ords_<K: View, V>(ks: Seq<K>, m: Map<K::V, V>) -> bool {
    &&& forall|i: int| #![trigger ks[i]] 0 <= i < ks.len() ==> m.dom().contains(ks[i]@)
    &&& forall|i: int, j: int| #![trigger ks[i], ks[j]] 0 <= i < j < ks.len() ==> ks[i]@ != ks[j]@
    &&& forall|k: K::V| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < ks.len() && (#[trigger] ks[i])@ == k
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapRef_<'a, K, V> { k: core::marker::PhantomData<(&'a K, &'a V)> }
impl<'a, K: View, V> MapRef_<'a, K, V> {
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn keys(&self) -> Seq<K>;
    pub uninterp spec fn map(&self) -> Map<K::V, V>;
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.keys().len() }
    pub open spec fn same_source_(&self, o: Self) -> bool { self.keys() == o.keys() && self.map() == o.map() }
    pub fn into_iter_(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn has_next_(&self) -> (r: bool) ensures r == (self.pos() < self.keys().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_(&mut self) -> (r: (&'a K, &'a V))
        requires 0 <= old(self).pos() < old(self).keys().len(),
        ensures final(self).pos() == old(self).pos() + 1, final(self).same_source_(*old(self)),
            *r.0 == old(self).keys()[old(self).pos()], *r.1 == old(self).map()[r.0@], old(self).map().dom().contains(r.0@),
    { unimplemented!() }
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a V)>)
        requires old(self).wf(),
        ensures final(self).wf(), match r { None => old(self).pos() == old(self).keys().len() && *final(self) == *old(self), Some(x) => old(self).pos() < old(self).keys().len() && (final(self).pos() == old(self).pos() + 1) && (final(self).same_source_(*old(self))) && (*x.0 == old(self).keys()[old(self).pos()]) && (*x.1 == old(self).map()[x.0@]) && (old(self).map().dom().contains(x.0@)) },
    { if self.has_next_() { Some(self.next_()) } else { None } }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapKeys_<'a, K, V> { k: core::marker::PhantomData<(&'a K, &'a V)> }
impl<'a, K: View, V> MapKeys_<'a, K, V> {
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn keys(&self) -> Seq<K>;
    pub uninterp spec fn map(&self) -> Map<K::V, V>;
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.keys().len() }
    pub open spec fn same_source_(&self, o: Self) -> bool { self.keys() == o.keys() && self.map() == o.map() }
    pub fn into_iter_(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn has_next_(&self) -> (r: bool) ensures r == (self.pos() < self.keys().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_(&mut self) -> (r: &'a K)
        requires 0 <= old(self).pos() < old(self).keys().len(),
        ensures final(self).pos() == old(self).pos() + 1, final(self).same_source_(*old(self)),
            *r == old(self).keys()[old(self).pos()], old(self).map().dom().contains(r@),
    { unimplemented!() }
    pub fn next(&mut self) -> (r: Option<&'a K>)
        requires old(self).wf(),
        ensures final(self).wf(), match r { None => old(self).pos() == old(self).keys().len() && *final(self) == *old(self), Some(x) => old(self).pos() < old(self).keys().len() && (final(self).pos() == old(self).pos() + 1) && (final(self).same_source_(*old(self))) && (*x == old(self).keys()[old(self).pos()]) && (old(self).map().dom().contains(x@)) },
    { if self.has_next_() { Some(self.next_()) } else { None } }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapValues_<'a, K, V> { k: core::marker::PhantomData<(&'a K, &'a V)> }
impl<'a, K: View, V> MapValues_<'a, K, V> {
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn keys(&self) -> Seq<K>;
    pub uninterp spec fn map(&self) -> Map<K::V, V>;
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.keys().len() }
    pub open spec fn same_source_(&self, o: Self) -> bool { self.keys() == o.keys() && self.map() == o.map() }
    pub fn into_iter_(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn has_next_(&self) -> (r: bool) ensures r == (self.pos() < self.keys().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_(&mut self) -> (r: &'a V)
        requires 0 <= old(self).pos() < old(self).keys().len(),
        ensures final(self).pos() == old(self).pos() + 1, final(self).same_source_(*old(self)),
            *r == old(self).map()[old(self).keys()[old(self).pos()]@],
    { unimplemented!() }
    pub fn next(&mut self) -> (r: Option<&'a V>)
        requires old(self).wf(),
        ensures final(self).wf(), match r { None => old(self).pos() == old(self).keys().len() && *final(self) == *old(self), Some(x) => old(self).pos() < old(self).keys().len() && (final(self).pos() == old(self).pos() + 1) && (final(self).same_source_(*old(self))) && (*x == old(self).map()[old(self).keys()[old(self).pos()]@]) },
    { if self.has_next_() { Some(self.next_()) } else { None } }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapOwned_<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K: View, V> MapOwned_<K, V> {
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn keys(&self) -> Seq<K>;
    pub uninterp spec fn map(&self) -> Map<K::V, V>;
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.keys().len() }
    pub open spec fn same_source_(&self, o: Self) -> bool { self.keys() == o.keys() && self.map() == o.map() }
    pub fn into_iter_(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn has_next_(&self) -> (r: bool) ensures r == (self.pos() < self.keys().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_(&mut self) -> (r: (K, V))
        requires 0 <= old(self).pos() < old(self).keys().len(),
        ensures final(self).pos() == old(self).pos() + 1, final(self).same_source_(*old(self)),
            r.0 == old(self).keys()[old(self).pos()], r.1 == old(self).map()[r.0@], old(self).map().dom().contains(r.0@),
    { unimplemented!() }
    pub fn next(&mut self) -> (r: Option<(K, V)>)
        requires old(self).wf(),
        ensures final(self).wf(), match r { None => old(self).pos() == old(self).keys().len() && *final(self) == *old(self), Some(x) => old(self).pos() < old(self).keys().len() && (final(self).pos() == old(self).pos() + 1) && (final(self).same_source_(*old(self))) && (x.0 == old(self).keys()[old(self).pos()]) && (x.1 == old(self).map()[x.0@]) && (old(self).map().dom().contains(x.0@)) },
    { if self.has_next_() { Some(self.next_()) } else { None } }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct MapMut_<'a, K, V> { k: core::marker::PhantomData<(&'a K, &'a mut V)> }
impl<'a, K: View, V> MapMut_<'a, K, V> {
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn keys(&self) -> Seq<K>;
    /// the values before the iteration
    pub uninterp spec fn map(&self) -> Map<K::V, V>;
    /// the values after the iteration
    pub uninterp spec fn after(&self) -> Map<K::V, V>;
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.keys().len() }
    pub open spec fn same_source_(&self, o: Self) -> bool { self.keys() == o.keys() && self.map() == o.map() && self.after() == o.after() }
    pub fn into_iter_(self) -> (r: Self) ensures r == self { self }
    #[verifier::external_body]
    pub fn has_next_(&self) -> (r: bool) ensures r == (self.pos() < self.keys().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn next_(&mut self) -> (r: (&'a K, &'a mut V))
        requires 0 <= old(self).pos() < old(self).keys().len(),
        ensures final(self).pos() == old(self).pos() + 1, final(self).same_source_(*old(self)),
            *r.0 == old(self).keys()[old(self).pos()], *r.1 == old(self).map()[r.0@], old(self).map().dom().contains(r.0@),
            *final(r.1) == old(self).after()[r.0@],
    { unimplemented!() }
    pub fn next(&mut self) -> (r: Option<(&'a K, &'a mut V)>)
        requires old(self).wf(),
        ensures final(self).wf(), match r { None => old(self).pos() == old(self).keys().len() && *final(self) == *old(self), Some(x) => old(self).pos() < old(self).keys().len() && (final(self).pos() == old(self).pos() + 1) && (final(self).same_source_(*old(self))) && (*x.0 == old(self).keys()[old(self).pos()]) && (*x.1 == old(self).map()[x.0@]) && (old(self).map().dom().contains(x.0@)) && (*final(x.1) == old(self).after()[x.0@]) },
    { if self.has_next_() { Some(self.next_()) } else { None } }
}
// ---- HashMap: contract assumed of the standard library's map (keys compared by their value)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K: View, V> View for HashMap<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
impl<K: View, V> HashMap<K, V> {
    /// the order in which this map object yields its keys
    pub uninterp spec fn ord(&self) -> Seq<K>;
    pub open spec fn spec_empty(&self) -> bool { self@ == Map::<K::V, V>::empty() }
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret.spec_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (ret: Self) ensures ret.spec_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (ret: Self) ensures ret.spec_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (ret: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v), ret == if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (ret: Option<V>)
        ensures final(self)@ == old(self)@.remove(k@), ret == if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (ret: Option<(K, V)>)
        ensures final(self)@ == old(self)@.remove(k@), (ret is Some) == old(self)@.dom().contains(k@),
            ret matches Some((a, b)) ==> a@ == k@ && b == old(self)@[k@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (ret: Option<&V>)
        ensures (ret is Some) == self@.dom().contains(k@), ret matches Some(v) ==> *v == self@[k@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (ret: Option<&mut V>)
        ensures
            (ret is Some) == old(self)@.dom().contains(k@),
            ret matches Some(v) ==> *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)),
            ret is None ==> *final(self) == *old(self),
    { unimplemented!() }
    /// `entry(k).or_insert(v)`; `v` may be left out when the key is there
    #[verifier::external_body]
    pub fn entry_or_(&mut self, k: K, v: Option<V>) -> (ret: &mut V)
        requires v is None ==> old(self)@.dom().contains(k@),
        ensures
            *ret == (if old(self)@.dom().contains(k@) { old(self)@[k@] } else { v->0 }),
            final(self)@ == old(self)@.insert(k@, *final(ret)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (ret: bool) ensures ret == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (ret: bool) ensures ret == (self@.dom() =~= vstd::set::Set::<K::V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).spec_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn drain_(&mut self) -> (ret: MapOwned_<K, V>)
        ensures final(self).spec_empty(), ret.pos() == 0, ret.keys() == old(self).ord(), ret.map() == old(self)@, ret.wf(), ords_(ret.keys(), ret.map()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter_(self) -> (ret: MapOwned_<K, V>)
        ensures ret.pos() == 0, ret.keys() == self.ord(), ret.map() == self@, ret.wf(), ords_(ret.keys(), ret.map()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_<'a>(&'a self) -> (ret: MapRef_<'a, K, V>)
        ensures ret.pos() == 0, ret.keys() == self.ord(), ret.map() == self@, ret.wf(), ords_(ret.keys(), ret.map()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_mut_<'a>(&'a mut self) -> (ret: MapMut_<'a, K, V>)
        ensures ret.pos() == 0, ret.keys() == old(self).ord(), ret.map() == old(self)@, ret.wf(), ords_(ret.keys(), ret.map()),
            final(self)@ == ret.after(), ret.after().dom() == ret.map().dom(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys_<'a>(&'a self) -> (ret: MapKeys_<'a, K, V>)
        ensures ret.pos() == 0, ret.keys() == self.ord(), ret.map() == self@, ret.wf(), ords_(ret.keys(), ret.map()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values_<'a>(&'a self) -> (ret: MapValues_<'a, K, V>)
        ensures ret.pos() == 0, ret.keys() == self.ord(), ret.map() == self@, ret.wf(), ords_(ret.keys(), ret.map()),
    { unimplemented!() }
}
impl<K: View, V> Clone for HashMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<K: View, V> Len_ for HashMap<K, V> {
    uninterp spec fn spec_len_(&self) -> nat;
    #[verifier::external_body]
    fn len_(&self) -> (ret: usize) ensures ret == self@.dom().len(), ret == self.spec_len_(), ret <= isize::MAX { unimplemented!() }
}
impl<'a, K: View, V> IntoIterRef_<'a> for &'a HashMap<K, V> {
    type I = MapRef_<'a, K, V>;
    #[verifier::external_body]
    fn into_iter_(self) -> (ret: MapRef_<'a, K, V>)
        ensures ret.pos() == 0, ret.keys() == self.ord(), ret.map() == self@, ret.wf(), ords_(ret.keys(), ret.map()),
    { unimplemented!() }
}
// ---- BTreeMap: contract assumed of the standard library's map (keys compared by their value)
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BTreeMap<K, V> { k: core::marker::PhantomData<K>, v: core::marker::PhantomData<V> }
impl<K: View, V> View for BTreeMap<K, V> { type V = Map<K::V, V>; uninterp spec fn view(&self) -> Map<K::V, V>; }
impl<K: View, V> BTreeMap<K, V> {
    /// the order in which this map object yields its keys
    pub uninterp spec fn ord(&self) -> Seq<K>;
    pub open spec fn spec_empty(&self) -> bool { self@ == Map::<K::V, V>::empty() }
    #[verifier::external_body]
    pub fn new() -> (ret: Self) ensures ret.spec_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (ret: Self) ensures ret.spec_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (ret: Self) ensures ret.spec_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (ret: Option<V>)
        ensures final(self)@ == old(self)@.insert(k@, v), ret == if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (ret: Option<V>)
        ensures final(self)@ == old(self)@.remove(k@), ret == if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (ret: Option<(K, V)>)
        ensures final(self)@ == old(self)@.remove(k@), (ret is Some) == old(self)@.dom().contains(k@),
            ret matches Some((a, b)) ==> a@ == k@ && b == old(self)@[k@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (ret: Option<&V>)
        ensures (ret is Some) == self@.dom().contains(k@), ret matches Some(v) ==> *v == self@[k@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: View<V = K::V> + ?Sized>(&mut self, k: &Q) -> (ret: Option<&mut V>)
        ensures
            (ret is Some) == old(self)@.dom().contains(k@),
            ret matches Some(v) ==> *v == old(self)@[k@] && final(self)@ == old(self)@.insert(k@, *final(v)),
            ret is None ==> *final(self) == *old(self),
    { unimplemented!() }
    /// `entry(k).or_insert(v)`; `v` may be left out when the key is there
    #[verifier::external_body]
    pub fn entry_or_(&mut self, k: K, v: Option<V>) -> (ret: &mut V)
        requires v is None ==> old(self)@.dom().contains(k@),
        ensures
            *ret == (if old(self)@.dom().contains(k@) { old(self)@[k@] } else { v->0 }),
            final(self)@ == old(self)@.insert(k@, *final(ret)),
    { unimplemented!() }
    /// the order of the keys is not modelled: some entry
    #[verifier::external_body]
    pub fn pop_first(&mut self) -> (ret: Option<(K, V)>)
        ensures match ret {
            None => old(self).spec_empty() && *final(self) == *old(self),
            Some((k, v)) => old(self)@.dom().contains(k@) && v == old(self)@[k@] && final(self)@ == old(self)@.remove(k@),
        },
    { unimplemented!() }
    pub fn pop_last(&mut self) -> (ret: Option<(K, V)>)
        ensures match ret {
            None => old(self).spec_empty() && *final(self) == *old(self),
            Some((k, v)) => old(self)@.dom().contains(k@) && v == old(self)@[k@] && final(self)@ == old(self)@.remove(k@),
        },
    { self.pop_first() }
    #[verifier::external_body]
    pub fn first_key_value(&self) -> (ret: Option<(&K, &V)>)
        ensures match ret { None => self.spec_empty(), Some((k, v)) => self@.dom().contains(k@) && *v == self@[k@] },
    { unimplemented!() }
    pub fn last_key_value(&self) -> (ret: Option<(&K, &V)>)
        ensures match ret { None => self.spec_empty(), Some((k, v)) => self@.dom().contains(k@) && *v == self@[k@] },
    { self.first_key_value() }
    #[verifier::external_body]
    pub fn contains_key<Q: View<V = K::V> + ?Sized>(&self, k: &Q) -> (ret: bool) ensures ret == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (ret: bool) ensures ret == (self@.dom() =~= vstd::set::Set::<K::V>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self).spec_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn drain_(&mut self) -> (ret: MapOwned_<K, V>)
        ensures final(self).spec_empty(), ret.pos() == 0, ret.keys() == old(self).ord(), ret.map() == old(self)@, ret.wf(), ords_(ret.keys(), ret.map()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter_(self) -> (ret: MapOwned_<K, V>)
        ensures ret.pos() == 0, ret.keys() == self.ord(), ret.map() == self@, ret.wf(), ords_(ret.keys(), ret.map()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_<'a>(&'a self) -> (ret: MapRef_<'a, K, V>)
        ensures ret.pos() == 0, ret.keys() == self.ord(), ret.map() == self@, ret.wf(), ords_(ret.keys(), ret.map()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter_mut_<'a>(&'a mut self) -> (ret: MapMut_<'a, K, V>)
        ensures ret.pos() == 0, ret.keys() == old(self).ord(), ret.map() == old(self)@, ret.wf(), ords_(ret.keys(), ret.map()),
            final(self)@ == ret.after(), ret.after().dom() == ret.map().dom(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys_<'a>(&'a self) -> (ret: MapKeys_<'a, K, V>)
        ensures ret.pos() == 0, ret.keys() == self.ord(), ret.map() == self@, ret.wf(), ords_(ret.keys(), ret.map()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values_<'a>(&'a self) -> (ret: MapValues_<'a, K, V>)
        ensures ret.pos() == 0, ret.keys() == self.ord(), ret.map() == self@, ret.wf(), ords_(ret.keys(), ret.map()),
    { unimplemented!() }
}
impl<K: View, V> Clone for BTreeMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<K: View, V> Len_ for BTreeMap<K, V> {
    uninterp spec fn spec_len_(&self) -> nat;
    #[verifier::external_body]
    fn len_(&self) -> (ret: usize) ensures ret == self@.dom().len(), ret == self.spec_len_(), ret <= isize::MAX { unimplemented!() }
}
impl<'a, K: View, V> IntoIterRef_<'a> for &'a BTreeMap<K, V> {
    type I = MapRef_<'a, K, V>;
    #[verifier::external_body]
    fn into_iter_(self) -> (ret: MapRef_<'a, K, V>)
        ensures ret.pos() == 0, ret.keys() == self.ord(), ret.map() == self@, ret.wf(), ords_(ret.keys(), ret.map()),
    { unimplemented!() }
}
impl<K: View, V> Default_ for HashMap<K, V> { open spec fn is_default_(&self) -> bool { self.spec_empty() } fn default_() -> (ret: Self) { HashMap::new() } }
impl<K: View, V> Default_ for BTreeMap<K, V> { open spec fn is_default_(&self) -> bool { self.spec_empty() } fn default_() -> (ret: Self) { BTreeMap::new() } }
impl<K: View, V> Collect_<(K, V)> for HashMap<K, V> {
    fn new_() -> (ret: Self) ensures ret.spec_empty() { HashMap::new() }
    fn push_(&mut self, x: (K, V)) ensures final(self)@ == old(self)@.insert(x.0@, x.1) { self.insert(x.0, x.1); }
}
impl<K: View, V> Collect_<(K, V)> for BTreeMap<K, V> {
    fn new_() -> (ret: Self) ensures ret.spec_empty() { BTreeMap::new() }
    fn push_(&mut self, x: (K, V)) ensures final(self)@ == old(self)@.insert(x.0@, x.1) { self.insert(x.0, x.1); }
}
