/// keys a sort may order by
pub trait KeyOrd_ { spec fn le_(&self, o: &Self) -> bool; }
impl KeyOrd_ for u8 { open spec fn le_(&self, o: &u8) -> bool { *self <= *o } }
impl KeyOrd_ for u16 { open spec fn le_(&self, o: &u16) -> bool { *self <= *o } }
impl KeyOrd_ for u32 { open spec fn le_(&self, o: &u32) -> bool { *self <= *o } }
impl KeyOrd_ for u64 { open spec fn le_(&self, o: &u64) -> bool { *self <= *o } }
impl KeyOrd_ for usize { open spec fn le_(&self, o: &usize) -> bool { *self <= *o } }
impl KeyOrd_ for i8 { open spec fn le_(&self, o: &i8) -> bool { *self <= *o } }
impl KeyOrd_ for i16 { open spec fn le_(&self, o: &i16) -> bool { *self <= *o } }
impl KeyOrd_ for i32 { open spec fn le_(&self, o: &i32) -> bool { *self <= *o } }
impl KeyOrd_ for i64 { open spec fn le_(&self, o: &i64) -> bool { *self <= *o } }
impl KeyOrd_ for isize { open spec fn le_(&self, o: &isize) -> bool { *self <= *o } }
impl KeyOrd_ for bool { open spec fn le_(&self, o: &bool) -> bool { !*self || *o } }
impl<A: KeyOrd_, B: KeyOrd_> KeyOrd_ for (A, B) { open spec fn le_(&self, o: &(A, B)) -> bool { self.0.le_(&o.0) && (o.0.le_(&self.0) ==> self.1.le_(&o.1)) } }

pub open spec fn permutes_<T>(new: Seq<T>, old: Seq<T>, p: Seq<int>) -> bool {
    &&& p.len() == new.len()
    &&& new.len() == old.len()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < old.len() && new[i] == old[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> p[i] != p[j]
    &&& forall|k: int| 0 <= k < old.len() ==> (#[trigger] old[k]) == old[k] && exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == k
}

pub trait SortByKey_<T> {
    fn sort_by_key_<K: KeyOrd_, F: Fn(&T) -> K>(&mut self, f: F);
    fn sort_by_key_desc_<K: KeyOrd_, F: Fn(&T) -> K>(&mut self, f: F);
}
impl<T> SortByKey_<T> for Vec<T> {
    /// contract assumed of the standard library's stable sort
    #[verifier::external_body]
    fn sort_by_key_<K: KeyOrd_, F: Fn(&T) -> K>(&mut self, f: F)
        ensures
            final(self)@.to_multiset() == old(self)@.to_multiset(),
            exists|p: Seq<int>| permutes_(final(self)@, old(self)@, p),
            exists|ks: Seq<K>| {
                &&& ks.len() == final(self)@.len()
                &&& forall|i: int| #![trigger final(self)@[i]] #![trigger ks[i]] 0 <= i < ks.len() ==> f.ensures((&final(self)@[i],), ks[i])
                &&& forall|i: int, j: int| #![trigger ks[i], ks[j]] 0 <= i <= j < ks.len() ==> ks[i].le_(&ks[j])
            },
    { unimplemented!() }
    #[verifier::external_body]
    fn sort_by_key_desc_<K: KeyOrd_, F: Fn(&T) -> K>(&mut self, f: F)
        ensures
            final(self)@.to_multiset() == old(self)@.to_multiset(),
            exists|p: Seq<int>| permutes_(final(self)@, old(self)@, p),
            exists|ks: Seq<K>| {
                &&& ks.len() == final(self)@.len()
                &&& forall|i: int| #![trigger final(self)@[i]] #![trigger ks[i]] 0 <= i < ks.len() ==> f.ensures((&final(self)@[i],), ks[i])
                &&& forall|i: int, j: int| #![trigger ks[i], ks[j]] 0 <= i <= j < ks.len() ==> ks[j].le_(&ks[i])
            },
    { unimplemented!() }
}
