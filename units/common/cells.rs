// Interior mutability: the content is arbitrary whenever it is looked at; overlapping borrows are not modelled.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RefCell<T> { _p: core::marker::PhantomData<T> }
impl<T> RefCell<T> {
    #[verifier::external_body] pub fn new(v: T) -> Self { unimplemented!() }
    #[verifier::external_body] pub fn borrow(&self) -> Box<T> { unimplemented!() }
    #[verifier::external_body] pub fn borrow_mut(&self) -> Box<T> { unimplemented!() }
}
impl<T> Default_ for RefCell<T> { open spec fn is_default_(&self) -> bool { true } #[verifier::external_body] fn default_() -> (ret: Self) { unimplemented!() } }
