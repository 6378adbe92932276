//! Stand-in for the `dyn-clone` crate.
pub trait DynClone {
    #[doc(hidden)]
    fn __clone_box(&self) -> *mut ();
}
impl<T: Clone> DynClone for T {
    fn __clone_box(&self) -> *mut () {
        Box::into_raw(Box::new(self.clone())) as *mut ()
    }
}
pub fn clone<T: Clone>(t: &T) -> T {
    t.clone()
}
pub fn clone_box<T: ?Sized + DynClone>(t: &T) -> Box<T> {
    let mut fat: *const T = t;
    unsafe {
        *(&mut fat as *mut *const T as *mut *mut ()) = t.__clone_box();
        Box::from_raw(fat as *mut T)
    }
}
#[macro_export]
macro_rules! clone_trait_object {
    ($t:path) => {
        impl<'clone> ::std::clone::Clone for ::std::boxed::Box<dyn $t + 'clone> {
            fn clone(&self) -> Self {
                $crate::clone_box(&**self)
            }
        }
    };
}
