//! Stand-in for the `simple-error` crate.
use std::fmt;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct SimpleError(String);
impl SimpleError {
    pub fn new<T: Into<String>>(s: T) -> Self {
        SimpleError(s.into())
    }
}
impl fmt::Display for SimpleError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for SimpleError {}
#[macro_export]
macro_rules! bail {
    ($e:expr $(,)?) => { return Err(::std::convert::From::from($e)) };
    ($fmt:expr, $($arg:tt)+) => {
        return Err(::std::convert::From::from(format!($fmt, $($arg)+)))
    };
}
#[macro_export]
macro_rules! simple_error {
    ($e:expr $(,)?) => { $crate::SimpleError::new($e) };
    ($fmt:expr, $($arg:tt)+) => { $crate::SimpleError::new(format!($fmt, $($arg)+)) };
}
