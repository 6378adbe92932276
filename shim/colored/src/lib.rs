//! Stand-in for the `colored` crate (no terminal codes).
use std::fmt;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString(String);
impl fmt::Display for ColoredString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl std::ops::Deref for ColoredString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
macro_rules! colors { ($($n:ident)*) => {
    pub trait Colorize {
        fn as_colored(&self) -> ColoredString;
        $(fn $n(&self) -> ColoredString { self.as_colored() })*
    }
} }
colors!(black red green yellow blue magenta purple cyan white bright_black bright_red bright_green
    bright_yellow bright_blue bright_magenta bright_cyan bright_white clear normal bold dimmed italic
    underline blink reversed hidden strikethrough on_red on_green on_blue on_yellow on_black on_white);
impl Colorize for str {
    fn as_colored(&self) -> ColoredString {
        ColoredString(self.to_string())
    }
}
impl Colorize for ColoredString {
    fn as_colored(&self) -> ColoredString {
        self.clone()
    }
}
