//! Stand-in for the part of `console` the command-line front end uses: text without colours.
use std::fmt;
pub struct StyledObject<T>(T);
pub fn style<T>(t: T) -> StyledObject<T> { StyledObject(t) }
impl<T> StyledObject<T> {
    pub fn cyan(self) -> Self { self } pub fn bold(self) -> Self { self } pub fn dim(self) -> Self { self } pub fn green(self) -> Self { self }
    pub fn red(self) -> Self { self } pub fn yellow(self) -> Self { self } pub fn underlined(self) -> Self { self }
}
impl<T: fmt::Display> fmt::Display for StyledObject<T> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { self.0.fmt(f) } }
