//! Stand-in for the part of `indicatif` the command-line front end uses: progress bars that draw nothing.
#[derive(Clone)]
pub struct ProgressBar;
impl ProgressBar {
    pub fn hidden() -> Self { ProgressBar } pub fn new_spinner() -> Self { ProgressBar } pub fn new(_: u64) -> Self { ProgressBar }
    pub fn set_style(&self, _: ProgressStyle) {} pub fn set_message<S: Into<String>>(&self, _: S) {} pub fn enable_steady_tick(&self, _: std::time::Duration) {}
    pub fn finish_and_clear(&self) {} pub fn inc(&self, _: u64) {} pub fn finish(&self) {} pub fn set_position(&self, _: u64) {} pub fn set_length(&self, _: u64) {}
}
pub struct ProgressStyle;
impl ProgressStyle {
    pub fn with_template(_: &str) -> Result<Self, std::fmt::Error> { Ok(ProgressStyle) }
    pub fn tick_strings(self, _: &[&str]) -> Self { self } pub fn progress_chars(self, _: &str) -> Self { self }
}
