pub trait Colorize: Sized {
    fn yellow(self) -> String where Self: ToString { self.to_string() }
    fn blue(self) -> String where Self: ToString { self.to_string() }
    fn green(self) -> String where Self: ToString { self.to_string() }
    fn bold(self) -> String where Self: ToString { self.to_string() }
}
impl Colorize for &str {}
impl Colorize for String {}
