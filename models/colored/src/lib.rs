//! Model of `colored`: no colours.
pub trait Colorize: Sized {
    fn blue(self) -> Self { self }
    fn red(self) -> Self { self }
    fn yellow(self) -> Self { self }
    fn green(self) -> Self { self }
    fn cyan(self) -> Self { self }
    fn magenta(self) -> Self { self }
    fn bold(self) -> Self { self }
    fn dimmed(self) -> Self { self }
}
impl Colorize for String {}
impl Colorize for &str {}
