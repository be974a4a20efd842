//! Model of `bounded-static`: the two conversion traits and the std impls used here.
use std::borrow::Cow;

pub trait IntoBoundedStatic {
    type Static: 'static;
    fn into_static(self) -> Self::Static;
}
pub trait ToBoundedStatic {
    type Static: 'static;
    fn to_static(&self) -> Self::Static;
}
impl<T: IntoBoundedStatic> IntoBoundedStatic for Option<T> {
    type Static = Option<T::Static>;
    fn into_static(self) -> Self::Static {
        self.map(IntoBoundedStatic::into_static)
    }
}
impl<T: ToBoundedStatic> ToBoundedStatic for Option<T> {
    type Static = Option<T::Static>;
    fn to_static(&self) -> Self::Static {
        self.as_ref().map(ToBoundedStatic::to_static)
    }
}
impl<T: 'static + ToOwned + ?Sized> IntoBoundedStatic for Cow<'_, T> {
    type Static = Cow<'static, T>;
    fn into_static(self) -> Self::Static {
        Cow::Owned(self.into_owned())
    }
}
impl<T: 'static + ToOwned + ?Sized> ToBoundedStatic for Cow<'_, T> {
    type Static = Cow<'static, T>;
    fn to_static(&self) -> Self::Static {
        Cow::Owned(self.clone().into_owned())
    }
}
