//! Stand-in: type metadata plays no role in the behaviour under verification.
extern crate alloc;
pub use simmacros::TypeInfo;
#[derive(Default, Clone, Copy)]
pub struct Type;
pub struct TypeBuilder;
impl Type { pub fn builder() -> TypeBuilder { TypeBuilder } }
impl TypeBuilder {
    pub fn path(self, _p: Path) -> Self { self }
    pub fn type_params<T>(self, _t: T) -> Self { self }
    pub fn composite<T>(self, _t: T) -> Type { Type }
    pub fn variant<T>(self, _t: T) -> Type { Type }
}
pub struct Path;
impl Path { pub fn new(_a: &'static str, _b: &'static str) -> Self { Path } }
pub struct MetaType;
pub fn meta_type<T>() -> MetaType { MetaType }
pub struct TypeParameter;
impl TypeParameter { pub fn new(_n: &'static str, _t: Option<MetaType>) -> Self { TypeParameter } }
pub mod build {
    pub struct Fields;
    pub struct FieldsB;
    impl Fields { pub fn unnamed() -> FieldsB { FieldsB } pub fn named() -> FieldsB { FieldsB } }
    pub struct FieldB;
    impl FieldB { pub fn ty<T>(self) -> Self { self } pub fn type_name(self, _: &'static str) -> Self { self } }
    impl FieldsB { pub fn field<F: Fn(FieldB) -> FieldB>(self, _f: F) -> Self { self } }
}
pub trait TypeInfo { type Identity: ?Sized; fn type_info() -> Type { Type } }
pub trait StaticTypeInfo: TypeInfo {}
impl<T: TypeInfo> StaticTypeInfo for T {}
macro_rules! ti { ($($t:ty),*) => {$( impl TypeInfo for $t { type Identity = $t; } )*} }
ti!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, char, (), str, alloc::string::String);
impl<T> TypeInfo for alloc::vec::Vec<T> { type Identity = Self; }
impl<T> TypeInfo for Option<T> { type Identity = Self; }
impl<T, E> TypeInfo for Result<T, E> { type Identity = Self; }
impl<T> TypeInfo for alloc::boxed::Box<T> { type Identity = Self; }
impl<T, const N: usize> TypeInfo for [T; N] { type Identity = Self; }
impl<T> TypeInfo for core::marker::PhantomData<T> { type Identity = Self; }
impl<A, B> TypeInfo for (A, B) { type Identity = Self; }
impl<A, B, C> TypeInfo for (A, B, C) { type Identity = Self; }
macro_rules! ti { ($($($n:ident)*;)*) => { $( impl<$($n),*> TypeInfo for ($($n,)*) { type Identity = Self; } )* } }
ti! { A B C D; A B C D E; A B C D E F; A B C D E F G; A B C D E F G H; A B C D E F G H I; A B C D E F G H I J; A B C D E F G H I J K; A B C D E F G H I J K L; }
pub mod prelude { pub mod string { pub use alloc::string::String; } pub mod vec { pub use alloc::vec::*; } #[macro_export] macro_rules! __si_none { () => {} } pub use alloc::format; }
