//! Stand-in for uniffi: what its generated scaffolding gives the crate that includes it, without the C interface.
pub use anyhow::Result;
#[macro_export]
macro_rules! include_scaffolding {
    ($name:literal) => {
        pub trait UniffiCustomTypeConverter {
            type Builtin;
            fn into_custom(val: Self::Builtin) -> $crate::Result<Self>
            where
                Self: Sized;
            fn from_custom(obj: Self) -> Self::Builtin;
        }
    };
}
