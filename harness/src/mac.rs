pub type H = extern "C" fn();
macro_rules! harnesses {
    ($($name:ident $body:block)*) => {
        $(#[no_mangle] #[inline(never)] pub extern "C" fn $name() $body)*
        pub const TABLE: &[(&str, crate::mac::H)] = &[$((stringify!($name), $name as crate::mac::H)),*];
    };
}
