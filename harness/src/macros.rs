/// Declares harnesses: entry points of the symbolic executor, and a table for native replays.
#[macro_export]
macro_rules! harnesses {
    ($( $(#[$a:meta])* fn $name:ident() $body:block )*) => {
        $(
            $(#[$a])*
            #[no_mangle]
            pub extern "C-unwind" fn $name() { $body; $crate::sym::cover(true, "WITNESS"); }
        )*
        pub const TABLE: &[(&'static str, extern "C-unwind" fn())] = &[ $( (stringify!($name), $name as extern "C-unwind" fn()) ),* ];
    };
}
