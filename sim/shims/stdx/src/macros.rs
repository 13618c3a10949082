#[macro_export] macro_rules! eprintln { ($($tt:tt)*) => {{ std::eprintln!($($tt)*) }}; }
#[macro_export] macro_rules! format_to { ($buf:expr) => (); ($buf:expr, $lit:literal $($arg:tt)*) => { { use ::std::fmt::Write as _; _ = $buf.write_fmt(format_args!($lit $($arg)*)) } }; }
#[macro_export] macro_rules! format_to_acc { ($buf:expr, $lit:literal $($arg:tt)*) => {{ use ::std::fmt::Write as _; let mut buf = $buf; _ = buf.write_fmt(format_args!($lit $($arg)*)); buf }}; }
#[macro_export] macro_rules! impl_from {
    ($($variant:ident $(($($sub_variant:ident),*))?),* for $enum:ident) => {
        $( impl From<$variant> for $enum { fn from(it: $variant) -> $enum { $enum::$variant(it) } }
           $($( impl From<$sub_variant> for $enum { fn from(it: $sub_variant) -> $enum { $enum::$variant($variant::$sub_variant(it)) } } )*)? )*
    };
    ($($variant:ident$(<$V:ident>)?),* for $enum:ident) => { $( impl$(<$V>)? From<$variant$(<$V>)?> for $enum$(<$V>)? { fn from(it: $variant$(<$V>)?) -> $enum$(<$V>)? { $enum::$variant(it) } } )* }
}
#[macro_export] macro_rules! never {
    (true $($tt:tt)*) => { $crate::never!((true) $($tt)*) };
    (false $($tt:tt)*) => { $crate::never!((false) $($tt)*) };
    () => { $crate::never!("assertion failed: entered unreachable code") };
    ($fmt:literal $(, $($arg:tt)*)?) => {{ $crate::on_assert_failure(format_args!($fmt $(, $($arg)*)?)); }};
    ($cond:expr $(,)?) => {{ let cond = $cond; if cond { $crate::on_assert_failure(format_args!("assertion failed: {}", stringify!($cond))); } cond }};
    ($cond:expr, $fmt:literal $(, $($arg:tt)*)?) => {{ let cond = $cond; if cond { $crate::on_assert_failure(format_args!($fmt $(, $($arg)*)?)); } cond }};
}
#[macro_export] macro_rules! always {
    ($cond:expr $(,)?) => {{ let cond = $cond; if !cond { $crate::on_assert_failure(format_args!("assertion failed: {}", stringify!($cond))); } cond }};
    ($cond:expr, $fmt:literal $(, $($arg:tt)*)?) => {{ let cond = $cond; if !cond { $crate::on_assert_failure(format_args!($fmt $(, $($arg)*)?)); } cond }};
}
