/// Declares proof harnesses. Under Kani each becomes a `#[kani::proof]`; natively each is listed in
/// `LIST` so that a counterexample (or a random input) can be run against the real code.
#[macro_export]
macro_rules! proofs {
    ($( $(#[$m:meta])* fn $name:ident [$unwind:literal] $body:block )*) => {
        $(
            $(#[$m])*
            #[cfg_attr(kani, kani::proof)]
            #[cfg_attr(kani, kani::unwind($unwind))]
            pub fn $name() $body
        )*
        #[cfg(not(kani))]
        pub const LIST: &[(&str, fn())] = &[ $( (concat!(module_path!(), "::", stringify!($name)), $name as fn()), )* ];
    };
}
/// Postcondition (an obligation).
#[macro_export]
macro_rules! ensure {
    ($c:expr, $msg:literal) => {
        assert!($c, $msg)
    };
}
/// Reachability witness behind a precondition: must be satisfiable (vacuity guard).
#[macro_export]
macro_rules! reach {
    ($c:expr, $msg:literal) => {
        #[cfg(kani)]
        kani::cover!($c, $msg);
    };
}
