/// Every `h_*` function is an entry point of the symbolic engine; the native build runs the same function on a
/// recorded input.
#[macro_export]
macro_rules! entries {
    ($($name:ident => $f:path),* $(,)?) => {
        $(#[no_mangle]
        pub extern "C" fn $name() {
            $f();
        })*
        #[cfg(feature = "native")]
        fn main() {
            let e = std::env::args().nth(1).unwrap();
            match e.as_str() {
                $(stringify!($name) => $name(),)*
                _ => { println!("SYM-MISMATCH no entry {}", e); std::process::exit(9); }
            }
            println!("END");
        }
        #[cfg(not(feature = "native"))]
        fn main() {
            // keep the entries alive for the linker
            let n = std::env::args().count();
            match n {
                $(x if x == stringify!($name).len() * 1000 => $name(),)*
                _ => (),
            }
        }
    };
}
