/// Includes what harness/serialize/build.rs wrote.
#[macro_export]
macro_rules! wrap {
    ($(#[$m:meta])* mod $n:ident;) => {
        #[allow(unused)]
        mod $n {
            include!(concat!(env!("OUT_DIR"), "/mod.rs"));
        }
    };
}
