pub mod common;
pub mod refm;
pub mod rt;
pub mod sym;
#[cfg(any(feature = "native", feature = "c27", feature = "c29", feature = "c30", feature = "c33", feature = "c35"))]
pub mod os;

#[cfg(any(feature = "native", feature = "c01", feature = "c31", feature = "c32", feature = "c33"))]
pub mod touch;

macro_rules! modules {
    ($($m:ident $f:literal),* $(,)?) => {
        $(#[cfg(any(feature = "native", feature = $f))] pub mod $m;)*
        #[cfg(feature = "native")]
        pub fn find(name: &str) -> Option<extern "C" fn()> {
            for l in [$($m::LIST),*] {
                for (n, f) in l {
                    if *n == name {
                        return Some(*f);
                    }
                }
            }
            None
        }
    };
}
modules! { c01 "c01", c02 "c02", c03 "c03", c04 "c04", c05 "c05", c06 "c06", c07 "c07", c08 "c08", c09 "c09", c11 "c11", c12 "c12", c10 "c10", c13 "c13", c14 "c14", c15 "c15", c16 "c16", c17 "c17", c18 "c18", c19 "c19", c20 "c20", c21 "c21", c22 "c22", c23 "c23", c24 "c24", c25 "c25", c26 "c26", c27 "c27", c28 "c28", c29 "c29", c30 "c30", c31 "c31", c32 "c32", c33 "c33", c34 "c34", c35 "c35", c36 "c36" }
