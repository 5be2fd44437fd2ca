//! Fully symbolic inputs, and the proof harness around a property body.
use crate::src;

pub struct Sym;
macro_rules! sym { ($($t:ident)*) => { $(fn $t(&mut self) -> $t { kani::any() })* } }
impl src::Src for Sym {
    sym!(u8 u16 u32 u64 i8 i16 i32 i64 bool f32 f64 usize);
    fn assume(&mut self, c: bool) -> bool {
        kani::assume(c);
        true
    }
    fn below(&mut self, n: u32) -> u32 {
        let v: u32 = kani::any();
        kani::assume(v < n);
        v
    }
}

/// One proof per property body. The cover after the body is the vacuity guard: it is
/// satisfiable only if some input reaches the end of the property.
#[macro_export]
macro_rules! proofs {
    ($($(#[$m:meta])* $module:ident::$name:ident;)*) => { $(
        $(#[$m])*
        #[kani::proof]
        fn $name() {
            $module::$name(&mut sym::Sym);
            kani::cover!(true, "reached the end of the property");
        }
    )* };
}
