//! Where a property takes its inputs from. Each property body is written once, over `Src`, and is
//! * proved for all inputs by Kani (`kani::any`), and
//! * run on concrete inputs by the native replayer (a recorded counterexample, or a search).

pub trait Src {
    fn u8(&mut self) -> u8;
    fn u16(&mut self) -> u16;
    fn u32(&mut self) -> u32;
    fn u64(&mut self) -> u64;
    fn i8(&mut self) -> i8;
    fn i16(&mut self) -> i16;
    fn i32(&mut self) -> i32;
    fn i64(&mut self) -> i64;
    fn bool(&mut self) -> bool;
    fn f32(&mut self) -> f32;
    fn f64(&mut self) -> f64;
    fn usize(&mut self) -> usize;
    /// Restricts the inputs. `false`: this input is outside the property's domain, stop here.
    fn assume(&mut self, c: bool) -> bool;
    /// A number below `n`.
    fn below(&mut self, n: u32) -> u32;
}

/// Restrict the inputs, leaving the property body when the input is outside its domain.
#[macro_export]
macro_rules! given {
    ($s:expr, $c:expr) => {
        if !$s.assume($c) {
            return;
        }
    };
}
