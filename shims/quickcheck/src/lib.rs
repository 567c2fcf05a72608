//! Test-data generation is outside the areas.
pub struct Gen(());
pub trait Arbitrary: Sized {
    fn arbitrary(g: &mut Gen) -> Self;
}
impl Arbitrary for u8 {
    fn arbitrary(_: &mut Gen) -> Self {
        0
    }
}
