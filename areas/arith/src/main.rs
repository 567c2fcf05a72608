#[cfg(not(kani))]
fn main() {
    nd::native_main(&[area::nd_table()]);
}
#[cfg(kani)]
fn main() {}
