//! See olib: the build without `preserve_order`.
fn main() {
    let mut r = olib::start(false);
    for all in [o0::ALL, o1::ALL, o2::ALL, o3::ALL] {
        for e in all {
            e().run(&mut r);
        }
    }
    olib::values(&mut r);
    olib::dynamic(&mut r);
}
