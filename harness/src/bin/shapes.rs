//! S09 where the traits of the crate cannot be built: the other traits alone (shapes.rs)
#[macro_use]
#[path = "../shapes.rs"]
mod shapes;
use harness::run::*;
fn dispatch(r: &mut Runner) -> bool {
    if r.property != "S09" {
        return false;
    }
    let mut k = 0u64;
    while r.time_left() && !r.stop() && k < 3000 {
        r.case(&format!("shapes/{}", k), shapes::shapes);
        k += 1;
    }
    true
}
fn main() {
    harness::main_with(dispatch)
}
