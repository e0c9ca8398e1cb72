#![allow(clippy::all)]
pub mod refhash;
pub mod refbig;
pub mod refmath;
pub mod run;
/// command line of every harness binary
pub fn main_with(dispatch: impl Fn(&mut run::Runner) -> bool) {
    main_disturbed(dispatch, None)
}
pub fn main_disturbed(dispatch: impl Fn(&mut run::Runner) -> bool, disturb: Option<fn(&str, &mut run::Rng)>) {
    let a: Vec<String> = std::env::args().collect();
    let mut r = if a.len() == 3 && a[1] == "--replay" {
        run::Runner::from_replay(&a[2])
    } else {
        run::Runner::new(&a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), &a[4], a.get(5).map_or(false, |x| x == "deep"))
    };
    run::install_hook();
    r.disturb = disturb;
    if !dispatch(&mut r) {
        eprintln!("unknown property");
        std::process::exit(2);
    }
    r.finish();
}
