use vh::core::*;
use vh::plan::run_config;
use vh::seqc::*;

macro_rules! all {
    ($run:ident: $($n:expr),*) => {
        $(
            for ring in [false, true] {
                run_config(&mut $run, ctor_u8::<$n>(ring));
            }
        )*
    };
}

fn main() {
    let mut run = Run::from_args();
    all!(run: 0, 1, 2, 3, 4, 5, 8, 17, 64, 255, 256, 257);
    run.finish()
}
