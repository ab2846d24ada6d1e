use vh::core::*;
use vh::plan::run_config;
use vh::seqc::ctor;

macro_rules! all {
    ($run:ident: $($n:expr),*) => {
        $(
            run_config(&mut $run, ctor::<Tok, $n>(false));
            run_config(&mut $run, ctor::<Tok, $n>(true));
        )*
    };
}

fn main() {
    let mut run = Run::from_args();
    all!(run: 0, 1, 2, 3, 4, 5, 6, 8, 17, 33, 64, 128, 257);
    run.finish()
}
