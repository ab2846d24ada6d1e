use vh::core::*;
use vh::plan::run_config;
use vh::seqc::*;

macro_rules! all {
    ($run:ident: $($n:expr),*) => {
        $(
            for ring in [false, true] {
                run_config(&mut $run, ctor::<Big, $n>(ring));
                run_config(&mut $run, ctor::<Zst, $n>(ring));
                run_config(&mut $run, ctor::<Nod, $n>(ring));
                run_config(&mut $run, ctor_copy::<U3, $n>(ring));
                run_config(&mut $run, ctor_copy::<u128, $n>(ring));
            }
        )*
    };
}

fn main() {
    let mut run = Run::from_args();
    all!(run: 0, 1, 3, 8, 64);
    // Only values without size leave room for this many.
    let huge = run.num("huge", 0) != 0;
    for ring in [false, true].into_iter().filter(|_| huge) {
        run_config(&mut run, ctor::<Zst, { usize::MAX }>(ring));
        run_config(&mut run, ctor::<Zst, { usize::MAX / 2 + 2 }>(ring));
    }
    run.finish()
}
