use vh::core::*;
use vh::sparse::*;

macro_rules! all {
    ($run:ident $e:ty: $($n:expr),*) => {
        $(run_config(&mut $run, sp_ctor::<$e, $n>());)*
    };
}

fn main() {
    let mut run = Run::from_args();
    all!(run Tok: 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024);
    all!(run Big: 1, 4, 17, 65);
    all!(run Zst: 1, 3, 8, 33, 64, 129, 1024);
    all!(run Nod: 1, 4, 9, 64, 130);
    all!(run U3: 2, 5, 64, 128, 257);
    all!(run u128: 1, 6, 32, 127);
    run.finish()
}
