use vh::core::*;
use vh::inl::*;
use vh::plan::run_config;

#[repr(align(64))]
#[derive(Clone, Copy)]
struct Al64<const N: usize>([u8; N]);

#[derive(Clone, PartialEq)]
#[repr(align(32))]
struct Zst32;
#[derive(Clone, PartialEq)]
#[repr(align(2))]
struct Zst2;
#[derive(Clone, PartialEq)]
#[repr(align(64))]
struct Wide(u64);
#[derive(Clone, PartialEq)]
#[repr(align(16))]
struct Mid(u8);

/// Too much for a host by one.
const W: usize = std::mem::size_of::<usize>();

macro_rules! all {
    ($run:ident $f:ident $e:ty: $($t:ty),*) => {
        $(run_config(&mut $run, $f::<$e, $t>(stringify!($t)));)*
    };
}
macro_rules! new_only {
    ($run:ident $f:ident: $($e:ty, $t:ty $(, $v:expr)?;)*) => {
        $($f::<$e, $t>(&mut $run, concat!("InlineArray<", stringify!($e), ",", stringify!($t), ">") $(, $v)?);)*
    };
}

fn main() {
    let mut run = Run::from_args();
    all!(run inl_ctor Tok: [u8; 8], [u8; 31], [u8; 57], [usize; 1], [usize; 2], [usize; 16], [u64; 40], [u128; 3], Al64<128>, [u16; 100]);
    all!(run inl_ctor Big: [u8; 256], Al64<64>, Al64<192>, Al64<640>);
    all!(run inl_ctor Zst: [u8; 8], [usize; 1], [usize; 4], Al64<64>, u64);
    all!(run inl_ctor Nod: [u8; 8], [u8; 63], [usize; 3], [usize; 17], Al64<128>);
    all!(run inl_copy u8: [u8; 8], [u8; 9], [u8; 13], [usize; 2], [u32; 3], [u8; 264], Al64<64>);
    all!(run inl_copy U3: [u8; 8], [u8; 18], [usize; 4], [u16; 9], Al64<128>);
    all!(run inl_copy u32: [u8; 11], [u8; 12], [u32; 6], [usize; 5], u128);
    all!(run inl_copy u128: [usize; 9], [u128; 1], [u128; 2], [u128; 6], Al64<128>);
    if run.get("of").map_or(true, |o| o == "inl") && run.num("news", 1) != 0 {
        new_only!(run unfit:
            u8, (); u8, u8; u8, u16; u8, [u8; W / 2]; u8, [u8; W - 1]; u64, [u16; W / 2 - 1]; u128, [u16; W / 4]; (), [u8; W - 1]; (), (); String, [u8; W / 2];
            Zst32, [u8; 64]; Zst32, [u64; 4]; Zst32, u128; [Wide; 0], [u8; 64];
        );
        new_only!(run fit:
            u8, [u8; 8], 7; u8, u64, 7; u8, usize, 7; u8, f64, 7; u16, [u8; 11], 0x1234; u64, [u8; 16], 77; u64, [u8; 17], 77; u64, [u8; 23], 77; u64, [u8; 24], 77;
            u64, [u32; 9], 77; u32, [u16; 5], 9; u8, [u16; 5], 9; u128, [u8; 64], 5; u128, [u64; 8], 5; u128, [u128; 5], 5; Mid, [u8; 64], Mid(3); Mid, Al64<64>, Mid(3);
            Wide, Al64<128>, Wide(8); Wide, [u64; 64], Wide(8); Wide, [u128; 32], Wide(8); (), [u8; 8], (); (), u64, (); Zst2, [u8; 8], Zst2; Zst32, Al64<64>, Zst32; [u64; 0], [u8; 9], []; [u128; 0], u128, [];
            String, [usize; 25], "text".to_string(); String, [u8; 100], "text".to_string(); [u8; 5], [u8; 64], [1, 2, 3, 4, 5]; [u8; 300], [u8; 64], [1; 300]; Option<u32>, [u32; 64], Some(4); Vec<u8>, [usize; 4], vec![1]; char, [u8; 40], 'x'; bool, [u8; 70], true;
            u8, [u8; 4096], 200; u16, [u16; 999], 200;
        );
    }
    run.finish()
}
