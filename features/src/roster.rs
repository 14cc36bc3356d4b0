//! The key types of the histories.

macro_rules! keys {
    ($($(#[$m:meta])* enum $n:ident { $($v:ident $(($t:ty))? $(= $d:literal)?),* $(,)? })*) => {$(
        #[derive(Clone, Copy, PartialEq, Debug, fixed_map::Key)]
        $(#[$m])*
        pub enum $n { $($v $(($t))? $(= $d)?),* }
        by_index!($n);
        impl Pool for $n {
            fn pool() -> Vec<Self> {
                #[allow(unused_mut)]
                let mut out = Vec::new();
                $(keys!(@ out $n $v $($t)?);)*
                out
            }
        }
    )*};
    (@ $out:ident $n:ident $v:ident) => { $out.push($n::$v) };
    (@ $out:ident $n:ident $v:ident $t:ty) => { $out.extend(<$t as Pool>::pool().into_iter().map($n::$v)) };
}

pub trait Pool: Sized {
    fn pool() -> Vec<Self>;
}
impl Pool for bool {
    fn pool() -> Vec<Self> {
        vec![true, false]
    }
}
impl Pool for () {
    fn pool() -> Vec<Self> {
        vec![()]
    }
}
impl<T: Pool> Pool for Option<T> {
    fn pool() -> Vec<Self> {
        let mut v: Vec<Self> = T::pool().into_iter().map(Some).collect();
        v.push(None);
        v
    }
}
#[cfg(feature = "with_hashbrown")]
mod ints {
    use super::Pool;
    macro_rules! ints {
        ($($t:ty),*) => {$(
            impl Pool for $t {
                fn pool() -> Vec<Self> {
                    vec![0, 1, 2, <$t>::MAX, <$t>::MIN + 3, 65, 66, 97]
                }
            }
        )*};
    }
    ints!(u8, u32, u64, u128, usize, i8, i32, i64, i128, isize);
    impl Pool for char {
        fn pool() -> Vec<Self> {
            vec!['a', 'b', '\0', '\u{10ffff}', '\u{d7ff}', 'A']
        }
    }
    impl Pool for &'static str {
        fn pool() -> Vec<Self> {
            vec!["", "a", "b", "ab", "a\0", "\u{e9}"]
        }
    }
    impl Pool for &'static [u8] {
        fn pool() -> Vec<Self> {
            vec![&[], &[0], &[1], &[0, 0], b"ab"]
        }
    }
}

keys! {
    enum U0 { }
    enum U1 { A }
    enum U2 { A, B }
    enum U3 { A, B, C }
    enum U8 { A, B, C, D, E, F, G, H }
    enum U9 { A = 9, B = 3, C = 4, D = 200, E = 5, F = 6, G = 7, H = 8, I = 1 }
    enum U17 { A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q }
    enum U40 {
        A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, B0, B1, B2, B3, B4, B5, B6, B7, B8, B9,
        C0, C1, C2, C3, C4, C5, C6, C7, C8, C9, D0, D1, D2, D3, D4, D5, D6, D7, D8, D9,
    }
    #[key(bitset)]
    enum B0 { }
    #[key(bitset)]
    enum B1 { A }
    #[key(bitset)]
    enum B3 { A, B, C }
    #[key(bitset)]
    enum B8 { A, B, C, D, E, F, G, H }
    #[key(bitset)]
    enum B9 { A = 9, B = 3, C = 4, D = 200, E = 5, F = 6, G = 7, H = 8, I = 1 }
    #[key(bitset)]
    enum B16 { A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P }
    #[key(bitset)]
    enum B33 {
        A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, B0, B1, B2, B3, B4, B5, B6, B7, B8, B9,
        C0, C1, C2, C3, C4, C5, C6, C7, C8, C9, D0, D1, D2,
    }
    #[key(bitset)]
    enum B70 {
        A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, B0, B1, B2, B3, B4, B5, B6, B7, B8, B9,
        C0, C1, C2, C3, C4, C5, C6, C7, C8, C9, D0, D1, D2, D3, D4, D5, D6, D7, D8, D9,
        E0, E1, E2, E3, E4, E5, E6, E7, E8, E9, F0, F1, F2, F3, F4, F5, F6, F7, F8, F9,
        G0, G1, G2, G3, G4, G5, G6, G7, G8, G9,
    }
    enum C1 { A(bool) }
    enum C2 { A, B(bool), C }
    enum C3 { A(Option<bool>), B, C(()), D(bool) }
    enum C4 { A(U3), B(B9), C(Option<U2>), D }
    enum C5 { A(Option<Option<bool>>), B(Option<()>), C(C2), D(Option<C3>) }
    enum C6 { A(U0), B(bool), C(U1), D(U17), E }
    enum C7 { A(C5), B(Option<B33>), C(C4) }
}
#[cfg(feature = "with_hashbrown")]
keys! {
    enum D1 { A(u32), B }
    enum D2 { A(bool), B(char), C, D(Option<u8>) }
    enum D3 { A(&'static str), B(D1), C(Option<U3>), D(&'static [u8]) }
}

/// The length of the list of types, in every configuration.
pub const TYPES: usize = FIXED + 19;
pub const FIXED: usize = 32;

macro_rules! table {
    ($mac:ident) => {{
        #[allow(unused_mut)]
        let mut v = vec![
            $mac!(bool, false), $mac!((), false), $mac!(Option<bool>, false), $mac!(Option<()>, false), $mac!(Option<Option<bool>>, false),
            $mac!(U0, false), $mac!(U1, false), $mac!(U2, false), $mac!(U3, false), $mac!(U8, false), $mac!(U9, false), $mac!(U17, false), $mac!(U40, false),
            $mac!(B0, false), $mac!(B1, false), $mac!(B3, false), $mac!(B8, false), $mac!(B9, false), $mac!(B16, false), $mac!(B33, false), $mac!(B70, false),
            $mac!(Option<U3>, false), $mac!(Option<B9>, false), $mac!(Option<C3>, false),
            $mac!(C1, false), $mac!(C2, false), $mac!(C3, false), $mac!(C4, false), $mac!(C5, false), $mac!(C6, false), $mac!(C7, false), $mac!(Option<C5>, false),
        ];
        assert_eq!(v.len(), FIXED);
        #[cfg(feature = "with_hashbrown")]
        {
            v.extend([
                $mac!(u8, true), $mac!(u32, true), $mac!(u64, true), $mac!(u128, true), $mac!(usize, true),
                $mac!(i8, true), $mac!(i32, true), $mac!(i64, true), $mac!(i128, true), $mac!(isize, true),
                $mac!(char, true), $mac!(&'static str, true), $mac!(&'static [u8], true), $mac!(Option<u32>, true), $mac!(Option<Option<char>>, true),
                $mac!(D1, true), $mac!(D2, true), $mac!(D3, true), $mac!(Option<D1>, true),
            ]);
            assert_eq!(v.len(), TYPES);
        }
        v
    }};
}
