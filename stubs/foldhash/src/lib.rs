//! Stand-in for `foldhash`: a constant hash function. A hash table is correct for any hash
//! function in which equal keys hash equally; a constant one keeps symbolic keys tractable.
//! (That equal values hash equally is checked separately, with a collecting hasher.)
pub mod fast {
    use core::hash::{BuildHasher, Hasher};

    #[derive(Clone, Copy, Default, Debug)]
    pub struct FoldHasher;
    impl Hasher for FoldHasher {
        #[inline(always)]
        fn write(&mut self, _: &[u8]) {}
        #[inline(always)]
        fn finish(&self) -> u64 {
            0
        }
    }
    macro_rules! st {
        ($n:ident) => {
            #[derive(Clone, Copy, Default, Debug)]
            pub struct $n;
            impl BuildHasher for $n {
                type Hasher = FoldHasher;
                #[inline(always)]
                fn build_hasher(&self) -> FoldHasher {
                    FoldHasher
                }
            }
        };
    }
    st!(RandomState);
    st!(FixedState);
    st!(SeedableRandomState);
    impl FixedState {
        pub const fn with_seed(_: u64) -> Self {
            FixedState
        }
    }
}
pub mod quality {
    pub use crate::fast::*;
}
pub type HashMap<K, V> = std::collections::HashMap<K, V, fast::RandomState>;
pub type HashSet<K> = std::collections::HashSet<K, fast::RandomState>;
