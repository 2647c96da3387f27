//! The interface of `siphasher` that candystore uses. The hash of a byte string is supplied by
//! the checker (`vs_hash`): an arbitrary function of the seed and the bytes, so a property shown here holds
//! for whatever values the real SipHash returns.
#![no_std]
extern crate alloc;

pub mod sip128 {
    extern "C" {
        fn vs_hash(data: *const u8, len: usize, out: *mut u64);
    }

    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
    pub struct Hash128 {
        pub h1: u64,
        pub h2: u64,
    }

    impl Hash128 {
        pub fn as_u128(&self) -> u128 {
            (self.h1 as u128) | ((self.h2 as u128) << 64)
        }
        pub fn as_u64(&self) -> (u64, u64) {
            (self.h1, self.h2)
        }
    }

    impl From<Hash128> for (u64, u64) {
        fn from(h: Hash128) -> (u64, u64) {
            (h.h1, h.h2)
        }
    }

    fn hash(key: &[u8; 16], data: &[u8]) -> Hash128 {
        let mut out = [0u64; 2];
        let mut buf = alloc::vec::Vec::with_capacity(16 + data.len());
        buf.extend_from_slice(key);
        buf.extend_from_slice(data);
        unsafe { vs_hash(buf.as_ptr(), buf.len(), out.as_mut_ptr()) };
        Hash128 { h1: out[0], h2: out[1] }
    }

    macro_rules! hasher {
        ($n:ident) => {
            #[derive(Debug, Clone, Copy)]
            pub struct $n([u8; 16]);
            impl $n {
                pub fn new() -> Self {
                    $n([0; 16])
                }
                pub fn new_with_key(key: &[u8; 16]) -> Self {
                    $n(*key)
                }
                pub fn new_with_keys(k0: u64, k1: u64) -> Self {
                    let mut k = [0; 16];
                    k[..8].copy_from_slice(&k0.to_le_bytes());
                    k[8..].copy_from_slice(&k1.to_le_bytes());
                    $n(k)
                }
                pub fn hash(&self, data: &[u8]) -> Hash128 {
                    hash(&self.0, data)
                }
            }
        };
    }
    hasher!(SipHasher);
    hasher!(SipHasher13);
    hasher!(SipHasher24);
}
