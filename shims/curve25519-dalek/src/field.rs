//! Coefficient field.  `small`: integers modulo the prime configured in `mcrt`.
//! `big`: integers modulo the order of the real group.

#[cfg(not(feature = "big"))]
mod imp {
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
    pub struct F(pub u16);
    impl F {
        pub const ZERO: F = F(0);
        pub const ONE: F = F(1);
        #[inline(always)]
        pub fn add(self, o: F) -> F {
            let p = mcrt::p();
            let s = self.0 as u32 + o.0 as u32;
            F(if s >= p { s - p } else { s } as u16)
        }
        #[inline(always)]
        pub fn sub(self, o: F) -> F {
            let p = mcrt::p();
            let s = self.0 as u32 + p - o.0 as u32;
            F(if s >= p { s - p } else { s } as u16)
        }
        #[inline(always)]
        pub fn mul(self, o: F) -> F {
            F((self.0 as u32 * o.0 as u32 % mcrt::p()) as u16)
        }
        /// inverse, 0 for 0 (as dalek computes x^(l-2))
        pub fn inv(self) -> F {
            let p = mcrt::p();
            let (mut b, mut e, mut r) = (self.0 as u32, p - 2, 1u32 % p);
            while e > 0 {
                if e & 1 == 1 {
                    r = r * b % p;
                }
                b = b * b % p;
                e >>= 1;
            }
            if self.0 == 0 {
                return F(0);
            }
            F(r as u16)
        }
        pub fn from_le(bytes: &[u8]) -> F {
            let p = mcrt::p();
            let mut r = 0u32;
            for b in bytes.iter().rev() {
                r = ((r << 8) | *b as u32) % p;
            }
            F(r as u16)
        }
        #[inline(always)]
        pub fn get(b: &[u8; 32]) -> F {
            F(u16::from_le_bytes([b[0], b[1]]))
        }
        #[inline(always)]
        pub fn put(self) -> [u8; 32] {
            let mut o = [0u8; 32];
            o[..2].copy_from_slice(&self.0.to_le_bytes());
            o
        }
        pub fn is_canonical(b: &[u8; 32]) -> bool {
            b[2..].iter().all(|x| *x == 0) && (u16::from_le_bytes([b[0], b[1]]) as u32) < mcrt::p()
        }
        pub fn bits() -> usize {
            (32 - (mcrt::p() - 1).leading_zeros()) as usize
        }
        pub fn to_u64(self) -> u64 {
            self.0 as u64
        }
    }
}

#[cfg(feature = "big")]
mod imp {
    pub const L: [u64; 4] = [0x5812631a5cf5d3ed, 0x14def9dea2f79cd6, 0, 0x1000000000000000];
    #[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
    pub struct F(pub [u64; 4]);

    fn add4(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
        let mut r = [0; 4];
        let mut c = 0u128;
        for i in 0..4 {
            c += a[i] as u128 + b[i] as u128;
            r[i] = c as u64;
            c >>= 64;
        }
        r
    }
    fn geq(a: &[u64; 4], b: &[u64; 4]) -> bool {
        for i in (0..4).rev() {
            if a[i] != b[i] {
                return a[i] > b[i];
            }
        }
        true
    }
    fn sub4(a: [u64; 4], b: [u64; 4]) -> [u64; 4] {
        let mut r = [0; 4];
        let mut br = 0i128;
        for i in 0..4 {
            let d = a[i] as i128 - b[i] as i128 + br;
            r[i] = d as u64;
            br = d >> 64;
        }
        r
    }
    fn red(a: [u64; 4]) -> [u64; 4] {
        if geq(&a, &L) { sub4(a, L) } else { a }
    }
    impl F {
        pub const ZERO: F = F([0; 4]);
        pub const ONE: F = F([1, 0, 0, 0]);
        pub fn add(self, o: F) -> F {
            F(red(add4(self.0, o.0)))
        }
        pub fn sub(self, o: F) -> F {
            F(red(add4(self.0, sub4(L, o.0))))
        }
        /// any 512-bit integer: the top six bits apart
        fn wide(mut w: [u64; 8]) -> F {
            let top = w[7] >> 58;
            w[7] &= (1 << 58) - 1;
            let r = F::reduce512(&w);
            if top == 0 {
                return r;
            }
            // 2^505, doubled
            let h = F::reduce512(&[0, 0, 0, 0, 0, 0, 0, 1 << 57]);
            r.add(h.add(h).mul(F([top, 0, 0, 0])))
        }
        pub fn mul(self, o: F) -> F {
            if self == F::ZERO || o == F::ZERO {
                return F::ZERO;
            }
            let mut w = [0u64; 8];
            for i in 0..4 {
                let mut c = 0u128;
                for j in 0..4 {
                    c += w[i + j] as u128 + self.0[i] as u128 * o.0[j] as u128;
                    w[i + j] = c as u64;
                    c >>= 64;
                }
                w[i + 4] = c as u64;
            }
            F::reduce512(&w)
        }
        /// w < 2^506: with l = 2^252 + c, x = lo + hi*2^252 = lo - hi*c (mod l), folded three times
        fn reduce512(w: &[u64; 8]) -> F {
            const C: [u64; 2] = [0x5812631a5cf5d3ed, 0x14def9dea2f79cd6];
            fn split(w: &[u64; 8]) -> ([u64; 4], [u64; 5]) {
                let lo = [w[0], w[1], w[2], w[3] & 0x0fff_ffff_ffff_ffff];
                let mut hi = [0u64; 5];
                for i in 0..5 {
                    let a = w[3 + i] >> 60;
                    let b = if i < 4 { w[4 + i] << 4 } else { 0 };
                    hi[i] = a | b;
                }
                (lo, hi)
            }
            fn mulc(hi: &[u64; 5]) -> [u64; 8] {
                let mut o = [0u64; 8];
                for i in 0..5 {
                    let mut c = 0u128;
                    for j in 0..2 {
                        c += o[i + j] as u128 + hi[i] as u128 * C[j] as u128;
                        o[i + j] = c as u64;
                        c >>= 64;
                    }
                    if i + 2 < 8 {
                        o[i + 2] = c as u64;
                    }
                }
                o
            }
            let (lo, h1) = split(w);
            let (l2, h2) = split(&mulc(&h1));
            let (l3, h3) = split(&mulc(&h2));
            let (l4, h4) = split(&mulc(&h3));
            debug_assert!(h4 == [0; 5]);
            F(lo).sub(F(l2)).add(F(l3)).sub(F(l4))
        }
        pub fn inv(self) -> F {
            // x^(l-2)
            let e = sub4(L, [2, 0, 0, 0]);
            let mut r = F::ONE;
            for w in e.iter().rev() {
                for i in (0..64).rev() {
                    r = r.mul(r);
                    if (w >> i) & 1 == 1 {
                        r = r.mul(self);
                    }
                }
            }
            r
        }
        pub fn from_le(bytes: &[u8]) -> F {
            let mut w = [0u64; 8];
            for (i, b) in bytes.iter().enumerate() {
                w[i / 8] |= (*b as u64) << (8 * (i % 8));
            }
            F::wide(w)
        }
        pub fn get(b: &[u8; 32]) -> F {
            let mut w = [0u64; 4];
            for i in 0..4 {
                w[i] = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
            }
            F(w)
        }
        pub fn put(self) -> [u8; 32] {
            let mut o = [0u8; 32];
            for i in 0..4 {
                o[8 * i..8 * i + 8].copy_from_slice(&self.0[i].to_le_bytes());
            }
            o
        }
        pub fn is_canonical(b: &[u8; 32]) -> bool {
            !geq(&F::get(b).0, &L)
        }
        pub fn bits() -> usize {
            253
        }
        pub fn to_u64(self) -> u64 {
            self.0[0]
        }
    }
}
pub use imp::F;
