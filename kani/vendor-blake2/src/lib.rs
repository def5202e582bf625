//! Stand-in for the BLAKE2s crate: finalize() looks its parameters and input up in a table; a new
//! entry takes the next digest the harness supplied (arbitrary values under the model checker).
//! Equal calls give equal digests, and nothing else is known about the digests.
pub mod blake2s {
    pub const CAP: usize = 56;
    pub const CALLS: usize = 6;
    #[derive(Clone, Copy)]
    pub struct Call {
        pub nn: usize,
        pub klen: usize,
        pub slen: usize,
        pub plen: usize,
        pub persona: [u8; 8],
        pub len: usize,
        pub buf: [u8; CAP],
    }
    const EMPTY: Call = Call { nn: 0, klen: 0, slen: 0, plen: 0, persona: [0; 8], len: 0, buf: [0; CAP] };
    pub static mut DIGESTS: [[u8; 32]; CALLS] = [[0; 32]; CALLS];
    pub static mut TABLE: [Call; CALLS] = [EMPTY; CALLS];
    pub static mut USED: usize = 0;

    fn same(a: &Call, b: &Call) -> bool {
        if a.nn != b.nn || a.klen != b.klen || a.slen != b.slen || a.plen != b.plen || a.len != b.len {
            return false;
        }
        let mut d = 0u8;
        for i in 0..8 {
            d |= a.persona[i] ^ b.persona[i];
        }
        for i in 0..CAP {
            d |= a.buf[i] ^ b.buf[i];
        }
        d == 0
    }

    #[derive(Clone)]
    pub struct Blake2s {
        c: Call,
    }
    #[derive(Clone, Copy, Debug)]
    pub struct Blake2sResult {
        h: [u8; 32],
        nn: usize,
    }
    impl Blake2sResult {
        pub fn as_bytes(&self) -> &[u8] {
            &self.h[..self.nn]
        }
        pub fn len(&self) -> usize {
            self.nn
        }
    }
    impl AsRef<[u8]> for Blake2sResult {
        fn as_ref(&self) -> &[u8] {
            self.as_bytes()
        }
    }
    impl Blake2s {
        pub fn new(nn: usize) -> Self {
            Self::with_params(nn, &[], &[], &[])
        }
        pub fn with_key(nn: usize, k: &[u8]) -> Self {
            Self::with_params(nn, k, &[], &[])
        }
        pub fn with_params(nn: usize, key: &[u8], salt: &[u8], persona: &[u8]) -> Self {
            assert!(nn >= 1 && nn <= 32 && key.len() <= 32 && salt.len() <= 8 && persona.len() <= 8);
            let mut c = EMPTY;
            c.nn = nn;
            c.klen = key.len();
            c.slen = salt.len();
            c.plen = persona.len();
            for i in 0..persona.len() {
                c.persona[i] = persona[i];
            }
            let mut s = Blake2s { c };
            s.update(key);
            s.update(salt);
            s
        }
        pub fn update(&mut self, data: &[u8]) {
            assert!(self.c.len + data.len() <= CAP, "harness bound: hash input too long");
            for i in 0..data.len() {
                self.c.buf[self.c.len + i] = data[i];
            }
            self.c.len += data.len();
        }
        pub fn finalize(self) -> Blake2sResult {
            unsafe {
                let mut k = CALLS;
                for i in 0..CALLS {
                    let t = core::ptr::addr_of!(TABLE[i]);
                    if i < USED && k == CALLS && same(&*t, &self.c) {
                        k = i;
                    }
                }
                if k == CALLS {
                    assert!(USED < CALLS, "harness bound: too many hash calls");
                    k = USED;
                    TABLE[k] = self.c;
                    USED += 1;
                }
                Blake2sResult { h: DIGESTS[k], nn: self.c.nn }
            }
        }
    }
    impl std::io::Write for Blake2s {
        fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
            self.update(buf);
            Ok(buf.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
    pub fn blake2s(nn: usize, k: &[u8], data: &[u8]) -> Blake2sResult {
        let mut s = Blake2s::with_key(nn, k);
        s.update(data);
        s.finalize()
    }
}
