//! Random source. Per-thread ChaCha20 stream; seeded from the OS unless `standin_seed` is called on the thread.
use crate::prim_chacha;
use std::cell::RefCell;

pub trait KeyMaterial {
    fn read_okm(&mut self, buf: &mut [u8]);
}
pub use KeyMaterial as Rng;

struct State {
    key: [u8; 32],
    ctr: u64,
}
thread_local! {
    static S: RefCell<Option<State>> = const { RefCell::new(None) };

}

/// Stand-in only: make the calling thread's stream a function of `seed`.
pub fn standin_seed(seed: u64) {
    let mut key = [0u8; 32];
    key[..8].copy_from_slice(&seed.to_le_bytes());
    key[8..16].copy_from_slice(b"standin!");
    S.with(|s| *s.borrow_mut() = Some(State { key, ctr: 0 }));
}

pub fn fill_random(buf: &mut [u8]) {
    S.with(|s| {
        let mut s = s.borrow_mut();
        let st = s.get_or_insert_with(|| {
            use std::io::Read;
            let mut key = [0u8; 32];
            std::fs::File::open("/dev/urandom").and_then(|mut f| f.read_exact(&mut key)).expect("urandom");
            State { key, ctr: 0 }
        });
        for c in buf.chunks_mut(64) {
            let mut n = [0u8; 12];
            n[..8].copy_from_slice(&st.ctr.to_le_bytes());
            st.ctr += 1;
            let b = prim_chacha::block(&st.key, 0, &n);
            c.copy_from_slice(&b[..c.len()]);
        }
    })
}

#[derive(Debug, Clone, Copy)]
pub struct DefaultRng;
pub fn default_rng() -> DefaultRng {
    DefaultRng
}
impl KeyMaterial for DefaultRng {
    fn read_okm(&mut self, buf: &mut [u8]) {
        fill_random(buf)
    }
}
impl<T: KeyMaterial + ?Sized> KeyMaterial for &mut T {
    fn read_okm(&mut self, buf: &mut [u8]) {
        (**self).read_okm(buf)
    }
}
