//! The interface of the scheduler shim, on real pools of real threads.
pub mod mc {
    use rayon_core::{ThreadPool, ThreadPoolBuilder};
    use std::collections::BTreeMap;
    use std::sync::{Arc, Mutex};

    static POOLS: Mutex<BTreeMap<usize, Arc<ThreadPool>>> = Mutex::new(BTreeMap::new());
    const RUNS: u64 = 3;

    pub fn active() -> bool {
        false
    }
    pub fn set_pool(_: usize) {}
    pub fn set_fine(_: bool) {}
    pub fn me() -> Option<usize> {
        rayon_core::current_thread_index()
    }
    pub fn point() {
        if rayon_core::current_thread_index().is_some() {
            std::thread::yield_now();
        }
    }
    pub fn client_point() {
        point()
    }
    pub fn set_base(_: usize) {}
    pub fn set_coarse(_: bool) {}
    pub fn set_inside(_: bool) {}
    pub struct Explored {
        pub schedules: u64,
        pub points: u64,
        pub steals: u64,
        pub complete: bool,
        pub deepest: usize,
    }
    struct Carry<T>(T);
    unsafe impl<T> Send for Carry<T> {}
    impl<T: FnOnce() -> R, R> Carry<T> {
        fn go(self) -> Carry<R> {
            Carry((self.0)())
        }
    }
    /// Runs `body` a few times on a pool of that many threads; the caller
    /// waits, so nothing is used by two threads at once.
    pub fn explore<E>(pool: usize, _: usize, _: u64, mut body: impl FnMut() -> Result<(), E>) -> (Explored, Result<(), (Vec<u32>, E)>) {
        let p = POOLS
            .lock()
            .unwrap()
            .entry(pool)
            .or_insert_with(|| Arc::new(ThreadPoolBuilder::new().num_threads(pool).build().expect("thread pool")))
            .clone();
        let mut ex = Explored { schedules: 0, points: 0, steals: 0, complete: true, deepest: 0 };
        for _ in 0..RUNS {
            ex.schedules += 1;
            ex.points += 1;
            let c = Carry(&mut body);
            let r = p.install(move || c.go());
            if let Err(e) = r.0 {
                return (ex, Err((vec![], e)));
            }
        }
        (ex, Ok(()))
    }
}
