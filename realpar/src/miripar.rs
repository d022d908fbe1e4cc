//! The parallel helpers on the real rayon-core, run by Miri: every memory
//! access is judged (data races by vector clocks, use of freed or
//! uninitialised memory, leaks of elements).
//! Usage: miripar MODE SHARD NSHARDS quick|thorough
use matreex::parallel::*;
use matreex::{Index, Matrix, Order};
use rayon_core_real::{ThreadPoolBuilder, join};
use std::sync::Mutex;
use std::thread::yield_now;

const OPS: [&str; 11] = ["apply", "map", "map_ref", "iter", "iter_mut", "into_iter", "iter_ix", "iter_mut_ix", "into_iter_ix", "nest_apply", "nest_map"];

/// An element with a heap allocation, so that a double drop, a leak or a read
/// of a moved-out element is seen by Miri.
type E = Box<u32>;

fn matrix(order: Order, nr: usize, nc: usize) -> Matrix<E> {
    let mut m = Matrix::with_initializer((nr, nc), |i| Box::new((i.row * 100 + i.col) as u32)).unwrap();
    m.set_order(order);
    m
}
fn f(v: u32) -> u32 {
    v.wrapping_mul(31) ^ 7
}
fn nest(v: u32) -> u32 {
    let n = Matrix::from_row(vec![v, v + 1]).par_map(|x| {
        yield_now();
        x + 1
    });
    let n = n.unwrap();
    assert_eq!((n[(0, 0)], n[(0, 1)]), (v + 1, v + 2), "nested par_map");
    f(v)
}

fn one(op: &str, order: Order, nr: usize, nc: usize) {
    let calls = Mutex::new(Vec::<(u32, Option<Index>)>::new());
    let call = |v: u32, i: Option<Index>| {
        yield_now();
        calls.lock().unwrap().push((v, i));
        yield_now();
    };
    let mut m = matrix(order, nr, nc);
    let mut ix = false;
    let result: Option<Matrix<u32>> = match op {
        "apply" | "nest_apply" => {
            m.par_apply(|e| {
                call(**e, None);
                **e = if op == "apply" { f(**e) } else { nest(**e) };
            });
            Some(m.map(|e| *e).unwrap())
        }
        "map" | "nest_map" => Some(
            m.par_map(|e| {
                call(*e, None);
                if op == "map" { f(*e) } else { nest(*e) }
            })
            .unwrap(),
        ),
        "map_ref" => {
            let r = m
                .par_map_ref(|e| {
                    call(**e, None);
                    Box::new(f(**e))
                })
                .unwrap();
            Some(r.map(|e| *e).unwrap())
        }
        "iter" => {
            m.par_iter_elements().for_each(|e| call(**e, None));
            None
        }
        "iter_mut" => {
            m.par_iter_elements_mut().for_each(|e| {
                call(**e, None);
                **e = f(**e);
            });
            Some(m.map(|e| *e).unwrap())
        }
        "into_iter" => {
            m.into_par_iter_elements().for_each(|e| call(*e, None));
            None
        }
        "iter_ix" => {
            ix = true;
            m.par_iter_elements_with_index().for_each(|(i, e)| call(**e, Some(i)));
            None
        }
        "iter_mut_ix" => {
            ix = true;
            m.par_iter_elements_mut_with_index().for_each(|(i, e)| {
                call(**e, Some(i));
                **e = f(**e);
            });
            Some(m.map(|e| *e).unwrap())
        }
        "into_iter_ix" => {
            ix = true;
            m.into_par_iter_elements_with_index().for_each(|(i, e)| call(*e, Some(i)));
            None
        }
        _ => unreachable!(),
    };
    if let Some(r) = result {
        let want = matrix(order, nr, nc).map(|e| f(*e)).unwrap();
        assert!(r == want && r.order() == order, "{op}: {r:?} instead of {want:?}");
    }
    let mut got: Vec<_> = calls.into_inner().unwrap().into_iter().map(|(v, i)| (v, i.map(|i| (i.row, i.col)))).collect();
    got.sort();
    let mut want: Vec<_> = (0..nr).flat_map(|r| (0..nc).map(move |c| ((r * 100 + c) as u32, ix.then_some((r, c))))).collect();
    want.sort();
    assert!(got == want, "{op}: closure saw {got:?} instead of {want:?}");
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.is_empty() {
        return; // only built
    }
    let (shard, n): (usize, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap());
    let thorough = a[3] == "thorough";
    let mut shapes = vec![(1, 2), (2, 3), (1, 9)];
    if thorough {
        shapes.extend([(0, 2), (1, 1), (3, 1), (4, 5), (1, 40)]);
    }
    let (mut k, mut done) = (0, 0);
    for pool in if thorough { vec![2, 3, 4, 7] } else { vec![2, 3] } {
        let p = ThreadPoolBuilder::new().num_threads(pool).build().unwrap();
        for (nr, nc) in &shapes {
            for op in OPS {
                for order in [Order::RowMajor, Order::ColMajor] {
                    k += 1;
                    if k % n != shard {
                        continue;
                    }
                    done += 1;
                    println!("case {op} on {order:?} {nr}x{nc}, pool of {pool}");
                    // let both workers start at once
                    p.install(|| join(|| one(op, order, *nr, *nc), yield_now));
                }
            }
        }
    }
    println!("MIRI-OK cases={done} transitions={done} states={done}");
}
