//! A pooling function that counts its calls in a cell: threads sharing the network would race.
use renplex::cvnn::layer::reduce::Reduce;
use renplex::cvnn::network::CNetwork;
use renplex::math::cfloat::Cf64;
use renplex::math::matrix::Matrix;
use std::cell::Cell;

fn network() -> CNetwork<Cf64> {
    let calls = Cell::new(0usize);
    let mut net: CNetwork<Cf64> = CNetwork::new();
    let one = Matrix::from_body(vec![Cf64 { x: 1.0, y: 0.0 }], [1, 1]);
    net.add_input(Reduce::init(1, [2, 2], Box::new(move |block: &[Cf64]| { calls.set(calls.get() + 1); block[0] }), one).wrap()).unwrap();
    net
}

fn main() {
    let net = network();
    let x = || renplex::input::IOType::Matrix(vec![Matrix::from_body(vec![Cf64 { x: 1.0, y: 1.0 }; 400], [20, 20])]);
    std::thread::scope(|s| for _ in 0..4 { s.spawn(|| for _ in 0..200 { net.forward(&x()).unwrap(); }); });
    println!("PROBE-RAN");
}
