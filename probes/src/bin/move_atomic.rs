//! A pooling function that may be moved to another thread: this must be accepted.
use renplex::cvnn::layer::reduce::Reduce;
use renplex::cvnn::network::CNetwork;
use renplex::math::cfloat::Cf64;
use renplex::math::matrix::Matrix;
use std::sync::Arc;

fn network() -> CNetwork<Cf64> {
    let kept = Arc::new(1usize);
    let mut net: CNetwork<Cf64> = CNetwork::new();
    let one = Matrix::from_body(vec![Cf64 { x: 1.0, y: 0.0 }], [1, 1]);
    net.add_input(Reduce::init(1, [2, 2], Box::new(move |block: &[Cf64]| { let _again = kept.clone(); block[0] }), one).wrap()).unwrap();
    net
}

fn main() {
    let net = network();
    let x = || renplex::input::IOType::Matrix(vec![Matrix::from_body(vec![Cf64 { x: 1.0, y: 1.0 }; 400], [20, 20])]);
    std::thread::spawn(move || net.forward(&x()).map(|_| ()).unwrap()).join().unwrap();
    println!("PROBE-RAN");
}
