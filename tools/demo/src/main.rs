use funspace::space_mpi::*;
use ndarray::Array2;
fn main() {
    let r = mpi_crate::run(3, |_| {
        let u = initialize().unwrap();
        let d = Decomp2d::new(&u, [7, 5]);
        let g = Array2::from_shape_fn((7, 5), |(i, j)| (10 * i + j) as f64);
        let x = d.split_array_x_pencil(&g);
        let mut y = Array2::zeros(d.y_pencil.sz);
        d.transpose_x_to_y(&x, &mut y);
        assert_eq!(y, d.split_array_y_pencil(&g));
    });
    println!("{:?}", r);
    std::process::exit(r.is_err() as i32);
}
