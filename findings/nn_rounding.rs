// Before the repair: nearest neighbour at squared distance 0.4999999999999999 although an element is
// at 0.12999999999999998.  Bulk-loaded segments with coordinates that are multiples of 0.1.
use rstar::{primitives::Line, PointDistance, RTree};
fn main() {
    let v: Vec<Line<[f64; 2]>> = [
        ([0.4, 0.5], [0.6, 0.2]),
        ([0.3, -0.6], [0.2, 0.1]),
        ([-0.3, 0.3], [-0.3, 0.6]),
        ([0.1, 0.5], [-0.6, 0.5]),
        ([0.0, 0.2], [0.3, -0.4]),
        ([0.3, 0.3], [0.1, -0.3]),
        ([-0.3, 0.0], [-0.5, 0.6]),
        ([-0.2, -0.6], [0.2, -0.1]),
        ([0.6, -0.4], [0.5, -0.2]),
        ([0.3, 0.5], [-0.6, 0.3]),
        ([-0.6, 0.3], [-0.1, -0.6]),
        ([0.2, -0.3], [0.5, 0.5]),
        ([-0.6, 0.1], [0.1, -0.3]),
        ([0.6, -0.3], [-0.3, 0.6]),
        ([-0.2, 0.2], [0.5, 0.6]),
        ([-0.2, -0.1], [0.1, -0.4]),
        ([-0.2, -0.5], [0.2, 0.2]),
        ([-0.4, 0.6], [-0.1, -0.1]),
        ([0.3, 0.4], [0.5, -0.3]),
        ([-0.2, 0.0], [0.4, 0.6]),
        ([0.4, 0.0], [-0.5, -0.6]),
        ([0.1, -0.5], [0.3, 0.6]),
        ([-0.5, -0.3], [0.2, 0.1]),
        ([-0.3, 0.6], [0.5, 0.6]),
        ([-0.4, 0.0], [-0.3, 0.3]),
        ([0.3, 0.4], [0.2, 0.1]),
        ([0.3, 0.4], [0.3, 0.1]),
        ([-0.3, -0.5], [0.5, 0.0]),
        ([0.1, -0.4], [-0.4, 0.2]),
        ([0.3, 0.0], [-0.5, 0.5]),
        ([-0.5, -0.3], [0.2, 0.0]),
        ([0.0, -0.4], [-0.2, -0.4]),
        ([0.0, -0.2], [0.0, -0.3]),
        ([0.5, 0.1], [-0.6, -0.1]),
        ([-0.5, -0.3], [0.2, 0.0]),
        ([-0.4, -0.1], [-0.6, 0.6]),
        ([-0.4, 0.5], [0.5, 0.5]),
        ([-0.2, -0.1], [0.1, 0.4]),
    ].iter().map(|(a, b)| Line::new(*a, *b)).collect();
    let p = [0.8999999999999999, 0.39999999999999997];
    let got = RTree::bulk_load(v.clone()).nearest_neighbor_with_distance_2(p).unwrap().1;
    let min = v.iter().map(|x| x.distance_2(&p)).fold(f64::INFINITY, f64::min);
    assert_eq!(got, min);
}
