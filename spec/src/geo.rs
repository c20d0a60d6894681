// The sphere: nearest face, gnomonic projection, and the way back.
use std::f64::consts::PI;
pub const TINY: f64 = 0.0000000000000001;
pub const SQRT7: f64 = 2.6457513110645905905;
/// rotation between the two orientations of the grid
pub const TURN: f64 = 0.333473172251832115336090755351601070065900389;
/// length of a unit of the coarsest grid in the gnomonic plane
pub const UNIT: f64 = 0.38196601125010500003;

pub fn pos_angle(a: f64) -> f64 { if a < 0.0 { a + 2.0 * PI } else if a >= 2.0 * PI { a - 2.0 * PI } else { a } }
pub fn wrap_lat(mut x: f64) -> f64 { while x > PI / 2.0 { x -= PI; } x }
pub fn wrap_lng(mut x: f64) -> f64 {
    while x > PI { x -= 2.0 * PI; }
    while x < -PI { x += 2.0 * PI; }
    x
}
pub fn to_vec(lat: f64, lng: f64) -> (f64, f64, f64) { (lng.cos() * lat.cos(), lng.sin() * lat.cos(), lat.sin()) }
pub fn sq_dist(a: (f64, f64, f64), b: (f64, f64, f64)) -> f64 {
    let (x, y, z) = (a.0 - b.0, a.1 - b.1, a.2 - b.2);
    x * x + y * y + z * z
}
pub fn azimuth(lat1: f64, lng1: f64, lat2: f64, lng2: f64) -> f64 {
    let d = lng2 - lng1;
    (lat2.cos() * d.sin()).atan2(lat1.cos() * lat2.sin() - lat1.sin() * lat2.cos() * d.cos())
}
fn clamp1(x: f64) -> f64 { if x > 1.0 { 1.0 } else if x < -1.0 { -1.0 } else { x } }
/// the point at a distance and azimuth
pub fn destination(lat: f64, lng: f64, az: f64, dist: f64) -> (f64, f64) {
    if dist < TINY { return (lat, lng); }
    let az = pos_angle(az);
    let north = az < TINY;
    let straight = north || (az - PI).abs() < TINY;
    let to = if north { lat + dist } else if straight { lat - dist } else { clamp1(lat.sin() * dist.cos() + lat.cos() * dist.sin() * az.cos()).asin() };
    if (to - PI / 2.0).abs() < TINY { return (PI / 2.0, 0.0); }
    if (to + PI / 2.0).abs() < TINY { return (-PI / 2.0, 0.0); }
    if straight { return (to, wrap_lng(lng)); }
    let s = az.sin() * dist.sin() / to.cos();
    let c = (dist.cos() - lat.sin() * to.sin()) / lat.cos() / to.cos();
    let s = clamp1(s);
    let c = clamp1(c);
    (to, wrap_lng(lng + s.atan2(c)))
}
/// first of the faces with the nearest centre, and the squared distance
pub fn nearest_face(lat: f64, lng: f64) -> (i32, f64) {
    let v = to_vec(lat, lng);
    let (mut face, mut best) = (0, 5.0);
    let mut f = 0;
    while f < 20 {
        let p = FACE_POINT[f];
        let d = sq_dist((p[0], p[1], p[2]), v);
        if d < best { face = f as i32; best = d; }
        f += 1;
    }
    (face, best)
}
/// squared distance of a point to a face centre
pub fn face_dist(lat: f64, lng: f64, face: i32) -> f64 { let p = FACE_POINT[face as usize]; sq_dist((p[0], p[1], p[2]), to_vec(lat, lng)) }
fn odd(res: i32) -> bool { res % 2 == 1 }
/// position on the plane of a face, in cells of the resolution
pub fn project(lat: f64, lng: f64, face: i32, sqd: f64, res: i32) -> (f64, f64) {
    let r = (1.0 - sqd / 2.0).acos();
    if r < TINY { return (0.0, 0.0); }
    let c = FACE_GEO[face as usize];
    let mut t = pos_angle(FACE_AXIS[face as usize] - pos_angle(azimuth(c[0], c[1], lat, lng)));
    if odd(res) { t = pos_angle(t - TURN); }
    let mut r = r.tan() / UNIT;
    let mut k = 0;
    while k < res { r *= SQRT7; k += 1; }
    (r * t.cos(), r * t.sin())
}
pub fn locate(lat: f64, lng: f64, res: i32) -> (i32, f64, f64) {
    let (f, d) = nearest_face(lat, lng);
    let (x, y) = project(lat, lng, f, d, res);
    (f, x, y)
}
/// the point of the sphere under a position on the plane of a face
pub fn unproject(x: f64, y: f64, face: i32, res: i32, substrate: bool) -> (f64, f64) {
    let c = FACE_GEO[face as usize];
    let mut r = (x * x + y * y).sqrt();
    if r < TINY { return (c[0], c[1]); }
    let mut t = y.atan2(x);
    let mut k = 0;
    while k < res { r /= SQRT7; k += 1; }
    if substrate { r /= 3.0; if odd(res) { r /= SQRT7; } }
    let r = (r * UNIT).atan();
    if !substrate && odd(res) { t = pos_angle(t + TURN); }
    destination(c[0], c[1], pos_angle(FACE_AXIS[face as usize] - t), r)
}
/// centre of a lattice point
pub fn centre(i: i32, j: i32, k: i32) -> (f64, f64) {
    let (a, b) = (i - k, j - k);
    (a as f64 - 0.5 * b as f64, b as f64 * 0.8660254037844386467637231707529361834714)
}
pub fn cell_centre(face: i32, i: i32, j: i32, k: i32, res: i32) -> (f64, f64) { let (x, y) = centre(i, j, k); unproject(x, y, face, res, false) }
pub fn close(lat1: f64, lng1: f64, lat2: f64, lng2: f64, within: f64) -> bool { (lat1 - lat2).abs() < within && (lng1 - lng2).abs() < within }
pub fn same_point(lat1: f64, lng1: f64, lat2: f64, lng2: f64) -> bool { close(lat1, lng1, lat2, lng2, 0.000000001 * 0.0174532925199432957692369076848861271111) }
pub fn from_degrees(lat: f64, lng: f64) -> (f64, f64) { (lat * (PI / 180.0), lng * (PI / 180.0)) }
pub fn length(x: f64, y: f64) -> f64 { (x * x + y * y).sqrt() }
pub const FACE_GEO: [[f64; 2]; 20] = [
    [0.80358264971899, 1.2483974196173961],
    [1.3077478834556382, 2.5369450098779214],
    [1.054751253523952, -1.3475173589003966],
    [0.6001915955381868, -0.45060390946975576],
    [0.49171542819877384, 0.40198820291130694],
    [0.1727453274156187, 1.6781468852804338],
    [0.6059293215713507, 2.9539233298124117],
    [0.42737051832897965, -1.8888762003362853],
    [-0.07906611854921283, -0.7334295133808677],
    [-0.23096164445538364, 0.506495587332349],
    [0.07906611854921283, 2.4081631402089254],
    [0.23096164445538364, -2.635097066257444],
    [-0.1727453274156187, -1.4634457683093596],
    [-0.6059293215713507, -0.18766932377738163],
    [-0.42737051832897965, 1.2527164532535078],
    [-0.6001915955381868, 2.6909887441200375],
    [-0.49171542819877384, -2.7396044506784865],
    [-0.80358264971899, -1.8931952339723972],
    [-1.3077478834556382, -0.6046476437118721],
    [-1.054751253523952, 1.7940752946893965],
];
pub const FACE_POINT: [[f64; 3]; 20] = [
    [0.2199307791404606, 0.6583691780274996, 0.7198475378926182],
    [-0.2139234834501421, 0.1478171829550703, 0.9656017935214205],
    [0.1092625278784797, -0.481195157287321, 0.8697775121287253],
    [0.7428567301586791, -0.3593941678278028, 0.5648005936517033],
    [0.8112534709140969, 0.3448953237639384, 0.472138773641393],
    [-0.1055498149613921, 0.9794457296411413, 0.1718874610009365],
    [-0.8075407579970092, 0.1533552485898818, 0.5695261994882688],
    [-0.2846148069787907, -0.8644080972654206, 0.4144792552473539],
    [0.7405621473854482, -0.6673299564565524, -0.0789837646326737],
    [0.8512303986474293, 0.4722343788582681, -0.2289137388687808],
    [-0.7405621473854481, 0.6673299564565524, 0.0789837646326737],
    [-0.8512303986474292, -0.4722343788582682, 0.2289137388687808],
    [0.1055498149613919, -0.9794457296411413, -0.1718874610009365],
    [0.8075407579970092, -0.1533552485898819, -0.5695261994882688],
    [0.2846148069787908, 0.8644080972654204, -0.4144792552473539],
    [-0.7428567301586791, 0.3593941678278027, -0.5648005936517033],
    [-0.811253470914097, -0.3448953237639382, -0.472138773641393],
    [-0.2199307791404607, -0.6583691780274996, -0.7198475378926182],
    [0.213923483450142, -0.1478171829550704, -0.9656017935214205],
    [-0.1092625278784796, 0.481195157287321, -0.8697775121287253],
];
/// azimuth of the first axis of a face
pub const FACE_AXIS: [f64; 20] = [
    5.6199582685239395,
    5.7603390817141875,
    0.78021365439343,
    0.4304693639799999,
    6.130269123335111,
    2.692877706530643,
    2.982963003477244,
    3.532912002790141,
    3.494305004259568,
    3.0032141694995382,
    5.930472956509812,
    0.13837848409025486,
    0.4487149470591504,
    0.15862965011254937,
    5.891865957979238,
    2.711123289609793,
    3.294508837434268,
    3.80481969224544,
    3.6644388790551923,
    2.361378999196363,
];
/// lattice point whose hexagon holds a planar position, (i, j) along the first two axes
pub fn nearest(x: f64, y: f64) -> (i32, i32) {
    let b = y / 0.8660254037844386467637231707529361834714;
    let (q, r) = (x + 0.5 * b, -b);
    let s = -q - r;
    let (mut a, mut c, d) = (q.round(), r.round(), s.round());
    let (dq, dr, ds) = ((a - q).abs(), (c - r).abs(), (d - s).abs());
    if dq > dr && dq > ds { a = -c - d; } else if dr > ds { c = -a - d; }
    (a as i32, -c as i32)
}
/// index of the cell of a direction
pub fn index_at(lat: f64, lng: f64, res: i32) -> u64 {
    let (face, x, y) = locate(lat, lng, res);
    let (mut a, mut b) = nearest(x, y);
    let mut h = crate::make_index(res, 0, 0);
    let mut r = res;
    while r > 0 {
        let mut d = 0;
        while d < 7 {
            let (p, q) = (a - crate::UNIT[d][0], b - crate::UNIT[d][1]);
            let (u, v) = if r % 2 == 1 { (3 * p - q, p + 2 * q) } else { (2 * p + q, 3 * q - p) };
            if u % 7 == 0 && v % 7 == 0 {
                h = crate::with_digit(h, r, d as u8);
                a = u / 7;
                b = v / 7;
                break;
            }
            d += 1;
        }
        r -= 1;
    }
    let p = crate::lattice::axial(a, b);
    crate::lattice::place(h, [face, p[0], p[1], p[2]])
}
/// direction of a cell
pub fn centre_of(h: u64) -> Result<(f64, f64), i32> {
    let p = crate::lattice::to_face(h)?;
    Ok(cell_centre(p[0], p[1], p[2], p[3], crate::field_res(h)))
}
