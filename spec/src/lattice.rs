//! The hexagonal lattice: coordinates (i, j, k) with axes 120 degrees apart,
//! equal when they differ by a multiple of (1, 1, 1).
use crate::*;
type P = [i32; 3];

pub fn min3(p: P) -> i32 {
    let m = if p[0] < p[1] { p[0] } else { p[1] };
    if p[2] < m { p[2] } else { m }
}
pub fn normal(p: P) -> P { let m = min3(p); [p[0] - m, p[1] - m, p[2] - m] }
/// from axial coordinates (i - k, j - k)
pub fn axial(a: i32, b: i32) -> P { normal([a, b, 0]) }
pub fn l_down_ccw(p: P) -> P { let x = down([p[0] - p[2], p[1] - p[2]], true); axial(x[0], x[1]) }
pub fn l_down_cw(p: P) -> P { let x = down([p[0] - p[2], p[1] - p[2]], false); axial(x[0], x[1]) }
pub fn l_step(p: P, d: i32) -> P {
    if d < 1 || d > 6 { return p; }
    let u = UNIT[d as usize];
    axial(p[0] - p[2] + u[0], p[1] - p[2] + u[1])
}
/// a sixth of a turn: i to -k, j to -i, k to -j counter-clockwise
pub fn l_rot_ccw(p: P) -> P { normal([-p[1], -p[2], -p[0]]) }
pub fn l_rot_cw(p: P) -> P { normal([-p[2], -p[0], -p[1]]) }
pub fn l_add(a: P, b: P) -> P { [a[0] + b[0], a[1] + b[1], a[2] + b[2]] }
pub fn l_sub(a: P, b: P) -> P { [a[0] - b[0], a[1] - b[1], a[2] - b[2]] }
pub fn l_scale(a: P, f: i32) -> P { [a[0] * f, a[1] * f, a[2] * f] }
pub fn l_set(_a: P, i: i32, j: i32, k: i32) -> P { [i, j, k] }
pub fn l_same(a: P, b: P) -> bool { a[0] == b[0] && a[1] == b[1] && a[2] == b[2] }
/// direction of a unit vector, 7 when it is not one
pub fn l_digit(p: P) -> i32 {
    let (x, y) = (p[0] - p[2], p[1] - p[2]);
    let mut d = 0;
    while d < 7 {
        if UNIT[d as usize][0] == x && UNIT[d as usize][1] == y { return d; }
        d += 1;
    }
    7
}
pub fn l_turn_ccw(d: u8) -> u8 { CCW[d as usize] }
pub fn l_turn_cw(d: u8) -> u8 { CW[d as usize] }
/// directions outside 1..=6 leave the coordinate as it is
pub fn l_step_n(p: P, d: i32) -> P { l_step(p, d) }

// ---------------------------------------------------------------- base cells
pub fn b_pent(b: i32) -> bool { b >= 0 && b < 122 && PENT[b as usize] }
pub fn b_polar(b: i32) -> bool { b == 4 || b == 117 }
pub fn b_cw(b: i32, face: i32) -> bool { cw_offset(b, face) }
/// base cell at (face, i, j, k) with components 0..=2
pub fn b_at(p: [i32; 4]) -> i32 { tables::FACE_BC[p[0] as usize][(p[1] * 9 + p[2] * 3 + p[3]) as usize] as i32 }
/// counter-clockwise turns from the face's orientation into the base cell's
pub fn b_turns(p: [i32; 4]) -> i32 { tables::FACE_ROT[p[0] as usize][(p[1] * 9 + p[2] * 3 + p[3]) as usize] as i32 }

/// index of the cell that digits of h address below coordinate p of a face
pub fn place(h: u64, p: [i32; 4]) -> u64 {
    if p[1] > 2 || p[2] > 2 || p[3] > 2 { return 0; }
    let bc = b_at(p);
    let mut o = with_bc(h, bc);
    let turns = b_turns(p);
    let mut n = 0;
    if PENT[bc as usize] {
        if leading(o) == 1 { o = if cw_offset(bc, p[0]) { rot_cw(o) } else { rot_ccw(o) }; }
        while n < turns { o = rot_pent_ccw(o); n += 1; }
    } else {
        while n < turns { o = rot_ccw(o); n += 1; }
    }
    o
}

// ---------------------------------------------------------------- overage
/// move a coordinate of an even grid that lies beyond its face to the face it lies on:
/// 0 it was on its face, 1 it is on an edge (substrate grids), 2 it is on another face
pub fn overage(p: [i32; 4], res: i32, pent4: bool, substrate: bool) -> ([i32; 4], i32) {
    let mut unit = 1;
    let mut r = 0;
    while r < res { unit *= 7; r += 2; }
    if substrate { unit *= 3; }
    let max = 2 * unit;
    let s = p[1] + p[2] + p[3];
    if substrate && s == max { return (p, 1); }
    if s <= max { return (p, 0); }
    let q = if p[3] > 0 { if p[2] > 0 { 3 } else { 2 } } else { 1 };
    let n = tables::FACE_NBR[p[0] as usize][q];
    let mut c = [p[1], p[2], p[3]];
    if q == 2 && pent4 {
        let t = l_rot_cw([c[0] - max, c[1], c[2]]);
        c = [t[0] + max, t[1], t[2]];
    }
    let mut k = 0;
    while k < n[4] { c = l_rot_ccw(c); k += 1; }
    c = normal([c[0] + n[1] * unit, c[1] + n[2] * unit, c[2] + n[3] * unit]);
    let over = if substrate && c[0] + c[1] + c[2] == max { 1 } else { 2 };
    ([n[0], c[0], c[1], c[2]], over)
}

/// parent of a coordinate that is a centre child in an even grid
pub fn l_up_cw(p: P) -> P {
    let (i, j) = (p[0] - p[2], p[1] - p[2]);
    axial((2 * i + j) / 7, (3 * j - i) / 7)
}
/// digits below a coordinate, down to the resolution of h
pub fn follow(h: u64, home: [i32; 4]) -> [i32; 4] {
    let mut p = [home[1], home[2], home[3]];
    let res = field_res(h);
    let mut r = 1;
    while r <= res {
        p = if r % 2 == 1 { l_down_ccw(p) } else { l_down_cw(p) };
        p = l_step(p, digit(h, r) as i32);
        r += 1;
    }
    [home[0], p[0], p[1], p[2]]
}
/// whether the cells of a base cell may reach beyond its home face
pub fn may_leave(h: u64, home: [i32; 4]) -> bool {
    PENT[field_bc(h) as usize] || (field_res(h) != 0 && (home[1] != 0 || home[2] != 0 || home[3] != 0))
}
/// face and coordinate of a cell
pub fn to_face(h: u64) -> Result<[i32; 4], i32> {
    let b = field_bc(h);
    if b >= 122 { return Err(5); }
    let pent = PENT[b as usize];
    let res = field_res(h);
    let g = if pent && leading(h) == 5 { rot_cw(h) } else { h };
    let home = tables::HOME[b as usize];
    let p = follow(g, home);
    if !may_leave(h, home) { return Ok(p); }
    let odd = res % 2 == 1;
    let mut q = p;
    if odd { let c = l_down_cw([p[1], p[2], p[3]]); q = [p[0], c[0], c[1], c[2]]; }
    let even = if odd { res + 1 } else { res };
    let (mut f, over) = overage(q, even, pent && leading(g) == 4, false);
    if over == 0 { return Ok(p); }
    if pent {
        loop {
            let (n, o) = overage(f, even, false, false);
            if o == 0 { break; }
            f = n;
        }
    }
    if odd { let c = l_up_cw([f[1], f[2], f[3]]); f = [f[0], c[0], c[1], c[2]]; }
    Ok(f)
}
