//! Reference definitions the properties are stated against.  Nothing here is
//! executed: the compiler driver turns these functions into the same
//! intermediate representation as the analysed crate and the engine compares
//! the abstract results of the two.
#![allow(dead_code)]

// ---------------------------------------------------------------- bit layout
pub fn field_high(h: u64) -> i32 { (h >> 63) as i32 }
pub fn field_mode(h: u64) -> i32 { ((h >> 59) & 15) as i32 }
pub fn field_reserved(h: u64) -> i32 { ((h >> 56) & 7) as i32 }
pub fn field_res(h: u64) -> i32 { ((h >> 52) & 15) as i32 }
pub fn field_bc(h: u64) -> i32 { ((h >> 45) & 127) as i32 }
pub fn digit(h: u64, r: i32) -> u8 { ((h >> (3 * (15 - r) as u32)) & 7) as u8 }
pub fn with_digit(h: u64, r: i32, d: u8) -> u64 {
    let s = 3 * (15 - r) as u32;
    (h & !(7u64 << s)) | ((d as u64) << s)
}
pub fn with_high(h: u64, v: i32) -> u64 { (h & 0x7fff_ffff_ffff_ffff) | ((v as u64) << 63) }
pub fn with_mode(h: u64, v: i32) -> u64 { (h & 0x87ff_ffff_ffff_ffff) | ((v as u64) << 59) }
pub fn with_reserved(h: u64, v: i32) -> u64 { (h & 0xf8ff_ffff_ffff_ffff) | ((v as u64) << 56) }
pub fn with_res(h: u64, v: i32) -> u64 { (h & 0xff0f_ffff_ffff_ffff) | ((v as u64) << 52) }
pub fn with_bc(h: u64, v: i32) -> u64 { (h & 0xfff0_1fff_ffff_ffff) | ((v as u64) << 45) }
pub fn set_digit_i(h: u64, r: i32, v: i32) -> u64 { with_digit(h, r, v as u8) }

/// mode 1, given resolution and base cell, given digit repeated, 7 below
pub fn make_index(res: i32, bc: i32, d: i32) -> u64 {
    let mut h = (1u64 << 59) | ((res as u64) << 52) | ((bc as u64) << 45);
    let mut r = 1;
    while r <= 15 {
        h = with_digit(h, r, if r <= res { d as u8 } else { 7 });
        r += 1;
    }
    h
}

// ---------------------------------------------------------------- cells
pub const PENT: [bool; 128] = {
    let mut t = [false; 128];
    let l = [4, 14, 24, 38, 49, 58, 63, 72, 83, 97, 107, 117];
    let mut i = 0;
    while i < 12 { t[l[i]] = true; i += 1; }
    t
};
pub fn bc_is_pentagon(b: i32) -> bool { PENT[b as usize] }
pub fn leading(h: u64) -> u8 {
    let res = field_res(h);
    let mut r = 1;
    while r <= res {
        let d = digit(h, r);
        if d != 0 { return d; }
        r += 1;
    }
    0
}
pub fn is_valid(h: u64) -> bool {
    if field_high(h) != 0 || field_mode(h) != 1 || field_reserved(h) != 0 { return false; }
    if field_bc(h) >= 122 { return false; }
    let res = field_res(h);
    let mut r = 1;
    while r <= 15 {
        let d = digit(h, r);
        if r <= res { if d == 7 { return false; } } else if d != 7 { return false; }
        r += 1;
    }
    !(bc_is_pentagon(field_bc(h)) && leading(h) == 1)
}
pub fn is_pentagon(h: u64) -> bool { bc_is_pentagon(field_bc(h)) && leading(h) == 0 }

// ---------------------------------------------------------------- rotations
pub const CCW: [u8; 8] = [0, 5, 3, 1, 6, 4, 2, 7];
pub const CW: [u8; 8] = [0, 3, 6, 2, 5, 1, 4, 7];
pub fn rot_ccw(h: u64) -> u64 {
    let mut o = h;
    let res = field_res(h);
    let mut r = 1;
    while r <= res { o = with_digit(o, r, CCW[digit(h, r) as usize]); r += 1; }
    o
}
pub fn rot_cw(h: u64) -> u64 {
    let mut o = h;
    let res = field_res(h);
    let mut r = 1;
    while r <= res { o = with_digit(o, r, CW[digit(h, r) as usize]); r += 1; }
    o
}
/// rotation about a pentagon centre: the deleted K sequence is skipped
pub fn rot_pent_ccw(h: u64) -> u64 {
    if leading(h) == 3 { rot_ccw(rot_ccw(h)) } else { rot_ccw(h) }
}
pub fn rot_pent_cw(h: u64) -> u64 {
    if leading(h) == 5 { rot_cw(rot_cw(h)) } else { rot_cw(h) }
}

// ---------------------------------------------------------------- hierarchy
pub const POW7: [i64; 16] = {
    let mut t = [1i64; 16];
    let mut i = 1;
    while i < 16 { t[i] = t[i - 1] * 7; i += 1; }
    t
};
/// number of children, or -1 when the resolution is out of range
pub fn children_count(h: u64, child_res: i32) -> i64 {
    let res = field_res(h);
    if child_res < res || child_res > 15 { return -1; }
    let n = POW7[(child_res - res) as usize];
    if is_pentagon(h) { 1 + 5 * ((n - 1) / 6) } else { n }
}
pub fn digit_i(h: u64, r: i32) -> i32 { digit(h, r) as i32 }
pub fn children_count_r(h: u64, child_res: i32) -> Result<i64, i32> {
    let n = children_count(h, child_res);
    if n < 0 { Err(4) } else { Ok(n) }
}

// ---------------------------------------------------------------- lattice
pub mod control;
pub mod geo;
pub mod tables;
pub mod lattice;
/// axial coordinates (i-k, j-k) of the seven directions centre, K, J, JK, I, IK, IJ
pub const UNIT: [[i32; 2]; 7] = [[0, 0], [-1, -1], [0, 1], [-1, 0], [1, 0], [0, -1], [1, 1]];
/// centre of the finer grid's cell below a coarse coordinate; ccw for odd, cw for even finer resolutions
pub const fn down(a: [i32; 2], odd: bool) -> [i32; 2] {
    // images of the unit vectors i, j, k: (3,0,1) (1,3,0) (0,1,3) ccw; (3,1,0) (0,3,1) (1,0,3) cw
    if odd { [2 * a[0] + a[1], -a[0] + 3 * a[1]] } else { [3 * a[0] - a[1], a[0] + 2 * a[1]] }
}
/// [odd][digit][direction] -> (new digit, carry direction), solved on the lattice
pub const STEP: [[[[u8; 2]; 7]; 7]; 2] = {
    let mut t = [[[[7u8; 2]; 7]; 7]; 2];
    let mut o = 0;
    while o < 2 {
        let mut a = 0;
        while a < 7 {
            let mut d = 0;
            while d < 7 {
                let x = [UNIT[a][0] + UNIT[d][0], UNIT[a][1] + UNIT[d][1]];
                let mut p = 0;
                while p < 7 {
                    let mut b = 0;
                    while b < 7 {
                        let c = down(UNIT[p], o == 1);
                        if c[0] + UNIT[b][0] == x[0] && c[1] + UNIT[b][1] == x[1] { t[o][a][d] = [b as u8, p as u8]; }
                        b += 1;
                    }
                    p += 1;
                }
                d += 1;
            }
            a += 1;
        }
        o += 1;
    }
    t
};

// ---------------------------------------------------------------- neighbours
pub fn cw_offset(b: i32, face: i32) -> bool {
    let t = tables::CW_OFFSET[b as usize];
    t[0] == face || t[1] == face
}
/// one step from a valid cell; direction 0..=6, rot = ccw turns applied to it so far
pub fn neighbor(h: u64, d0: u8, rot: i32) -> Result<(u64, i32), i32> {
    if d0 > 6 { return Err(1); }
    let mut d = d0;
    let mut n = 0;
    while n < rot { d = CCW[d as usize]; n += 1; }
    let mut rot = rot;
    let old = field_bc(h);
    let lead = leading(h);
    let mut o = h;
    // carry up through the digits
    let mut r = field_res(h);
    while r >= 1 && d != 0 {
        let s = STEP[(r & 1) as usize][digit(h, r) as usize][d as usize];
        o = with_digit(o, r, s[0]);
        d = s[1];
        r -= 1;
    }
    let mut turns = 0;
    let mut new = old;
    if d != 0 {
        let t = tables::NBR[old as usize][d as usize];
        if t == 127 {
            // the deleted direction of a pentagonal base cell leads where IK leads
            new = tables::NBR[old as usize][5] as i32;
            turns = tables::NBR_ROT[old as usize][5] as i32;
            o = rot_ccw(o);
            rot += 1;
        } else {
            new = t as i32;
            turns = tables::NBR_ROT[old as usize][d as usize] as i32;
        }
        o = with_bc(o, new);
    }
    if PENT[new as usize] {
        let mut adjusted = false;
        if leading(o) == 1 {
            if new != old {
                if cw_offset(new, tables::HOME[old as usize][0]) { o = rot_cw(o); } else { o = rot_ccw(o); }
                adjusted = true;
            } else if lead == 0 {
                return Err(9);
            } else if lead == 3 {
                o = rot_ccw(o);
                rot += 1;
            } else if lead == 5 {
                o = rot_cw(o);
                rot += 5;
            } else {
                return Err(1);
            }
        }
        let mut n = 0;
        while n < turns { o = rot_pent_ccw(o); n += 1; }
        if new != old {
            let l = leading(o);
            if new == 4 || new == 117 {
                if old != 118 && old != 8 && l != 3 { rot += 1; }
            } else if l == 5 && !adjusted {
                rot += 1;
            }
        }
    } else {
        let mut n = 0;
        while n < turns { o = rot_ccw(o); n += 1; }
    }
    Ok((o, (rot + turns) % 6))
}
/// shape of a step, used to divide the inputs into cases (never compared)
pub fn step_shape(h: u64, d0: u8) -> i32 {
    let old = field_bc(h);
    let mut d = d0;
    let mut o = h;
    let mut r = field_res(h);
    while r >= 1 && d != 0 {
        let s = STEP[(r & 1) as usize][digit(h, r) as usize][d as usize];
        o = with_digit(o, r, s[0]);
        d = s[1];
        r -= 1;
    }
    if d == 0 { return r + 1; }
    let t = tables::NBR[old as usize][d as usize];
    if t == 127 { return 17; }
    let turns = tables::NBR_ROT[old as usize][d as usize] as i32;
    if !PENT[t as usize] { return 20 + turns; }
    100 + 8 * leading(o) as i32 + turns
}

// ---------------------------------------------------------------- directed edges
pub fn edge_of(origin: u64, d: u8) -> u64 {
    (origin & !(0xfu64 << 59) & !(7u64 << 56)) | (2u64 << 59) | ((d as u64) << 56)
}
pub fn edge_origin(e: u64) -> Result<u64, i32> {
    if field_mode(e) != 2 { return Err(6); }
    Ok((e & !(0xfu64 << 59) & !(7u64 << 56)) | (1u64 << 59))
}
pub fn is_valid_edge(e: u64) -> bool {
    let d = field_reserved(e);
    if d < 1 || d > 6 { return false; }
    if field_mode(e) != 2 { return false; }
    let o = (e & !(0xfu64 << 59) & !(7u64 << 56)) | (1u64 << 59);
    is_valid(o) && !(is_pentagon(o) && d == 1)
}
pub fn edge_destination(e: u64) -> Result<u64, i32> {
    let o = edge_origin(e)?;
    match neighbor(o, field_reserved(e) as u8, 0) { Ok((n, _)) => Ok(n), Err(x) => Err(x) }
}
pub fn edge_cells(e: u64) -> Result<(u64, u64), i32> {
    let o = edge_origin(e)?;
    match neighbor(o, field_reserved(e) as u8, 0) { Ok((n, _)) => Ok((o, n)), Err(x) => Err(x) }
}
pub fn edges_of(o: u64) -> [u64; 6] {
    let mut v = [0u64; 6];
    let mut d = 1;
    while d <= 6 {
        if !(d == 1 && is_pentagon(o)) { v[d as usize - 1] = edge_of(o, d); }
        d += 1;
    }
    v
}
/// cells within k steps: at most all cells of the finest resolution
pub fn max_disk(k: u32) -> u64 {
    if k > 13780509 { return 569707381193162; }
    let k = k as u64;
    1 + 3 * (k * k) + 3 * k
}
