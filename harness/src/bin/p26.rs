// P26 A coordinate is a plain record of its ordinates
use geos_rs::verif::*;
use geosmc::{ensure, mc::*};

const NAN: f64 = f64::NAN;
type S = [u8; 4];

/// bit for bit, any NaN being NaN
fn eq(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }

/// everything a coordinate says about itself, against the record x, y, z, m
fn says(what: &str, c: &Coordinate, w: [f64; 4], x: &mut Ctx) -> Res {
    let got = [c.x, c.y, c.z, c.m];
    ensure!(got.iter().zip(&w).all(|(a, b)| eq(*a, *b)), "{} holds {:?}, not {:?}", what, got, w);
    let got = [c.get_x(), c.get_y(), c.get_z(), c.get_m()];
    ensure!(got.iter().zip(&w).all(|(a, b)| eq(*a, *b)), "{} {:?} reads {:?}", what, w, got);
    for j in 0..3 {
        let g = c.get_ordinate([Coordinate::X, Coordinate::Y, Coordinate::Z][j]);
        ensure!(g.map_or(false, |g| eq(g, w[j])), "{} {:?}: ordinate {} reads {:?}", what, w, j, g);
    }
    for j in [-1, 4, 5, i32::MAX, i32::MIN] { ensure!(c.get_ordinate(j).is_none(), "{} {:?} has an ordinate {}", what, w, j); }
    ensure!(c.is_valid() == (w[0].is_finite() && w[1].is_finite()), "{} {:?} valid: {}", what, w, c.is_valid());
    x.t(8);
    if !w[0].is_nan() && !w[1].is_nan() {
        let (z, m) = (!w[2].is_nan(), !w[3].is_nan());
        let got = (c.is_xy(), c.is_xym(), c.is_xyzm(), Coordinates::dimension(c), Coordinates::measures(c));
        let want = match (z, m) { (false, false) => (true, false, false, 2, 0), (true, false) => (false, false, false, 3, 0), (false, true) => (false, true, false, 3, 1), _ => (false, false, true, 4, 1) };
        ensure!(got == want, "{} {:?} is laid out as {:?}, not {:?}", what, w, got, want);
        x.out(["XY", "XYM", "XYZ", "XYZM"][z as usize * 2 + m as usize]);
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("P26");
    let al: Vec<f64> = if k.q(0, 1) == 0 { vec![0.0, -0.0, 1.5, -7.0, f64::INFINITY, NAN] } else { vec![0.0, -0.0, 1.5, -7.0, 5e-324, f64::MAX, f64::NEG_INFINITY, f64::INFINITY, NAN] };
    let n = al.len();
    // every record, by every constructor
    k.family("construction", pow(n, 4), |i, x| {
        let mut d = Dec(i);
        let v = [*d.of(&al), *d.of(&al), *d.of(&al), *d.of(&al)];
        x.note(|| format!("{:?}", v));
        let xy = [v[0], v[1], NAN, NAN];
        let xym = [v[0], v[1], NAN, v[3]];
        says("new_xy", &Coordinate::new_xy(v[0], v[1]), xy, x)?;
        says("new_coordinatexy", &Coordinate::new_coordinatexy(v[0], v[1]), xy, x)?;
        says("new_xyz", &Coordinate::new_xyz(v[0], v[1], v[2]), [v[0], v[1], v[2], NAN], x)?;
        says("new_xym", &Coordinate::new_xym(v[0], v[1], v[3]), xym, x)?;
        says("new_coordinatexym", &Coordinate::new_coordinatexym(v[0], v[1], v[3]), xym, x)?;
        let c = Coordinate::new_xyzm(v[0], v[1], v[2], v[3]);
        says("new_xyzm", &c, v, x)?;
        says("new_coordinatexyzm", &Coordinate::new_coordinatexyzm(v[0], v[1], v[2], v[3]), v, x)?;
        says("from_coordinate", &Coordinate::from_coordinate(&c), v, x)?;
        // a copy is independent of its original
        let mut e = Coordinate::from_coordinate(&c);
        e.set_x(3.25);
        e.set_m(4.25);
        says("original of a changed copy", &c, v, x)
    });
    // what comes without values: X and Y 0, the others absent, or 0 where the layout names them
    k.family("defaults", 1, |_, x| {
        x.note(|| "all".into());
        let none = [0.0, 0.0, NAN, NAN];
        says("default", &Coordinate::default(), none, x)?;
        says("create", &Coordinate::create(), none, x)?;
        says("new_coordinatexy_default", &Coordinate::new_coordinatexy_default(), none, x)?;
        says("new_coordinatexym_default", &Coordinate::new_coordinatexym_default(), [0.0, 0.0, NAN, 0.0], x)?;
        says("new_coordinatexyzm_default", &Coordinate::new_coordinatexyzm_default(), [0.0; 4], x)?;
        says("create_dim(2)", &Coordinates::create_dim(2), none, x)?;
        says("create_dim(3)", &Coordinates::create_dim(3), none, x)?;
        says("create_dim_measures(2,0)", &Coordinates::create_dim_measures(2, 0), none, x)?;
        says("create_dim_measures(3,0)", &Coordinates::create_dim_measures(3, 0), none, x)?;
        says("create_dim_measures(3,1)", &Coordinates::create_dim_measures(3, 1), [0.0, 0.0, NAN, 0.0], x)?;
        says("create_dim_measures(4,1)", &Coordinates::create_dim_measures(4, 1), [0.0; 4], x)?;
        for (d, m, w) in [(2, 0, none), (3, 0, none), (3, 1, [0.0, 0.0, NAN, 0.0]), (4, 1, [0.0; 4])] {
            says("CoordinateArraySequence::create_coordinate", &CoordinateArraySequence::create_coordinate(d, m), w, x)?;
            says("create_coordinate_default", &CoordinateArraySequence::new_with_size_dimension_measures(1, d, m).create_coordinate_default(), w, x)?;
        }
        ensure!((Coordinate::X, Coordinate::Y, Coordinate::Z) == (0, 1, 2), "ordinate indexes");
        Ok(())
    });
    // every reachable record under every write; the record is the whole state, so each step decides all histories
    let init: Vec<S> = vec![[0, 0, n as u8 - 1, n as u8 - 1]];
    k.bfs("histories of writes", init, usize::MAX, |s, x| {
        let w = s.map(|j| al[j as usize]);
        let c = Coordinate::new_xyzm(w[0], w[1], w[2], w[3]);
        says("coordinate", &c, w, x)?;
        let mut succ: Vec<(String, S)> = vec![];
        for v in 0..n {
            for o in 0..4 {
                let mut t = *s;
                t[o] = v as u8;
                let m = t.map(|j| al[j as usize]);
                let mut g = c;
                match o { 0 => g.set_x(al[v]), 1 => g.set_y(al[v]), 2 => g.set_z(al[v]), _ => g.set_m(al[v]) }
                says(&format!("after set_{}({})", ["x", "y", "z", "m"][o], al[v]), &g, m, x)?;
                succ.push((format!("set_{}({})", ["x", "y", "z", "m"][o], al[v]), t));
                if o < 3 {
                    let mut g = c;
                    g.set_ordinate(o as i32, al[v]);
                    says(&format!("after set_ordinate({},{})", o, al[v]), &g, m, x)?;
                }
            }
            for o in [-1, 4, 17] {
                let mut g = c;
                g.set_ordinate(o, al[v]);
                says(&format!("after set_ordinate({},{})", o, al[v]), &g, w, x)?;
            }
            // takes X, Y and Z of another; M stays or comes along
            for o in 0..n * n {
                let b = Coordinate::new_xyzm(al[v], al[o % n], al[o / n], 77.0);
                let mut g = c;
                g.set_coordinate(&b);
                let m = if eq(g.m, w[3]) || eq(g.m, 77.0) { g.m } else { w[3] };
                says("after set_coordinate", &g, [b.x, b.y, b.z, m], x)?;
                succ.push((format!("set_coordinate({})", b), [v as u8, (o % n) as u8, (o / n) as u8, s[3]]));
            }
        }
        Ok(succ)
    });
    k.finish()
}
