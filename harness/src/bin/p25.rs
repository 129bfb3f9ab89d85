// P25 Textual forms state every part of the value
use geos_rs::verif::*;
use geosmc::{ensure, mc::*, num::*};

/// numbers of a text of the form  open n sep n sep n close
fn nums(t: &str, open: &str, close: &str, sep: &[&str]) -> Option<Vec<f64>> {
    let mut t = t.strip_prefix(open)?.strip_suffix(close)?;
    let mut v = vec![];
    for s in sep { let p = t.find(s)?; v.push(t[..p].parse().ok()?); t = &t[p + s.len()..]; }
    v.push(t.parse().ok()?);
    Some(v)
}
/// bit for bit, any NaN being NaN
fn eq(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
fn says(what: &str, t: &str, got: Option<Vec<f64>>, want: &[f64]) -> Res {
    match got {
        Some(g) if g.len() == want.len() && g.iter().zip(want).all(|(a, b)| eq(*a, *b)) => Ok(()),
        _ => Err(format!("text of the {} {:?} is {:?}", what, want, t)),
    }
}
const C: [&str; 2] = [", ", ", "];

fn values(step: usize) -> Vec<f64> {
    let mut v = vec![0.0, -0.0, 1.0, -1.0, 0.1, -1.0 / 3.0, 1e21, 123456789.125, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, 9007199254740993.0, 0.30000000000000004];
    for e in (-1074..=1023).step_by(step) {
        let p = 2f64.powi(e / 2) * 2f64.powi(e - e / 2);
        for u in [0, 1, -1] { v.push(ulp(p, u)); v.push(-ulp(p, u)); }
    }
    v.push(2f64.powi(1023) * 1.3);
    v
}

fn main() {
    let mut k = Check::new("P25");
    let al = values(k.q(1, 1));
    // every value in every ordinate, the others staying put
    k.family("coordinates", al.len() as u64 * 12, |i, x| {
        let mut d = Dec(i);
        let v = *d.of(&al);
        let (pos, l) = (d.take(3), d.take(4));
        let mut o = [1.5, -2.25, 3.75];
        o[pos] = v;
        let c = match l { 0 => Coordinate::new_xy(o[0], o[1]), 1 => Coordinate::new_xyz(o[0], o[1], o[2]), 2 => Coordinate::new_xym(o[0], o[1], 9.0), _ => Coordinate::new_xyzm(o[0], o[1], o[2], 9.0) };
        if l % 2 == 0 { o[2] = f64::NAN; }
        let t = format!("{}", c);
        x.t(1);
        x.out(if v.is_nan() { "NaN" } else if v.is_infinite() { "infinite" } else { "finite" });
        x.note(|| t.clone());
        says("coordinate", &t, nums(&t, "(", ")", &C), &o)
    });
    let few = [0.0, -0.0, 1.0, -7.0, 0.5, 1e300, f64::NAN];
    k.family("coordinates of few values", pow(7, 3), |i, x| {
        let mut d = Dec(i);
        let o = [*d.of(&few), *d.of(&few), *d.of(&few)];
        let t = format!("{}", Coordinate::new_xyz(o[0], o[1], o[2]));
        x.t(1);
        x.out("coordinate");
        x.note(|| t.clone());
        says("coordinate", &t, nums(&t, "(", ")", &C), &o)
    });
    // sequences: every length and layout, every place of a distinctive coordinate
    let n = k.q(30usize, 120);
    k.family("sequences", ((n + 1) * (n + 1) * 4) as u64, |i, x| {
        let mut d = Dec(i);
        let (len, at, l) = (d.take(n + 1), d.take(n + 1), d.take(4));
        if at > len { return x.skip(); }
        let v: Vec<Coordinate> = (0..len).map(|j| { let (a, b) = if j == at { (-0.0, 1e-7) } else { (j as f64 * 0.1, 5.0 - j as f64) }; match l { 0 => Coordinate::new_xy(a, b), 1 => Coordinate::new_xyz(a, b, j as f64), 2 => Coordinate::new_xym(a, b, j as f64), _ => Coordinate::new_xyzm(a, b, -(j as f64), 4.0) } }).collect();
        let (dim, me) = [(2, 0), (3, 0), (3, 1), (4, 1)][l];
        let t = format!("{}", CoordinateArraySequence::new_with_coordinates_dimension_measures(v.clone(), dim, me));
        x.t(1);
        x.note(|| t.clone());
        if len == 0 { x.out("empty sequence"); ensure!(t == "()", "text of the empty sequence is {:?}", t); return Ok(()); }
        x.out("sequence");
        let bad = || format!("text of the sequence of {} points (layout {}) is {:?}", len, l, t);
        let s = t.strip_prefix('(').and_then(|t| t.strip_suffix(')')).ok_or_else(bad)?;
        let parts: Vec<&str> = s.split("), ").collect();
        if parts.len() != len { return Err(bad()); }
        for (j, p) in parts.iter().enumerate() {
            let p = if j + 1 < len { format!("{})", p) } else { p.to_string() };
            let c = &v[j];
            says("coordinate", &t, nums(&p, "(", ")", &C), &[c.x, c.y, c.z]).map_err(|_| format!("{} at place {}", bad(), j))?;
        }
        Ok(())
    });
    k.family("huge sequences", geosmc::geo::HUGE.len() as u64 * 4, |i, x| {
        let mut d = Dec(i);
        let (len, l) = (*d.of(&geosmc::geo::HUGE), d.take(4));
        let v: Vec<Coordinate> = (0..len).map(|j| { let (a, b) = (j as f64 * 0.1, 5.0 - j as f64); match l { 0 => Coordinate::new_xy(a, b), 1 => Coordinate::new_xyz(a, b, j as f64), 2 => Coordinate::new_xym(a, b, j as f64), _ => Coordinate::new_xyzm(a, b, -(j as f64), 4.0) } }).collect();
        let (dim, me) = [(2, 0), (3, 0), (3, 1), (4, 1)][l];
        let t = format!("{}", CoordinateArraySequence::new_with_coordinates_dimension_measures(v.clone(), dim, me));
        x.t(1);
        x.out("sequence");
        x.note(|| format!("{} points, {} characters", len, t.len()));
        let bad = || format!("text of the sequence of {} points (layout {})", len, l);
        let s = t.strip_prefix('(').and_then(|t| t.strip_suffix(')')).ok_or_else(bad)?;
        let parts: Vec<&str> = s.split("), ").collect();
        if parts.len() != len { return Err(format!("{} has {} parts", bad(), parts.len())); }
        for (j, p) in parts.iter().enumerate() {
            let p = if j + 1 < len { format!("{})", p) } else { p.to_string() };
            let c = &v[j];
            says("coordinate", &p, nums(&p, "(", ")", &C), &[c.x, c.y, c.z]).map_err(|e| format!("{} at place {}: {}", bad(), j, e))?;
        }
        Ok(())
    });
    // envelopes
    k.family("envelopes", al.len() as u64 * 4, |i, x| {
        let mut d = Dec(i);
        let v = *d.of(&al);
        if !v.is_finite() { return x.skip(); }
        let pos = d.take(4);
        let (a, b) = match pos { 0 => ([v, f64::MAX], [1.0, 2.0]), 1 => ([f64::MIN, v], [1.0, 2.0]), 2 => ([3.0, 4.0], [v, f64::MAX]), _ => ([3.0, 4.0], [f64::MIN, v]) };
        let e = Envelope::new_xy(a[0], a[1], b[0], b[1]);
        let t = format!("{}", e);
        x.t(1);
        x.out("envelope");
        x.note(|| t.clone());
        says("envelope", &t, nums(&t, "Env[", "]", &[" : ", ", ", " : "]), &[e.get_min_x(), e.get_max_x(), e.get_min_y(), e.get_max_y()])?;
        says("envelope", &t, nums(&t, "Env[", "]", &[" : ", ", ", " : "]), &[a[0], a[1], b[0], b[1]])
    });
    // vectors
    k.family("vectors", al.len() as u64 * 5, |i, x| {
        let mut d = Dec(i);
        let v = *d.of(&al);
        let pos = d.take(5);
        x.t(1);
        x.out("vector");
        if pos < 2 {
            let mut o = [0.75, -8.0];
            o[pos] = v;
            let t = Vector2D::new_from_xy(o[0], o[1]).to_string();
            x.note(|| t.clone());
            says("vector", &t, nums(&t, "[", "]", &C[..1]), &o)
        } else {
            let mut o = [0.75, -8.0, 16.5];
            o[pos - 2] = v;
            let t = Vector3D::new_from_xyz(o[0], o[1], o[2]).to_string();
            x.note(|| t.clone());
            says("vector", &t, nums(&t, "[", "]", &C), &o)
        }
    });
    // precision models: type, and scale of fixed ones
    k.family("precision models", al.len() as u64 + 2, |i, x| {
        x.t(1);
        let i = i as usize;
        if i >= al.len() {
            x.out("floating");
            let (p, w) = if i == al.len() { (PrecisionModel::default(), "Floating") } else { (PrecisionModel::new_with_type(PrecisionModelType::FloatingSingle), "Floating-Single") };
            x.note(|| format!("{}", p));
            ensure!(format!("{}", p) == w, "text of the {} model is {:?}", w, format!("{}", p));
            return Ok(());
        }
        let v = al[i];
        if !v.is_finite() || v == 0.0 || !(1.0 / v).is_finite() { return x.skip(); }
        x.out("fixed");
        let p = PrecisionModel::new_with_scale(v);
        let t = format!("{}", p);
        x.note(|| t.clone());
        says("fixed model", &t, nums(&t, "Fixed (Scale=", ")", &[]), &[p.get_scale()])?;
        // a negative scale states the grid size
        if v > 0.0 { says("fixed model", &t, nums(&t, "Fixed (Scale=", ")", &[]), &[v])?; }
        Ok(())
    });
    k.finish()
}
