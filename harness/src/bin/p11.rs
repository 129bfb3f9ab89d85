// P11 DE-9IM matrices and named predicates follow their patterns
use geos_rs::verif::*;
use geosmc::{ensure, mc::*};
const F: i32 = -1;
type M = [i32; 9];
fn mk(m: &M, how: usize) -> IntersectionMatrix {
    match how % 3 {
        0 => { let mut x = IntersectionMatrix::default(); for i in 0..9 { x.set_row_column_value(i / 3, i % 3, m[i]); } x }
        1 => IntersectionMatrix::new_with_elements(text(m)),
        _ => { let mut x = IntersectionMatrix::default(); x.set_string(text(m).to_lowercase()); IntersectionMatrix::new_from_intersection_matrix(&x) }
    }
}
fn sym(v: i32) -> char { match v { -1 => 'F', -2 => 'T', -3 => '*', 0 => '0', 1 => '1', _ => '2' } }
fn text(m: &M) -> String { m.iter().map(|v| sym(*v)).collect() }
fn cell(v: i32, s: u8) -> bool { match s { b'*' => true, b'T' => v >= 0 || v == -2, b'F' => v == -1, b'0' => v == 0, b'1' => v == 1, b'2' => v == 2, _ => false } }
fn fits(m: &M, pats: &[&str]) -> bool { pats.iter().any(|p| p.bytes().zip(m).all(|(s, v)| cell(*v, s))) }
fn holds(x: &IntersectionMatrix, m: &M) -> bool { (0..9).all(|i| x.get(i / 3, i % 3) == m[i]) }
fn dump(x: &IntersectionMatrix) -> Vec<i32> { (0..9).map(|i| x.get(i / 3, i % 3)).collect() }
fn tr(m: &M) -> M { let mut r = *m; for i in 0..9 { r[i] = m[(i % 3) * 3 + i / 3]; } r }

fn predicates(m: &M, x: &mut Ctx, how: usize) -> Res {
    let im = mk(m, how);
    ensure!(holds(&im, m), "matrix built from {} (form {}) holds {:?}", text(m), how % 3, dump(&im));
    let e = |nm: &str, g: bool, w: bool| -> Res { ensure!(g == w, "{} of {} = {}", nm, text(m), g); Ok(()) };
    let dis = fits(m, &["FF*FF****"]);
    x.out(if dis { "disjoint" } else { "intersecting" });
    e("disjoint", im.is_disjoint(), dis)?;
    e("intersects", im.is_intersects(), !dis)?;
    e("within", im.is_within(), fits(m, &["T*F**F***"]))?;
    e("contains", im.is_contains(), fits(m, &["T*****FF*"]))?;
    e("covers", im.is_covers(), fits(m, &["T*****FF*", "*T****FF*", "***T**FF*", "****T*FF*"]))?;
    e("covered_by", im.is_covered_by(), fits(m, &["T*F**F***", "*TF**F***", "**FT*F***", "**F*TF***"]))?;
    x.t(6);
    for a in -1..=2 { for b in -1..=2 {
        let (a, b): (i32, i32) = (a, b);
        let real = a >= 0 && b >= 0;
        let touch = real && !(a == 0 && b == 0) && fits(m, &["FT*******", "F**T*****", "F***T****"]);
        let cross = real && if a == 1 && b == 1 { fits(m, &["0********"]) } else if a < b { fits(m, &["T*T******"]) } else if a > b { fits(m, &["T*****T**"]) } else { false };
        let over = real && a == b && if a == 1 { fits(m, &["1*T***T**"]) } else { fits(m, &["T*T***T**"]) };
        let eq = a == b && fits(m, &["T*F**FFF*"]);
        let g = [im.is_touches(a, b), im.is_crosses(a, b), im.is_overlaps(a, b), im.is_equals(a, b)];
        x.t(4);
        ensure!(g == [touch, cross, over, eq], "[touches, crosses, overlaps, equals] of {} for dimensions {} {} = {:?} not {:?}", text(m), a, b, g, [touch, cross, over, eq]);
    } }
    let mut t = mk(m, how + 1);
    t.transpose();
    ensure!(holds(&t, &tr(m)), "transpose of {} = {:?}", text(m), dump(&t));
    ensure!(t.is_within() == im.is_contains() && t.is_contains() == im.is_within() && t.is_covers() == im.is_covered_by() && t.is_disjoint() == im.is_disjoint(), "transpose of {} does not swap the operands", text(m));
    t.transpose();
    ensure!(t.equals(&im) && im.equals(&t), "transposing {} twice = {:?}", text(m), dump(&t));
    ensure!(im.to_string() == text(m), "text of {} = {}", text(m), im.to_string());
    x.t(9);
    Ok(())
}

#[derive(Clone, Debug)]
enum Op { Set(usize, i32), Min(usize, i32), MinV(usize, i32), Text(&'static str), MinText(&'static str), All(i32), Add(&'static str), Transpose, Copy }
fn val(c: char) -> i32 { match c.to_ascii_uppercase() { 'F' => -1, 'T' => -2, '*' => -3, '0' => 0, '1' => 1, _ => 2 } }
fn step(x: &mut IntersectionMatrix, m: &mut M, o: &Op) {
    match o {
        Op::Set(c, v) => { x.set_row_column_value(c / 3, c % 3, *v); m[*c] = *v; }
        Op::Min(c, v) => { x.set_at_least_row_column_dimension(c / 3, c % 3, *v); m[*c] = m[*c].max(*v); }
        Op::MinV(c, v) => { x.set_at_least_row_column_dimension_if_valid(c / 3, c % 3, *v); m[*c] = m[*c].max(*v); }
        Op::Text(s) => { x.set_string(s.to_string()); for (k, c) in s.chars().enumerate() { m[k] = val(c); } }
        Op::MinText(s) => { x.set_at_least_string(s.to_string()); for (k, c) in s.chars().enumerate() { m[k] = m[k].max(val(c)); } }
        Op::All(v) => { x.set_all(*v); *m = [*v; 9]; }
        Op::Add(s) => { x.add(&IntersectionMatrix::new_with_elements(s.to_string())); for (k, c) in s.chars().enumerate() { m[k] = m[k].max(val(c)); } }
        Op::Transpose => { x.transpose(); *m = tr(m); }
        Op::Copy => { let y = IntersectionMatrix::new_from_intersection_matrix(x); x.set_all(1); *x = y; }
    }
}

fn main() {
    let mut k = Check::new("P11");
    // every matrix over {F,0,1,2} (and T) against every pair of dimensions
    let vals: &[i32] = &[F, 0, 1, 2, -2];
    let n = k.q(5usize, 5);
    k.family("all matrices, all operand dimensions", pow(n, 9), |i, x| {
        let mut d = Dec(i);
        let m: M = [0; 9].map(|_| *d.of(&vals[..n]));
        x.note(|| text(&m));
        predicates(&m, x, i as usize)
    });
    // per-cell pattern matching
    let syms = ['T', 'F', '*', '0', '1', '2', 'x', ' '];
    k.family("cell against symbol", 6 * 8, |i, x| {
        let mut d = Dec(i);
        let v = d.take(6) as i32 - 3;
        let s = *d.of(&syms);
        let g = IntersectionMatrix::matches_i32_char(v, s);
        x.t(2);
        x.out(if g { "match" } else { "no match" });
        x.note(|| format!("{} {}", v, s));
        // a cell holding T or * itself is only asked about the symbols that decide it
        let w = cell(v, s as u8);
        ensure!(g == w, "value {} against symbol {:?} = {}", v, s, g);
        ensure!(IntersectionMatrix::default().is_true(v) == (v >= 0 || v == -2), "is_true({}) = {}", v, IntersectionMatrix::default().is_true(v));
        Ok(())
    });
    // all patterns
    let ps = ['T', 'F', '*', '0', '1', '2'];
    let mats: Vec<M> = vec![[F; 9], [0; 9], [1; 9], [2; 9], [2, 1, 2, 1, 0, 1, 2, 1, 2], [F, 0, 1, 2, F, 0, 1, 2, F], [-2, F, 2, F, 1, F, 0, F, -2], [F, F, 0, F, F, 1, 2, 1, 2]];
    let np = k.q(7usize, 9);
    k.family("all patterns", pow(6, np) * 8, |i, x| {
        let mut d = Dec(i);
        let m = *d.of(&mats);
        let mut p: Vec<char> = (0..np).map(|_| *d.of(&ps)).collect();
        // quick tier: the two remaining cells follow the matrix; their position rotates
        while p.len() < 9 { let at = (i as usize / 8 + p.len() * 3) % (p.len() + 1); p.insert(at, if i % 3 == 0 { '*' } else { 'T' }); }
        let p: String = p.into_iter().collect();
        let w = fits(&m, &[&p]);
        x.t(2);
        x.out(if w { "match" } else { "no match" });
        x.note(|| format!("{} against {}: {}", text(&m), p, w));
        ensure!(mk(&m, 0).matches_string(p.clone()) == w, "{} against {} is not {}", text(&m), p, w);
        ensure!(IntersectionMatrix::matches_string_string(text(&m), p.clone()) == w, "text {} against {} is not {}", text(&m), p, w);
        Ok(())
    });
    // patterns that differ from a matrix's own text in up to two cells, for every matrix over {F,0,2}
    k.family("patterns near a matrix's own text", pow(3, 9) * 36 * 36, |i, x| {
        let mut d = Dec(i);
        let m: M = [0; 9].map(|_| *d.of(&[F, 0, 2]));
        let mut p: Vec<char> = text(&m).chars().collect();
        let (a, b) = (d.take(36), d.take(36));
        p[a / 4] = ps[a % 4];
        p[b / 4] = ps[2 + b % 4];
        let p: String = p.into_iter().collect();
        let w = fits(&m, &[&p]);
        x.t(1);
        x.out(if w { "match" } else { "no match" });
        x.note(|| format!("{} against {}: {}", text(&m), p, w));
        ensure!(mk(&m, 0).matches_string(p.clone()) == w, "{} against {} is not {}", text(&m), p, w);
        Ok(())
    });
    k.family("patterns of the wrong length", 9 * 2, |i, x| {
        let l = [0, 1, 3, 6, 7, 8, 10, 12, 18][i as usize / 2];
        let p: String = std::iter::repeat(if i % 2 == 0 { '*' } else { 'T' }).take(l).collect();
        x.t(1);
        x.out("no match");
        x.note(|| p.clone());
        ensure!(!mk(&[2; 9], 0).matches_string(p.clone()), "pattern {:?} matches", p);
        Ok(())
    });
    // update histories
    let mut ops = vec![];
    for c in 0..9 { ops.push(Op::Set(c, (c % 4) as i32 - 1)); ops.push(Op::Min(c, (c as i32 + 1) % 3)); ops.push(Op::MinV(c, 2 - (c as i32) % 3)); }
    ops.extend([Op::Text("012F012F0"), Op::Text("t*f"), Op::Text("212101"), Op::MinText("F0101F2F0"), Op::MinText("1*2"), Op::MinText("000000000"), Op::All(-1), Op::All(1), Op::All(-3), Op::Add("F1F0F2F1F"), Op::Add("2FFFTFFF2"), Op::Add("*********"), Op::Transpose, Op::Copy]);
    let l = k.q(3usize, 4);
    k.family("update histories", pow(ops.len(), l) * 3, |i, x| {
        let mut d = Dec(i);
        let mut m: M = *d.of(&[[F; 9], [2, 1, 0, F, 1, 2, 0, F, 1], [-3; 9]]);
        let mut im = mk(&m, (i % 2) as usize);
        let h: Vec<&Op> = (0..l).map(|_| d.of(&ops)).collect();
        x.note(|| format!("{:?}", h));
        for o in &h {
            step(&mut im, &mut m, o);
            x.t(1);
            ensure!(holds(&im, &m), "history {:?}: {:?} not {:?}", h, dump(&im), m);
        }
        x.out("updated");
        let other = IntersectionMatrix::new_with_elements(text(&m));
        ensure!(im.equals(&other) && other.equals(&im), "history {:?}: {} is not equal to its own text", h, text(&m));
        for c in 0..9 { let mut n = m; n[c] = if m[c] == 2 { 1 } else { 2 }; let o = mk(&n, 0); ensure!(!im.equals(&o) && !o.equals(&im), "{} equals {}", text(&m), text(&n)); }
        ensure!(im.to_string() == text(&m), "history {:?}: text {} not {}", h, im.to_string(), text(&m));
        x.t(12);
        Ok(())
    });
    k.family("symbols, locations and positions", 16, |i, x| {
        let v = i as i32 - 6;
        x.t(3);
        x.out("symbol");
        x.note(|| format!("{}", v));
        let w = match v { -3 => Some('*'), -2 => Some('T'), -1 => Some('F'), 0 => Some('0'), 1 => Some('1'), 2 => Some('2'), _ => None };
        ensure!(Dimension::to_dimension_symbol(v) == w, "dimension symbol of {} = {:?}", v, Dimension::to_dimension_symbol(v));
        if let Some(c) = w { ensure!(Dimension::to_dimension_value(c) == Some(v) && Dimension::to_dimension_value(c.to_ascii_lowercase()) == Some(v), "dimension value of {:?} = {:?}", c, Dimension::to_dimension_value(c)); }
        for c in ['x', '3', '9', ' ', '-'] { ensure!(Dimension::to_dimension_value(c).is_none(), "dimension value of {:?}", c); }
        let w = match v { -1 => Some('-'), 0 => Some('i'), 1 => Some('b'), 2 => Some('e'), _ => None };
        ensure!(Location::to_location_symbol(v) == w, "location symbol of {} = {:?}", v, Location::to_location_symbol(v));
        let w = match v { 1 => 2, 2 => 1, v => v };
        ensure!(Position::opposite(v) == w, "opposite of {} = {}", v, Position::opposite(v));
        Ok(())
    });
    k.finish()
}
