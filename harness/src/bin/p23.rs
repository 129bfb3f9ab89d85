// P23 Linear solver
use geos_rs::verif::*;
use geosmc::{ensure, mc::*};

/// determinant by expansion (exact on integers)
fn det(m: &[Vec<i128>]) -> i128 {
    match m.len() {
        0 => 1,
        1 => m[0][0],
        2 => m[0][0] * m[1][1] - m[0][1] * m[1][0],
        n => (0..n).map(|c| {
            if m[0][c] == 0 { return 0; }
            let sub: Vec<Vec<i128>> = m[1..].iter().map(|r| (0..n).filter(|j| *j != c).map(|j| r[j]).collect()).collect();
            (if c % 2 == 0 { 1 } else { -1 }) * m[0][c] * det(&sub)
        }).sum(),
    }
}
/// integer system with rows scaled by powers of two
fn judge(a: &[Vec<i64>], b: &[i64], sc: &[f64], exact_elimination: bool, x: &mut Ctx) -> Res {
    let n = b.len();
    let mut fa: Vec<Vec<f64>> = a.iter().zip(sc).map(|(r, s)| r.iter().map(|v| *v as f64 * s).collect()).collect();
    let mut fb: Vec<f64> = b.iter().zip(sc).map(|(v, s)| *v as f64 * s).collect();
    let (a0, b0) = (fa.clone(), fb.clone());
    let ia: Vec<Vec<i128>> = a.iter().map(|r| r.iter().map(|v| *v as i128).collect()).collect();
    let dt = det(&ia);
    let g = Matrix::solve(&mut fa, &mut fb);
    x.t(1);
    x.note(|| format!("{:?} x = {:?} (row scales {:?}) determinant {} -> {:?}", a, b, sc, dt, g));
    if dt == 0 {
        if !exact_elimination { return x.skip(); }
        x.out("singular");
        ensure!(g.is_none(), "singular system {:?} = {:?} (row scales {:?}) was solved: {:?}", a, b, sc, g);
        return Ok(());
    }
    x.out("regular");
    let g = match g { Some(g) => g, None => return Err(format!("regular system {:?} = {:?} (row scales {:?}) has no solution", a, b, sc)) };
    ensure!(g.len() == n, "system {:?} of order {} has a solution of length {}", a, n, g.len());
    let nb = fb.len();
    ensure!(nb == n, "right side changed its length");
    // Cramer
    let big = a.iter().flatten().chain(b).map(|v| v.abs()).max().unwrap() as f64;
    for c in 0..n {
        let m: Vec<Vec<i128>> = (0..n).map(|r| (0..n).map(|j| if j == c { b[r] as i128 } else { ia[r][j] }).collect()).collect();
        let w = det(&m) as f64 / dt as f64;
        let spread = sc.iter().cloned().fold(0.0, f64::max) / sc.iter().cloned().fold(f64::INFINITY, f64::min);
        let tol = if spread == 1.0 { 1e-14 * (1.0 + big.powi(2 * n as i32)) } else { 1e-13 * (1.0 + big.powi(2 * n as i32)) };
        ensure!((g[c] - w).abs() <= tol, "solution of {:?} = {:?} (row scales {:?}): x{} = {} not {}", a, b, sc, c, g[c], w);
    }
    residual(&a0, &b0, &g)
}
fn residual(a: &[Vec<f64>], b: &[f64], g: &[f64]) -> Res {
    let na = a.iter().flatten().fold(0.0f64, |m, v| m.max(v.abs()));
    let nx = g.iter().fold(0.0f64, |m, v| m.max(v.abs()));
    for (r, w) in a.iter().zip(b) {
        let s: f64 = r.iter().zip(g).map(|(p, q)| p * q).sum();
        ensure!((s - w).abs() <= 1e-13 * (na * nx + w.abs()), "system {:?} = {:?}: solution {:?} leaves {:e}", a, b, g, s - w);
    }
    Ok(())
}

fn main() {
    let mut k = Check::new("P23");
    k.family("all 1x1 systems", 21 * 21, |i, x| {
        let mut d = Dec(i);
        let (a, b) = (d.take(21) as i64 - 10, d.take(21) as i64 - 10);
        judge(&[vec![a]], &[b], &[1.0], true, x)
    });
    let r = k.q(3i64, 7);
    let w = (2 * r + 1) as usize;
    k.family(&format!("all 2x2 systems over -{}..{}", r, r), pow(w, 6), |i, x| {
        let mut d = Dec(i);
        let mut v = || d.take(w) as i64 - r;
        let (a, b) = ([vec![v(), v()], vec![v(), v()]], [v(), v()]);
        let ex = a.iter().flatten().all(|v| v.abs() <= 2);
        judge(&a, &b, &[1.0; 2], ex, x)
    });
    k.family("all 3x3 systems over -1..1 with scaled rows", pow(3, 12) * 4, |i, x| {
        let mut d = Dec(i);
        let mut v = || d.take(3) as i64 - 1;
        let (a, b) = ([vec![v(), v(), v()], vec![v(), v(), v()], vec![v(), v(), v()]], [v(), v(), v()]);
        let sc = *d.of(&[[1.0, 1.0, 1.0], [1.0, 4.0, 0.5], [1024.0, 1.0, 9.5367431640625e-7], [0.25, 8.0, 8.0]]);
        judge(&a, &b, &sc, true, x)
    });
    let vals = k.q(vec![-2i64, 0, 1, 3], vec![-2, -1, 0, 1, 2, 3]);
    k.family("all 3x3 systems over a wider alphabet", pow(vals.len(), 9) * 3, |i, x| {
        let mut d = Dec(i);
        let mut v = || *d.of(&vals);
        let a = [vec![v(), v(), v()], vec![v(), v(), v()], vec![v(), v(), v()]];
        let b = *d.of(&[[1, 0, 0], [1, -2, 3], [7, 5, -4]]);
        // rows that repeat, cancel or vanish are eliminated exactly
        judge(&a, &b, &[1.0; 3], false, x)
    });
    k.family("all 4x4 systems over 0..1", pow(2, 16) * k.q(4, 16), |i, x| {
        let mut d = Dec(i);
        let a: Vec<Vec<i64>> = (0..4).map(|_| (0..4).map(|_| d.take(2) as i64).collect()).collect();
        let q = d.take(16);
        let b: Vec<i64> = (0..4).map(|j| [1i64, -3][(q >> j) & 1] * (j as i64 + 1)).collect();
        judge(&a, &b, &[1.0; 4], true, x)
    });
    if k.thorough {
        k.family("all 4x4 systems over -1..1", pow(3, 16), |i, x| {
            let mut d = Dec(i);
            let a: Vec<Vec<i64>> = (0..4).map(|_| (0..4).map(|_| d.take(3) as i64 - 1).collect()).collect();
            judge(&a, &[1, -2, 3, 5], &[1.0; 4], false, x)
        });
    }
    // permutation matrices with one extra entry, every row order, up to order 6
    let n = k.q(6usize, 7);
    for n in 2..=n {
        k.family(&format!("permuted triangular systems of order {}", n), fact(n) * 2 * (n * n) as u64, |i, x| {
            let mut d = Dec(i);
            let p = perm(&mut d, n);
            let up = d.bit();
            let (z, y) = (d.take(n), d.take(n));
            let a: Vec<Vec<i64>> = p.iter().map(|r| (0..n).map(|c| if *r == c { 2 } else if (up && c > *r) || (!up && c < *r) { ((r * 3 + c * 5) % 3) as i64 - 1 } else { 0 }).collect()).collect();
            let mut a = a;
            a[z][y] = 0; // may make it singular
            let b: Vec<i64> = (0..n).map(|j| (j as i64 * 7) % 5 - 2).collect();
            let ia: Vec<Vec<i128>> = a.iter().map(|r| r.iter().map(|v| *v as i128).collect()).collect();
            let dt = det(&ia);
            x.t(1);
            let (mut fa, mut fb): (Vec<Vec<f64>>, Vec<f64>) = (a.iter().map(|r| r.iter().map(|v| *v as f64).collect()).collect(), b.iter().map(|v| *v as f64).collect());
            let (a0, b0) = (fa.clone(), fb.clone());
            let g = Matrix::solve(&mut fa, &mut fb);
            x.note(|| format!("{:?} = {:?}", a, b));
            if dt == 0 { return x.skip(); }
            x.out("regular");
            match g { None => Err(format!("regular system {:?} = {:?} has no solution", a, b)), Some(g) => { ensure!(g.len() == n, "solution length"); residual(&a0, &b0, &g) } }
        });
    }
    // larger systems with a known integer solution: dominant diagonal, then every single row exchange and rotation
    let top = k.q(14usize, 32);
    k.family("larger systems", (2..=top).map(|n| (n * n * n * 5) as u64).sum(), |i, x| {
        let (mut i, mut n) = (i, 2usize);
        while i >= (n * n * n * 5) as u64 { i -= (n * n * n * 5) as u64; n += 1; }
        let mut d = Dec(i);
        let (u, v, rot, kind) = (d.take(n), d.take(n), d.take(n), d.take(5));
        let mut a: Vec<Vec<f64>> = (0..n).map(|r| (0..n).map(|c| if r == c { 4.0 * n as f64 } else { ((r * 7 + c * 13 + r * c) % 5) as f64 - 2.0 }).collect()).collect();
        let w: Vec<f64> = (0..n).map(|r| ((r * 5) % 7) as f64 - 3.0).collect();
        match kind { 1 => for c in 0..n { if c != u { a[u][c] = 0.0; } }, 2 => for r in 0..n { if r != u { a[r][v] *= 0.25; } }, 3 => a[u][u] = -a[u][u], 4 => { a[u].iter_mut().for_each(|c| *c *= 1048576.0); a[v].iter_mut().for_each(|c| *c *= 9.5367431640625e-7); } _ => {} }
        let mut b: Vec<f64> = a.iter().map(|r| r.iter().zip(&w).map(|(p, q)| p * q).sum()).collect();
        a.swap(u, v); b.swap(u, v);
        a.rotate_left(rot); b.rotate_left(rot);
        let (a0, b0) = (a.clone(), b.clone());
        let g = Matrix::solve(&mut a, &mut b);
        x.t(1);
        x.out("larger system");
        x.note(|| format!("order {} exchange {} {} rotation {} kind {}", n, u, v, rot, kind));
        let g = match g { Some(g) => g, None => return Err(format!("regular system {:?} = {:?} has no solution", a0, b0)) };
        ensure!(g.len() == n, "system of order {} has a solution of length {}", n, g.len());
        // rows of very different size: elimination is stable in the whole system, not in each row
        let tol = if kind == 4 { 1e-6 } else { 1e-12 };
        for c in 0..n { ensure!((g[c] - w[c]).abs() <= tol, "system {:?} = {:?}: x{} = {} not {}", a0, b0, c, g[c], w[c]); }
        residual(&a0, &b0, &g)
    });
    // orders beyond what a byte counts
    let orders = k.q(vec![64usize, 127, 129, 200, 257, 300], vec![64, 127, 128, 129, 200, 255, 256, 257, 300, 400, 513]);
    k.family("huge systems", orders.len() as u64 * 6 * 3 * 4, |i, x| {
        let mut d = Dec(i);
        let n = *d.of(&orders);
        let (u, v) = [(0, n - 1), (n / 2, n - 2), (0, n / 3), (n - 1, 1), (n.min(256) - 1, 0), (2, 2)][d.take(6)];
        let rot = [0, 1, n - 1][d.take(3)];
        // full, diagonal, upper and lower triangular: in the latter rows arrive where only one pivot is left
        let kind = d.take(4);
        let mut a: Vec<Vec<f64>> = (0..n).map(|r| (0..n).map(|c| if r == c { 4.0 * n as f64 } else if kind == 1 || (kind == 2 && r > c) || (kind == 3 && c > r) { 0.0 } else { ((r * 7 + c * 13 + r * c) % 5) as f64 - 2.0 }).collect()).collect();
        let w: Vec<f64> = (0..n).map(|r| ((r * 5) % 7) as f64 - 3.0).collect();
        let mut b: Vec<f64> = a.iter().map(|r| r.iter().zip(&w).map(|(p, q)| p * q).sum()).collect();
        a.swap(u, v); b.swap(u, v);
        a.rotate_left(rot); b.rotate_left(rot);
        let g = Matrix::solve(&mut a, &mut b);
        x.t(1);
        x.out("huge system");
        x.note(|| format!("order {} kind {} exchange {} {} rotation {}", n, kind, u, v, rot));
        let g = match g { Some(g) => g, None => return Err(format!("regular system of order {} (rows {} and {} exchanged, rotated by {}) has no solution", n, u, v, rot)) };
        ensure!(g.len() == n, "system of order {} has a solution of length {}", n, g.len());
        for c in 0..n { ensure!((g[c] - w[c]).abs() <= 1e-11, "system of order {} (rows {} and {} exchanged, rotated by {}): x{} = {} not {}", n, u, v, rot, c, g[c], w[c]); }
        Ok(())
    });
    // singular by a repeated or vanishing row or column, in every place
    let top = k.q(9usize, 14);
    k.family("larger singular systems", (2..=top).map(|n| (n * n * n * 3) as u64).sum(), |i, x| {
        let (mut i, mut n) = (i, 2usize);
        while i >= (n * n * n * 3) as u64 { i -= (n * n * n * 3) as u64; n += 1; }
        let mut d = Dec(i);
        let (u, v, rot, kind) = (d.take(n), d.take(n), d.take(n), d.take(3));
        // unit triangular: elimination stays exact
        let mut a: Vec<Vec<f64>> = (0..n).map(|r| (0..n).map(|c| if r == c { 1.0 } else if c > r { ((r + 2 * c) % 3) as f64 - 1.0 } else { 0.0 }).collect()).collect();
        if kind == 0 && u == v { return x.skip(); }
        match kind { 0 => { let r = a[u].clone(); a[v] = r; } 1 => a[u].iter_mut().for_each(|c| *c = 0.0), _ => a.iter_mut().for_each(|r| r[u] = 0.0) }
        a.rotate_left(rot);
        let mut b: Vec<f64> = (0..n).map(|r| (r % 4) as f64 + v as f64).collect();
        let a0 = a.clone();
        let g = Matrix::solve(&mut a, &mut b);
        x.t(1);
        x.out("singular");
        x.note(|| format!("order {} rows {} {} rotation {} kind {}", n, u, v, rot, kind));
        ensure!(g.is_none(), "singular system {:?} was solved: {:?}", a0, g);
        Ok(())
    });
    // the whole system at every scale, and the right side at another
    let sc: Vec<i32> = (-400..=400).step_by(k.q(16, 4)).collect();
    k.family("2x2 systems at every scale", pow(5, 4) * (sc.len() * 3) as u64, |i, x| {
        let mut d = Dec(i);
        let v: Vec<f64> = (0..4).map(|_| d.take(5) as f64 - 2.0).collect();
        let s = 2f64.powi(*d.of(&sc));
        let t = [s, 1.0, 1.0 / s][d.take(3)];
        let dt = v[0] * v[3] - v[1] * v[2];
        let mut a = vec![vec![v[0] * s, v[1] * s], vec![v[2] * s, v[3] * s]];
        let mut b = vec![3.0 * t, -5.0 * t];
        let g = Matrix::solve(&mut a, &mut b);
        x.t(1);
        x.out(if dt == 0.0 { "singular" } else { "regular" });
        x.note(|| format!("{:?} times {:e}, right side times {:e}", v, s, t));
        match (g, dt == 0.0) {
            (None, true) => Ok(()),
            (Some(g), true) => Err(format!("singular system {:?} times {:e} was solved: {:?}", v, s, g)),
            (None, false) => Err(format!("regular system {:?} times {:e} has no solution", v, s)),
            (Some(g), false) => {
                let w = [(3.0 * v[3] + 5.0 * v[1]) / dt * (t / s), (-5.0 * v[0] - 3.0 * v[2]) / dt * (t / s)];
                let tol = 1e-14 * (t / s) * 20.0;
                ensure!(g.len() == 2 && (g[0] - w[0]).abs() <= tol && (g[1] - w[1]).abs() <= tol, "system {:?} times {:e}, right side times {:e}: {:?} not {:?}", v, s, t, g, w);
                Ok(())
            }
        }
    });
    // tiny pivots: without row exchange the answer is garbage
    let al = [0.0, 1.0, -1.0, 8.673617379884035e-19, 3.0, 1e-12];
    k.family("2x2 and 3x3 systems with tiny entries", pow(al.len(), 4) * 16 * 2, |i, x| {
        let mut d = Dec(i);
        let v: Vec<f64> = (0..4).map(|_| *d.of(&al)).collect();
        let b = [*d.of(&[1.0, 2.0, -5.0, 1e-12]), *d.of(&[1.0, 0.0, 3.0, 7.0])];
        let three = d.bit();
        let dt = v[0] * v[3] - v[1] * v[2];
        let nm = v.iter().fold(0.0f64, |m, v| m.max(v.abs()));
        if dt.abs() < 0.1 * nm * nm || nm < 0.5 { return x.skip(); }
        let (mut a, mut c) = if three { (vec![vec![v[0], v[1], 0.0], vec![0.0, 0.0, 1.0], vec![v[2], v[3], 1e-12]], vec![b[0], 4.0, b[1]]) } else { (vec![vec![v[0], v[1]], vec![v[2], v[3]]], b.to_vec()) };
        let (a0, c0) = (a.clone(), c.clone());
        let g = Matrix::solve(&mut a, &mut c);
        x.t(1);
        x.out("tiny pivot");
        x.note(|| format!("{:?} = {:?}", a0, c0));
        match g { None => Err(format!("regular system {:?} = {:?} has no solution", a0, c0)), Some(g) => residual(&a0, &c0, &g) }
    });
    // shapes that are no systems
    k.family("shapes", 6 * 6 * 6, |i, x| {
        let mut d = Dec(i);
        let (r, c, n) = (d.take(6), d.take(6), d.take(6));
        if r == 0 || n == 0 { return x.skip(); }
        let mut a: Vec<Vec<f64>> = (0..r).map(|p| (0..c).map(|q| if p == q { 2.0 } else { 0.0 }).collect()).collect();
        let mut b: Vec<f64> = (0..n).map(|p| 4.0 * p as f64).collect();
        let g = Matrix::solve(&mut a, &mut b);
        x.t(1);
        x.out(if r == n && c == n { "square" } else { "not a square system" });
        x.note(|| format!("{}x{} with {} right sides", r, c, n));
        if r == n && c == n { ensure!(g == Some((0..n).map(|p| 2.0 * p as f64).collect()), "diagonal system of order {} -> {:?}", n, g); }
        else { ensure!(g.is_none(), "{}x{} with {} right sides -> {:?}", r, c, n, g); }
        Ok(())
    });
    k.family("row swaps", 5 * 4 * 5 * 5, |i, x| {
        let mut d = Dec(i);
        let (r, c) = (1 + d.take(5), 1 + d.take(4));
        let (p, q) = (d.take(5), d.take(5));
        if p >= r || q >= r { return x.skip(); }
        let mut a: Vec<Vec<f64>> = (0..r).map(|u| (0..c).map(|v| (10 * u + v) as f64).collect()).collect();
        let mut b: Vec<f64> = (0..r).map(|u| u as f64).collect();
        let (mut wa, mut wb) = (a.clone(), b.clone());
        wa.swap(p, q);
        wb.swap(p, q);
        Matrix::swap_rows_2d(&mut a, p, q);
        Matrix::swap_rows_1d(&mut b, p, q);
        x.t(2);
        x.out("row swap");
        x.note(|| format!("{}x{} rows {} {}", r, c, p, q));
        ensure!(a == wa && b == wb, "swapping rows {} {} of {}x{} gives {:?} {:?}", p, q, r, c, a, b);
        Ok(())
    });
    k.finish()
}
