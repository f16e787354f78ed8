//! Reference models of the verdicts, written from the properties (C01 & C02) -- independently of the code under test

use big_o_test::BigOAlgorithmComplexity as C;

pub const TOL: f64 = 0.10;

pub const ALL: [C; 17] = [
    C::BetterThanO1, C::O1, C::BetweenO1AndOLogN, C::OLogN, C::BetweenOLogNAndON, C::ON, C::BetweenONAndONLogN, C::ONLogN,
    C::BetweenONLogNAndON2, C::ON2, C::BetweenON2AndON3, C::ON3, C::BetweenON3AndON4, C::ON4, C::BetweenON4AndOkN, C::OkN, C::WorseThanExponential,
];

pub fn rank(c: C) -> usize { ALL.iter().position(|x| *x == c).unwrap() }

/// growth (of `u2/u1`) predicted by the classes O(1) .. O(n^4)
pub fn predicted_growths(n1: f64, n2: f64) -> [f64; 7] {
    let l = n2.ln() / n1.ln();
    let r = n2 / n1;
    [1.0, l, r, r * l, r * r, r * r * r, r * r * r * r]
}

/// the verdict for regular & constant set algorithms, as an index into [ALL] -- `None` if too close to the edge of a band to tell
pub fn growth_verdict(u1: f64, u2: f64, n1: f64, n2: f64, tol: f64) -> Option<usize> {
    const EDGE: f64 = 1e-9;
    if u1 == 0.0 && u2 == 0.0 { return Some(1); }
    if u1 == 0.0 { return Some(16); }
    if u2 == 0.0 { return Some(0); }
    let r = u2 / u1;
    for (i, g) in predicted_growths(n1, n2).into_iter().enumerate() {
        let (lo, hi) = (g * (1.0 - tol), g * (1.0 + tol));
        if near(r, lo, EDGE) || near(r, hi, EDGE) { return None; }
        if r <= hi { return Some(if r >= lo { 2 * i + 1 } else { 2 * i }); }
    }
    // O(k^n): compared in the logarithmic domain
    let predicted = (n2 / n1) * u1.ln();
    if predicted.abs() > 690.0 { 
        // far out of the floating point range -- decidable only if by a wide margin
        if predicted < -760.0 { return Some(16); }
        if predicted > 720.0 { return Some(14); }
        return None;
    }
    let d = u2.ln() - predicted;
    let (lo, hi) = ((1.0 - tol).ln(), (1.0 + tol).ln());
    if (d - lo).abs() < EDGE || (d - hi).abs() < EDGE { return None; }
    Some(if d < lo { 14 } else if d <= hi { 15 } else { 16 })
}

/// the verdict for set resizing algorithms, as an index into [ALL] -- `None` if too close to the edge of a band to tell
pub fn resizing_verdict(u1: f64, u2: f64, n: f64, tol: f64) -> Option<usize> {
    const EDGE: f64 = 1e-9;
    if u1 == 0.0 && u2 == 0.0 { return Some(1); }
    if u1 == 0.0 { return Some(6); }
    if u2 == 0.0 { return Some(0); }
    let r = u2 / u1;
    let g = (3.0 * n).ln() / n.ln();
    // edges which may matter
    for e in [1.0 / (1.0 + tol), 1.0 - tol, 1.0 + tol, g, g * (1.0 + tol), g * (1.0 - tol), 3.0 * (1.0 - tol), 3.0 * (1.0 + tol)] {
        if near(r, e, EDGE) { return None; }
    }
    Some(
        if u1 > u2 * (1.0 + tol)                     { 0 }
        else if (r - 1.0).abs() <= tol               { 1 }
        else if r < g                                { 2 }
        else if r < g * (1.0 + tol)                  { 3 }
        else if (r / 3.0 - 1.0).abs() <= tol         { 5 }
        else if r > 3.0                              { 6 }
        else                                         { 4 }
    )
}

/// true if `r` is within a relative distance of `eps` from `edge`
pub fn near(r: f64, edge: f64, eps: f64) -> bool { (r - edge).abs() <= eps * edge.abs() }

/// how far (relatively) the observed growth is from the closest edge of the bands O(1) .. O(n^4), O(k^n)
pub fn growth_margin(u1: f64, u2: f64, n1: f64, n2: f64, tol: f64) -> f64 {
    if u1 == 0.0 || u2 == 0.0 { return if u1 == u2 { 1.0 } else { 0.5 }; }
    let r = u2 / u1;
    let mut m = f64::MAX;
    for g in predicted_growths(n1, n2) {
        for e in [g * (1.0 - tol), g * (1.0 + tol)] { m = m.min((r / e - 1.0).abs()); }
    }
    let predicted = (n2 / n1) * u1.ln();
    let d = u2.ln() - predicted;
    for e in [(1.0 - tol).ln(), (1.0 + tol).ln()] { m = m.min((d - e).abs()); }
    m
}
pub fn resizing_margin(u1: f64, u2: f64, n: f64, tol: f64) -> f64 {
    if u1 == 0.0 || u2 == 0.0 { return if u1 == u2 { 1.0 } else { 0.5 }; }
    let r = u2 / u1;
    let g = (3.0 * n).ln() / n.ln();
    let mut m = f64::MAX;
    for e in [1.0 / (1.0 + tol), 1.0 - tol, 1.0 + tol, g, g * (1.0 + tol), 3.0 * (1.0 - tol), 3.0 * (1.0 + tol)] { m = m.min((r / e - 1.0).abs()); }
    m
}
