use super::*;
use stratum_dsp::features::period::novelty::*;
/*@{"assumptions": ["magnitudes non-negative, on dyadic grids for exact comparison", "log-compressed curves (superflux, mel superflux): every cell value taken from a grid and fixed by the executor path by path"]}@*/

const NF: usize = 7;
/// 0 spectral, 1 superflux, 2 superflux band, 3 energy, 4 energy band, 5 hfc, 6 hfc band, 7 mel superflux
fn curve(which: usize, s: &[Vec<f32>], k: usize, a: usize, b: usize) -> Result<Vec<f32>, stratum_dsp::AnalysisError> {
    match which {
        0 => spectral_flux_novelty(s),
        1 => superflux_novelty(s, k),
        2 => superflux_novelty_band(s, k, a, b),
        3 => energy_flux_novelty(s),
        4 => energy_flux_novelty_band(s, a, b),
        5 => hfc_novelty(s, 44100),
        6 => hfc_novelty_band(s, a, b),
        _ => mel_superflux_novelty(s, 44100, 4, 20.0, 20000.0, k),
    }
}
fn pos(x: f32) -> f32 { if x > 0.0 { x } else { 0.0 } }
/// reference rises before normalisation (not mel)
fn rises(which: usize, s: &[Vec<f32>], k: usize, a: usize, b: usize) -> Vec<f32> {
    let nb = s[0].len();
    let (lo, hi) = if which % 2 == 0 && which > 0 { (a.min(nb), b.min(nb)) } else { (0, nb) };
    (1..s.len()).map(|i| match which {
        0 => {
            let n = |f: &[f32]| { let m = f.iter().fold(0.0f32, |x, &y| x.max(y)); f.iter().map(|&x| if m > 1e-10 { x / m } else { 0.0 }).collect::<Vec<f32>>() };
            let (p, c) = (n(&s[i - 1]), n(&s[i]));
            let mut t = 0.0f32;
            for j in 0..nb { let d = pos(c[j] - p[j]); t += d * d; }
            t.sqrt()
        }
        1 | 2 => {
            let kk = k.max(1);
            let mut t = 0.0f32;
            for j in lo..hi {
                let mut m = 0.0f32;
                for q in lo..hi { if q + kk >= j && q <= j + kk { m = m.max((1.0 + s[i - 1][q]).ln()); } }
                let d = pos((1.0 + s[i][j]).ln() - m);
                t += d * d;
            }
            t.sqrt()
        }
        _ => {
            let e = |f: &[f32]| { let mut t = 0.0f32; for j in lo..hi { t += f[j] * f[j] * if which >= 5 { j as f32 } else { 1.0 }; } t };
            pos(e(&s[i]) - e(&s[i - 1]))
        }
    }).collect()
}
fn compare(got: &[f32], fl: &[f32], tol: f32) {
    check(got.len() == fl.len(), 1);
    let mx = fl.iter().fold(0.0f32, |x, &y| x.max(y));
    for i in 0..fl.len().min(got.len()) {
        let w = if mx > 1e-10 { fl[i] / mx } else { fl[i] };
        check(close(got[i], w, tol), 2);
        check((got[i] >= 0.0) & (got[i] <= 1.0), 3);
    }
}

harnesses! {
    //@ "ids": [1, 2, 3], "split": [4, 2], "w": 2, "bounds": "energy and HFC curves (full and band): 4..5 frames x 3 bins, the largest rise fixed to a power of two at the start or the end, two bins of one or two frames symbolic k/8 in [0,1]"
    fn h_p12_energy() {
        let which = 3 + choose(4);
        let late = choose(2) == 1;
        let (a, b) = [(0, 3), (1, 3), (0, 2), (1, 9)][choose(4)];
        let mut s: Vec<Vec<f32>> = vec![vec![0.0; 3], vec![0.0, 4.0, 0.0]];
        let mut v: Vec<Vec<f32>> = (0..tier(2, 3)).map(|_| vec![0.5, dy(0, 8, 3), dy(0, 8, 3)]).collect();
        if late { v.push(vec![0.0; 3]); v.push(vec![0.0, 4.0, 0.0]); s = v; } else { s.append(&mut v); }
        match curve(which, &s, 1, a, b) { Ok(r) => compare(&r, &rises(which, &s, 1, a, b), 0.0), Err(_) => check(false, 4) }
    }
    //@ "ids": [1, 2, 3], "split": [3], "w": 2, "bounds": "spectral flux curve: 3..5 frames, a reference bin at the frame maximum (level 1, 0.25 or 8 per frame), one symbolic bin k/16"
    fn h_p12_spectral() {
        let sc = [1.0f32, 0.25, 8.0][choose(3)];
        let nf = choose_in(3, tier(4, 6));
        let q = choose(nf);
        let mut v: Vec<f32> = (0..nf - 2).map(|_| dy(0, 16, 4)).collect();
        v.push(0.0);
        v.push(1.0);
        let s: Vec<Vec<f32>> = (0..nf).map(|i| { let g = if i == q { sc } else { 1.0 }; vec![g, v[i] * g] }).collect();
        match curve(0, &s, 1, 0, 0) {
            Ok(r) => { let fl: Vec<f32> = (1..nf).map(|i| pos(v[i] - v[i - 1])).collect(); compare(&r, &fl, 1e-6) }
            Err(_) => check(false, 4),
        }
    }
    //@ "ids": [1, 2, 3], "split": [2, 3], "w": 2, "bounds": "superflux (full and band): 3 frames x 5 bins, four free cells with values 0..3, maximum filter 0, 1 or 2 bins, three bands"
    fn h_p12_superflux() {
        let which = 1 + choose(2);
        let k = choose(3);
        let (a, b) = if which == 1 { (0, 5) } else { [(0, 5), (1, 4), (2, 9)][choose(3)] };
        let c = choose(4);
        let f = || conc(us(0, 3)) as f32;
        let s = vec![vec![0.0, f(), 0.5, 0.0, 1.0], vec![1.0, 0.0, f(), if c == 3 { f() } else { 2.0 }, 0.0], vec![3.0, 0.5, [0.25, 4.0, 0.0, 1.0][c], f(), 0.0]];
        match curve(which, &s, k, a, b) { Ok(r) => compare(&r, &rises(which, &s, k, a, b), 1e-5), Err(_) => check(false, 4) }
    }
    //@ "ids": [11, 12, 13], "split": [8], "w": 2, "bounds": "all eight curves: 0..3 frames of 0..4 bins, ragged or not, one magnitude zero, tiny, huge or infinite-free symbolic on a grid; bands of every start/end 0..4: one value fewer than frames, all in [0,1], maximum 1 unless all zero; empty or ragged frames are errors; fewer than 2 frames or a band below 2 bins give no curve"
    fn h_p12_shape() {
        let which = choose(8);
        let nf = choose(4);
        let nb = choose(5);
        let rag = choose(2) == 1 && nf >= 2;
        let (a, b) = if which == 2 || which == 4 || which == 6 { (choose(5), choose(5)) } else { (0, 0) };
        let sp = [0.0f32, 1e-30, 1e15, 2.0][choose(4)];
        let s: Vec<Vec<f32>> = (0..nf).map(|i| (0..if rag && i == nf - 1 { nb + 1 } else { nb }).map(|k| if i == 1 && k == 1 { sp } else { ((i * 3 + k * 2) % 5) as f32 * 0.25 }).collect()).collect();
        let band = which == 2 || which == 4 || which == 6;
        match curve(which, &s, choose(3), a, b) {
            Ok(r) => {
                check((nf < 2) | ((nb > 0) & !rag), 11);
                let none = nf < 2 || (band && b.min(nb) <= a.min(nb) + 1);
                check(r.len() == if none { 0 } else { nf - 1 }, 12);
                let mut mx = 0.0f32;
                for &v in &r { check((v >= 0.0) & (v <= 1.0), 13); mx = mx.max(v); }
                check((mx == 1.0) | (mx <= 1e-10), 14);
            }
            Err(_) => check((nf >= 2) & ((nb == 0) | rag | ((which == 7) & (nb < 2))), 15),
        }
    }
    //@ "ids": [21, 22, 23], "split": [3, 3], "w": 3, "bounds": "combined curve without conditioning: 3 values per curve, first at the common maximum, others symbolic k/8; weights from 3 sets (negative ones count as zero); curves of unequal length cut to the shortest"
    fn h_p12_combine() {
        let (ws, we, wh) = [(0.5f32, 0.25f32, 0.25f32), (1.0, -3.0, 1.0), (0.0, 0.0, 2.0)][choose(3)];
        let (la, lb, lc) = [(3, 3, 3), (3, 4, 2), (5, 3, 4)][choose(3)];
        let mk = |n: usize| -> Vec<f32> { (0..n).map(|i| if i == 0 || i > 2 { 1.0 } else { dy(0, 8, 3) }).collect() };
        let (x, y, z) = (mk(la), mk(lb), mk(lc));
        let r = combined_novelty_with_params(&x, &y, &z, ws, we, wh, choose(2), choose(2));
        let n = la.min(lb).min(lc);
        check(r.len() == n, 21);
        let t = pos(ws) + pos(we) + pos(wh);
        for i in 0..n.min(r.len()) {
            check(close(r[i], (x[i] * pos(ws) + y[i] * pos(we) + z[i] * pos(wh)) / t, 1e-6), 22);
            check((r[i] >= 0.0) & (r[i] <= 1.0), 23);
        }
    }
    //@ "ids": [31, 32, 33], "split": [4, 4], "w": 3, "bounds": "conditioning: 6 values (thorough 9) with two free values (0..4)/4, local-mean windows 1, 2, 3, 16 and smoothing windows 1, 2, 5, 16: subtract the centred window mean, clip at zero, average, scale to maximum 1"
    fn h_p12_cond() {
        let lm = [1usize, 2, 3, 16][choose(4)];
        let sm = [1usize, 2, 5, 16][choose(4)];
        let n = tier(6, 9);
        let q = choose(n - 1);
        let x: Vec<f32> = (0..n).map(|i| if i == q || i == q + 1 { conc(us(0, 4)) as f32 * 0.25 } else { [0.25, 1.0, 0.0, 0.5, 0.75, 0.0, 1.0, 0.5, 0.25][i] }).collect();
        let r = combined_novelty_with_params(&x, &x, &x, 0.5, 0.3, 0.2, lm, sm);
        check(r.len() == n, 31);
        let norm = |v: Vec<f32>| -> Vec<f32> { let m = v.iter().fold(0.0f32, |a, &b| a.max(b)); if m > 1e-10 { v.iter().map(|&x| x / m).collect() } else { v } };
        let mean = |v: &[f32], w: usize, i: usize| -> f32 {
            let (mut t, mut c) = (0.0f32, 0);
            for j in 0..v.len() { if j + w / 2 >= i && j <= i + w / 2 { t += v[j]; c += 1; } }
            t / c as f32
        };
        let mut v = norm(x);
        if lm > 1 { let o = v.clone(); for i in 0..n { v[i] = pos(o[i] - mean(&o, lm, i)); } }
        if sm > 1 { let o = v.clone(); for i in 0..n { v[i] = mean(&o, sm, i); } }
        let v = norm(v);
        for i in 0..n.min(r.len()) { check(close(r[i], v[i], 1e-4), 32); check((r[i] >= 0.0) & (r[i] <= 1.0), 33); }
    }
    //@ "ids": [41], "split": [4], "bounds": "mel superflux: sample rates 1, 100, 8000, 44100, mel counts 0, 4, 40, any of 7 lower and upper frequency limits (negative, above Nyquist, NaN, infinite): no panic; zero sample rate is an error"
    fn h_p12_mel() {
        let sr = [1u32, 100, 8000, 44100][choose(4)];
        let nm = [0usize, 4, 40][choose(3)];
        let f = [-5.0f32, 0.0, 30.0, 3999.5, 30000.0, f32::NAN, f32::INFINITY];
        let (lo, hi) = (f[choose(7)], f[choose(7)]);
        let s = vec![vec![0.0f32, 0.5, 0.25, 1.0, 0.0, 0.5, 2.0, 1.0, 0.25], vec![0.5, 0.5, 1.25, 0.0, 2.0, 0.5, 1.0, 1.0, 0.75], vec![0.0; 9]];
        match mel_superflux_novelty(&s, sr, nm, lo, hi, choose(2)) {
            Ok(r) => { check(r.len() == 2, 41); for &v in &r { check((v >= 0.0) & (v <= 1.0), 42); } }
            Err(_) => check(false, 43),
        }
        check(mel_superflux_novelty(&s, 0, nm, lo, hi, 1).is_err(), 44);
    }
    //@ "ids": [51], "split": [2], "bounds": "mel superflux on a symbolic transient: 2 silent frames then one bin of 5 at a free level 1..4: the curve is zero then one when the bin is inside the mel range"
    fn h_p12_mel_step() {
        let k = choose(2);
        let b = 1 + choose(6);
        let v = conc(us(1, 4)) as f32;
        let mut s = vec![vec![0.0f32; 9]; 3];
        s[2][b] = v;
        match mel_superflux_novelty(&s, 16000, 4, 0.0, 8000.0, k) {
            Ok(r) => check((r.len() == 2) && (r[0] == 0.0) & ((r[1] == 1.0) | (r[1] == 0.0)), 51),
            Err(_) => check(false, 52),
        }
    }
}
