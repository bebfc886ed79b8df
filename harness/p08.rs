use super::*;
use stratum_dsp::features::onset::{spectral_flux::*, hfc::*, hpss::detect_hpss_onsets};
/*@{"assumptions": ["non-negative magnitudes", "exact-value harnesses use magnitudes on the grid k/4 so that flux values are exact", "spectral flux: every frame has maximum magnitude 1 in a reference bin (normalisation is then the identity), plus a scaling harness"]}@*/

/// reference peak picking of a flux curve with the percentile threshold
fn picks(fl: &[f32], p: f32) -> Vec<bool> {
    let l = fl.len();
    let idx = ((l as f32 * p) as usize).min(l - 1);
    // order statistic of rank idx
    let mut thr = fl[0];
    for &c in fl {
        let (mut lt, mut le) = (0, 0);
        for &x in fl { lt += (x < c) as usize; le += (x <= c) as usize; }
        thr = if (lt <= idx) & (idx < le) { c } else { thr };
    }
    (0..l).map(|i| {
        let left = i == 0 || fl[i] > fl[i - 1];
        let right = i + 1 == l || fl[i] >= fl[i + 1];
        (l > 1) & (fl[i] > thr) & left & right
    }).collect()
}
fn compare(r: &[usize], fl: &[f32], p: f32, nf: usize) {
    for i in 0..r.len() { check((r[i] >= 1) & (r[i] < nf) & ((i == 0) || (r[i] > r[i - 1])), 1); }
    let w = picks(fl, p);
    for i in 0..w.len() {
        let mut got = false;
        for &o in r { got |= o == i + 1; }
        check(got == w[i], 2);
    }
    obs(r.len() as u32);
}
const PCT: [f32; 4] = [0.0, 0.5, 0.8, 1.0];

fn detect(which: usize, s: &[Vec<f32>], p: f32) -> Result<Vec<usize>, stratum_dsp::AnalysisError> {
    match which { 0 => detect_spectral_flux_onsets(s, p), 1 => detect_hfc_onsets(s, 44100, p), _ => detect_hpss_onsets(s, p) }
}
/// flux on exact data (which = 1 or 2)
fn flux(which: usize, s: &[Vec<f32>]) -> Vec<f32> {
    let e: Vec<f32> = s.iter().map(|f| { let mut a = 0.0f32; for (k, &m) in f.iter().enumerate() { a += m * m * if which == 1 { k as f32 } else { 1.0 }; } a }).collect();
    (1..e.len()).map(|i| { let d = e[i] - e[i - 1]; if d > 0.0 { d } else { 0.0 } }).collect()
}

harnesses! {
    //@ "ids": [1, 2], "split": [2, 4], "w": 4, "bounds": "HFC and percussive-energy onsets: 2..5 (thorough 6) frames of one active bin (of 2) with symbolic grid magnitude, percentile 0/0.5/0.8/1: onsets are exactly the local maxima of the rise above the percentile"
    fn h_p08_energy() {
        let which = 1 + choose(2);
        let p = PCT[choose(4)];
        let nf = choose_in(2, tier(5, 6));
        let s: Vec<Vec<f32>> = (0..nf).map(|_| vec![0.25, dy(0, 16, 2)]).collect();
        match detect(which, &s, p) { Ok(r) => compare(&r, &flux(which, &s), p, nf), Err(_) => check(false, 3) }
    }
    //@ "ids": [1, 2], "split": [2, 3], "w": 4, "bounds": "HFC and percussive energy: 3 frames x 3 bins all symbolic on the grid k/2 in [0,4]"
    fn h_p08_bins() {
        let which = 1 + choose(2);
        let p = PCT[choose(3)];
        let nf = 3;
        let nb = tier(2, 3);
        let s: Vec<Vec<f32>> = (0..nf).map(|_| (0..nb + 1).map(|k| if k == 0 { 0.5 } else { dy(0, 8, 1) }).collect()).collect();
        match detect(which, &s, p) { Ok(r) => compare(&r, &flux(which, &s), p, nf), Err(_) => check(false, 3) }
    }
    //@ "ids": [1, 2], "split": [4], "w": 4, "bounds": "spectral flux: 2..5 (thorough 6) frames, bin 0 fixed to 1 (frame maximum), bin 1 symbolic k/16 in [0,1], percentile 0/0.5/0.8/1"
    fn h_p08_spectral() {
        let p = PCT[choose(4)];
        let nf = choose_in(2, tier(5, 6));
        let v: Vec<f32> = (0..nf).map(|_| dy(0, 16, 4)).collect();
        let s: Vec<Vec<f32>> = v.iter().map(|&x| vec![1.0, x]).collect();
        let fl: Vec<f32> = (1..nf).map(|i| { let d = v[i] - v[i - 1]; if d > 0.0 { d } else { 0.0 } }).collect();
        match detect(0, &s, p) { Ok(r) => compare(&r, &fl, p, nf), Err(_) => check(false, 3) }
    }
    //@ "ids": [1, 2], "split": [3], "w": 3, "bounds": "spectral flux is blind to the level of a frame: 3 (thorough 4) frames, frame i scaled by 2^-s with s symbolic choice 0..3, silent frames included; same onsets"
    fn h_p08_level() {
        let p = PCT[choose(3)];
        let nf = choose_in(3, tier(3, 4));
        let q = choose(nf);
        let sc = [1.0f32, 0.25, 8.0, 0.0][choose(4)];
        let v: Vec<f32> = (0..nf).map(|_| if sc == 0.0 { conc(us(0, 2)) as f32 * 0.5 } else { dy(0, 4, 2) }).collect();
        let s: Vec<Vec<f32>> = (0..nf).map(|i| { let g = if i == q { sc } else { 1.0 }; vec![g, v[i] * g] }).collect();
        let mut fl = vec![];
        for i in 1..nf {
            let (a0, a1) = if i - 1 == q && sc == 0.0 { (0.0, 0.0) } else { (1.0, v[i - 1]) };
            let (b0, b1) = if i == q && sc == 0.0 { (0.0f32, 0.0f32) } else { (1.0, v[i]) };
            let d0 = if b0 > a0 { b0 - a0 } else { 0.0 };
            let d1 = if b1 > a1 { b1 - a1 } else { 0.0 };
            fl.push((d0 * d0 + d1 * d1).sqrt());
        }
        match detect(0, &s, p) { Ok(r) => compare(&r, &fl, p, nf), Err(_) => check(false, 3) }
    }
    //@ "ids": [1, 2], "split": [3, 2], "w": 3, "bounds": "all three detectors, 10 (thorough 24) frames of fixed data with one symbolic frame at every position"
    fn h_p08_long() {
        let which = choose(3);
        let p = PCT[1 + choose(2)];
        let nf = tier(10, 24);
        let q = choose(nf);
        let v: Vec<f32> = (0..nf).map(|i| if i == q { dy(0, 16, 4) } else { ((i * i * 7 + 3 * i) % 17) as f32 / 16.0 }).collect();
        let s: Vec<Vec<f32>> = v.iter().map(|&x| vec![1.0, x]).collect();
        let fl = if which == 0 { (1..nf).map(|i| { let d = v[i] - v[i - 1]; if d > 0.0 { d } else { 0.0 } }).collect() } else { flux(which, &s) };
        match detect(which, &s, p) { Ok(r) => compare(&r, &fl, p, nf), Err(_) => check(false, 3) }
    }
    //@ "ids": [11, 12, 13], "split": [3], "w": 2, "bounds": "validation and totality: 0..4 frames of 0..2 bins (ragged or not), one magnitude symbolic on the grid, NaN, infinite or huge, every f32 percentile: error exactly for an out-of-range percentile or (spectral, HFC) empty/ragged frames; otherwise increasing frame numbers in range"
    fn h_p08_total() {
        let which = choose(3);
        let nf = choose(tier(4, 5));
        let b = choose(3);
        let hot = choose(2);
        let sp = match choose(4) { 0 => f32::NAN, 1 => f32::INFINITY, 2 => f32::MAX, _ => dy(0, 8, 2) };
        let rag = choose(2) == 1 && nf >= 2;
        let s: Vec<Vec<f32>> = (0..nf).map(|i| (0..if rag && i == nf - 1 { b + 1 } else { b }).map(|k| if i == hot && k == 0 { sp } else { ((i * 3 + k * 2) % 5) as f32 * 0.25 }).collect()).collect();
        let p = any_f32();
        let pok = (p >= 0.0) & (p <= 1.0);
        match detect(which, &s, p) {
            Ok(r) => {
                check((nf == 0) | pok, 11);
                if which < 2 { check((nf == 0) | ((b > 0) & !rag), 12); }
                for i in 0..r.len() { check((r[i] >= 1) & (r[i] < nf) & ((i == 0) || (r[i] > r[i - 1])), 13); }
            }
            Err(_) => check((nf > 0) & (!pok | ((which < 2) & ((b == 0) | rag))), 14),
        }
    }
}
