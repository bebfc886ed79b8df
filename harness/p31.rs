use super::*;
use stratum_dsp::features::period::tempogram_autocorr::{autocorrelation_tempogram, find_best_bpm_autocorr};
use stratum_dsp::features::period::tempogram_fft::{fft_tempogram, find_best_bpm_fft};
/*@{"assumptions": ["curves of up to 16 values on dyadic grids, tempo grids of up to 7 tempi with exactly representable steps", "the scalar code paths of the FFT library (no SIMD extensions detected)", "equal strengths may come in any order"]}@*/

fn curve(k: usize, n: usize) -> Vec<f32> { (0..n).map(|i| match k { 0 => if i % 4 == 0 { 1.0f32 } else { 0.0 }, 1 => ((i * 5) % 7) as f32 * 0.125, 2 => if i % 3 == 1 { 0.5 } else { 0.125 }, _ => 0.0 }).collect() }

harnesses! {
    //@ "ids": [1, 2, 3, 4], "split": [4, 4], "w": 4, "bounds": "autocorrelation: 9 or 13 (thorough 16) values of four curves with one value k/4 in [-2,2] and one k/2 free at table places, 8 frames per second (and 86.13), four tempo grids: one strength per tempo, the mean product of values one beat (in whole frames) apart, strongest first"
    fn h_p31_auto() {
        let k = choose(4);
        let (lo, hi, st) = [(60.0f32, 240.0f32, 60.0f32), (40.0, 100.0, 15.0), (30.0, 31.0, 0.25), (100.0, 110.0, 16.0)][choose(4)];
        let n = [9usize, tier(13, 16)][choose(2)];
        let (sr, hop) = [(8u32, 1u32), (44100, 5512)][choose(2)];
        let mut c = curve(k, n);
        let (p, q) = [(0usize, 8usize), (3, 5), (1, 2)][choose(3)];
        c[p] = dy(-8, 8, 2);
        c[q] = conc(us(0, 2)) as f32 * 0.5;
        let r = match autocorrelation_tempogram(&c, sr, hop, lo, hi, st) { Ok(r) => r, Err(_) => { check(false, 9); return } };
        let m = ((hi - lo) / st) as usize + 1;
        check(r.len() == m, 1);
        if r.len() != m { return; }
        let mut seen = vec![false; m];
        for i in 0..m {
            if i > 0 { check(r[i - 1].1 >= r[i].1, 2); }
            let j = ((r[i].0 - lo) / st).round() as usize;
            let ok = j < m && !seen[j] && close(r[i].0, lo + j as f32 * st, 1e-3);
            check(ok, 3);
            if !ok { return; }
            seen[j] = true;
            let lag = (60.0 * (sr as f32 / hop as f32) / r[i].0 + 1e-5) as usize;
            let mut s = 0.0f32;
            let mut t = 0;
            while t + lag < n { s += c[t] * c[t + lag]; t += 1; }
            let w = if t > 0 { s / t as f32 } else { 0.0 };
            check(close(r[i].1, w, 1e-4), 4);
        }
    }
    //@ "ids": [11, 12, 13, 14], "split": [4, 3], "w": 4, "bounds": "spectrum: 1, 8, 11 or 16 values of four curves with two values k/2 in [-1,1] (fixed by the executor) at table places, 8 frames per second, three tempo ranges: one entry for each frequency of the (zero-padded) spectrum in range, with its Hann-windowed power around the mean, strongest first"
    fn h_p31_fft() {
        let n = [8usize, 11, 16, 1][choose(4)];
        let (lo, hi) = [(40.0f32, 240.0f32), (60.0, 120.0), (100.0, 1000.0)][choose(3)];
        let mut c = curve(choose(4), n);
        let (p, q) = [(0usize, 7usize), (3, 5), (6, 10)][choose(3)];
        c[p % n] = conc(us(0, tier(4, 8))) as f32 * (2.0 / tier(4, 8) as f32) - 1.0;
        c[q % n] = conc(us(0, 2)) as f32 * 0.5;
        let r = match fft_tempogram(&c, 8, 1, lo, hi) { Ok(r) => r, Err(_) => { check(false, 19); return } };
        let mut size = 1;
        while size < n { size *= 2; }
        let pi = std::f64::consts::PI;
        let mut mean = 0.0f64;
        for &x in &c { mean += x as f64; }
        mean /= n as f64;
        let mut want: Vec<(f64, f64)> = Vec::new();
        for k in 0..size / 2 + 1 {
            let bpm = k as f64 * 480.0 / size as f64;
            if bpm < lo as f64 || bpm > hi as f64 { continue; }
            let (mut re, mut im) = (0.0f64, 0.0f64);
            for i in 0..n {
                let w = if n > 1 { 0.5 * (1.0 - (2.0 * pi * i as f64 / (n - 1) as f64).cos()) } else { 1.0 };
                let a = 2.0 * pi * ((k * i) % size) as f64 / size as f64;
                re += (c[i] as f64 - mean) * w * a.cos();
                im += (c[i] as f64 - mean) * w * a.sin();
            }
            want.push((bpm, re * re + im * im));
        }
        check(r.len() == want.len(), 11);
        for i in 0..r.len() {
            if i > 0 { check(r[i - 1].1 >= r[i].1, 12); }
            let mut hit = false;
            for w in want.iter_mut() { if (r[i].0 as f64 - w.0).abs() < 1e-2 { hit = true; check((r[i].1 as f64 - w.1).abs() < 1e-3, 14); w.0 = -1.0; break; } }
            check(hit, 13);
        }
    }
    //@ "ids": [21, 22, 23, 24], "bounds": "best tempo: 0..3 entries of any tempo and any strength (all f32 but NaN): the first entry, with the lead over the second relative to it as confidence in [0,1], 0.5 for a single entry and 0 for no strength"
    fn h_p31_best() {
        let n = choose(4);
        let t: Vec<(f32, f32)> = (0..n).map(|_| (not_nan(), not_nan())).collect();
        let (a, f) = (find_best_bpm_autocorr(&t), find_best_bpm_fft(&t));
        check(a.is_some() == (n > 0) && f.is_some() == (n > 0), 21);
        if let (Some(a), Some(f)) = (a, f) {
            check((a.bpm == t[0].0) & (a.strength == t[0].1) & (f.bpm == t[0].0) & (f.power == t[0].1), 22);
            if n == 1 { check((a.confidence == 0.5) & (f.confidence == 0.5), 23); return; }
            let (x, y) = (t[0].1, t[1].1);
            if x.is_infinite() || (x - y).is_infinite() { return; }
            let w = if x > 1e-10 { ((x - y).max(0.0) / x).clamp(0.0, 1.0) } else { 0.0 };
            check((a.confidence == w) & (f.confidence == w), 24);
        }
    }
    //@ "ids": [31, 32, 33], "split": [3], "bounds": "no values, rate or hop 0 and tempo limits not above 0 or not ascending (all f32 but NaN) are errors for both; resolutions not above 0 or lost in rounding are errors; with valid limits up to 1e30 and two values both answer"
    fn h_p31_args() {
        let k = choose(3);
        let c = vec![0.5f32; [0, 1, 2][k]];
        let (sr, hop) = [(8u32, 1u32), (0, 1), (8, 0)][choose(3)];
        let (lo, hi) = (not_nan(), not_nan());
        let bad = (k == 0) | (sr == 0) | (hop == 0) | (lo <= 0.0) | (hi <= lo);
        if bad { check(autocorrelation_tempogram(&c, sr, hop, lo, hi, 1.0).is_err() & fft_tempogram(&c, sr, hop, lo, hi).is_err(), 31); return; }
        let (lo, hi, st) = [(1e-30f32, 1e-29f32, 1e-29f32), (1.0, 1e30, 1e30), (60.0, 70.0, 5.0)][choose(3)];
        check(matches!((autocorrelation_tempogram(&c, 8, 1, lo, hi, st), fft_tempogram(&c, 8, 1, lo, hi)), (Ok(a), Ok(_)) if !a.is_empty() && a.iter().all(|e| e.1 == 0.0 || e.1 == 0.25)), 32);
        let res = not_nan();
        assume(res <= 9.5367e-7);
        check(autocorrelation_tempogram(&c, 8, 1, 60.0, [200.0, f32::INFINITY][choose(2)], res).is_err(), 33);
    }
}
