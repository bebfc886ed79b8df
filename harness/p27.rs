use super::*;
use stratum_dsp::features::chroma::extractor::{estimate_tuning_offset_semitones_from_spectrogram, harmonic_spectrogram_hpss_median_mask, harmonic_spectrogram_time_mask, smooth_spectrogram_time};
/*@{"assumptions": ["levels on dyadic grids; those passing through powers or square roots fixed by the executor", "margins up to 1000", "levels within 1e-5 of the tuning threshold are not compared"]}@*/

fn shape(r: &[Vec<f32>], n: usize, k: usize) -> bool { r.len() == n && r.iter().all(|f| f.len() == k) }
fn pw(x: f64, p: f32) -> f64 { if p <= 1.0 { x } else if p == 2.0 { x * x } else { x * x * x } }
/// upper middle value
fn med(mut v: Vec<f32>) -> f32 { for i in 1..v.len() { let mut j = i; while j > 0 && v[j - 1] > v[j] { v.swap(j - 1, j); j -= 1; } } v[v.len() / 2] }
fn resid(f: f64) -> f64 { let s = 12.0 * (f / 440.0).log2() + 57.0; s - s.round() }

harnesses! {
    //@ "ids": [1, 2], "split": [6, 4], "w": 2, "bounds": "time smoothing: 1..6 frames of 2 bins, four free levels k/8 in [-8,8], margins 0..2 and 1000: each level is the mean over the window cut at the ends"
    fn h_p27_smooth() {
        let n = choose_in(1, 6);
        let m = [0usize, 1, 2, 1000][choose(4)];
        let mut fr: Vec<Vec<f32>> = (0..n).map(|i| vec![0.25 * i as f32, 1.0]).collect();
        fr[0][0] = dy(-64, 64, 3);
        fr[n - 1][1] = dy(-64, 64, 3);
        fr[n / 2][0] = dy(-64, 64, 3);
        fr[n / 3][1] = dy(-64, 64, 3);
        let r = match smooth_spectrogram_time(&fr, m) { Ok(r) => r, Err(_) => { check(false, 1); return } };
        let ok = shape(&r, n, 2);
        check(ok, 1);
        if !ok { return; }
        for t in 0..n { for b in 0..2 {
            let (a, z) = (if t > m { t - m } else { 0 }, if t + m < n { t + m } else { n - 1 });
            let mut s = 0.0f32;
            for k in a..=z { s += fr[k][b]; }
            check(close(r[t][b], s / (z - a + 1) as f32, 1e-4), 2);
        } }
    }
    //@ "ids": [11, 12], "split": [4, 3], "w": 2, "bounds": "time mask: 5 frames of 2 bins (steady, rising and click patterns), two levels k/4 in [-0.5,4] (fixed by the executor), margins 0, 1, 2 and 9, powers 1, 2 and 0.5: each level times its harmonic share"
    fn h_p27_time_mask() {
        let m = [0usize, 1, 2, 9][choose(4)];
        let p = [1.0f32, 2.0, 0.5][choose(3)];
        let pat = choose(3);
        let mut fr: Vec<Vec<f32>> = (0..5).map(|i| match pat { 0 => vec![1.0f32, 0.0], 1 => vec![0.5 * i as f32, 2.0 - 0.25 * i as f32], _ => vec![if i == 2 { 4.0 } else { 0.125 }, 0.5] }).collect();
        fr[[1usize, 0, 4][pat]][0] = conc(us(0, tier(9, 18))) as f32 / 2.0 - 0.5;
        fr[3][1] = conc(us(0, tier(3, 18))) as f32;
        let r = match harmonic_spectrogram_time_mask(&fr, m, p) { Ok(r) => r, Err(_) => { check(false, 11); return } };
        let ok = shape(&r, 5, 2);
        check(ok, 11);
        if !ok { return; }
        for t in 0..5 { for b in 0..2 {
            let (a, z) = (if t > m { t - m } else { 0 }, if t + m < 5 { t + m } else { 4 });
            let mut s = 0.0f64;
            for k in a..=z { s += fr[k][b] as f64; }
            let h = (s / (z - a + 1) as f64).max(0.0);
            let x = (fr[t][b] as f64).max(0.0);
            let (hp, rp) = (pw(h, p), pw((x - h).max(0.0), p));
            let w = if hp > 0.0 { x * hp / (hp + rp) } else { 0.0 };
            check((r[t][b] as f64 - w).abs() <= 1e-4, 12);
        } }
    }
    //@ "ids": [21, 22, 23], "split": [3, 3, 3], "w": 4, "bounds": "median mask: 5 frames of 9 bins (tone, click and mixed patterns), two levels k/2 in [-0.5,3.5] (fixed by the executor) and one free level outside the band, margins (0..2 in time, 0..2 and 20 in frequency), powers 1 and 2, steps 1, 2 and 3, two bands: levels in the band times their harmonic share, others zero"
    fn h_p27_median_mask() {
        let tm = choose(3);
        let fm = [1usize, 0, 20][choose(3)];
        let step = choose_in(1, 3);
        let p = [2.0f32, 1.0][choose(2)];
        let pat = choose(3);
        let (lo, hi) = [(600.0f32, 2600.0f32), (0.0, 1e9)][choose(2)];
        let mut fr: Vec<Vec<f32>> = (0..5).map(|i| (0..9).map(|b| match pat { 0 => if b == 3 { 2.0f32 } else { 0.125 }, 1 => if i == 2 { 1.0 + 0.25 * b as f32 } else { 0.25 }, _ => ((i * 5 + b * 3) % 7) as f32 * 0.25 }).collect()).collect();
        fr[1][3] = conc(us(0, tier(4, 8))) as f32 * 0.5 - 0.5;
        fr[2][4] = conc(us(0, tier(2, 8))) as f32 * 0.75;
        if lo > 100.0 { fr[4][0] = dy(-8, 64, 3); fr[0][8] = dy(-8, 64, 3); }
        // 500 Hz per bin
        let (a, z) = if lo > 100.0 { (1usize, 6usize) } else { (0, 8) };
        let r = match harmonic_spectrogram_hpss_median_mask(&fr, 8000, 16, lo, hi, step, tm, fm, p) { Ok(r) => r, Err(_) => { check(false, 21); return } };
        let ok = shape(&r, 5, 9);
        check(ok, 21);
        if !ok { return; }
        let nd = (5 + step - 1) / step;
        let g = |t: usize, b: usize| fr[t * step][b].max(0.0);
        for t in 0..5 { for b in 0..9 {
            if b < a || b >= z { check(r[t][b] == 0.0, 22); continue; }
            let k = t / step;
            let (t0, t1) = (if k > tm { k - tm } else { 0 }, if k + tm < nd { k + tm } else { nd - 1 });
            let (b0, b1) = (if b > a + fm { b - fm } else { a }, if b + fm < z { b + fm } else { z - 1 });
            let h = med((t0..=t1).map(|q| g(q, b)).collect()) as f64;
            let v = med((b0..=b1).map(|q| g(k, q)).collect()) as f64;
            let (hp, vp) = (pw(h, p), pw(v, p));
            let w = if hp > 0.0 { fr[t][b].max(0.0) as f64 * hp / (hp + vp) } else { 0.0 };
            check((r[t][b] as f64 - w).abs() <= 1e-4, 23);
        } }
    }
    //@ "ids": [31, 32, 33, 34], "split": [7, 3], "bounds": "0..2 frames, empty and unequal frames, rates and FFT sizes from a table (0 included), frequency limits from a table (NaN, infinities and inverted ones included): errors exactly for empty or unequal frames, otherwise the shape is kept; a lower limit at or above Nyquist does no harm"
    fn h_p27_args() {
        let (sr, fft) = [(8000u32, 16usize), (44100, 16), (30, 16), (0, 16), (1, 16), (8000, 0), (u32::MAX, 16)][choose(7)];
        let bad = choose(3);
        let n = choose(3);
        let (lo, hi) = [(f32::NEG_INFINITY, 100.0f32), (20.0, 19.0), (5000.0, 100.0), (1e30, 1e9), (f32::INFINITY, f32::INFINITY), (30.0, f32::NEG_INFINITY), (f32::NAN, 1000.0), (30.0, f32::NAN), (4000.0, 4000.0)][choose(9)];
        let mut fr = vec![vec![0.5f32; 9]; n];
        if n > 0 && bad == 1 { fr[n - 1] = vec![1.0; 8]; }
        if bad == 2 { for f in fr.iter_mut() { f.clear(); } }
        let err = (bad == 1 && n > 1) || (bad == 2 && n > 0);
        let k = if n == 1 && bad == 1 { 8 } else { 9 };
        let t = estimate_tuning_offset_semitones_from_spectrogram(&fr, sr, fft, lo, hi, 0, 0.25);
        let m = harmonic_spectrogram_hpss_median_mask(&fr, sr, fft, lo, hi, 0, 1, 1, 2.0);
        check(match t { Ok(x) => !err && x >= -0.5 && x <= 0.5 && (n > 0 || x == 0.0), Err(_) => err }, 31);
        check(match m { Ok(r) => !err && (bad == 2 || shape(&r, n, k)), Err(_) => err }, 32);
        check(match smooth_spectrogram_time(&fr, 1) { Ok(r) => !err && (bad == 2 || shape(&r, n, k)), Err(_) => err }, 33);
        check(match harmonic_spectrogram_time_mask(&fr, 1, 2.0) { Ok(r) => !err && (bad == 2 || shape(&r, n, k)), Err(_) => err }, 34);
    }
    //@ "ids": [41, 42], "split": [3, 3], "w": 2, "bounds": "tuning: tones at every pair of bins of a table (fixed by the executor) with levels 1 and k/8 in [0,1], out-of-band levels free, thresholds 0, 0.3 and 1, bands 100-5000 and 300-900 Hz, two rates, every frame or every second one: the weighted circular mean of the deviations from the nearest semitone"
    fn h_p27_tuning() {
        let thr = [0.3f32, 0.0, 1.0][choose(3)];
        let (sr, fft) = [(8000u32, 64usize), (11025, 64), (6000, 64)][choose(3)];
        let (lo, hi) = [(100.0f32, 5000.0f32), (300.0, 900.0)][choose(2)];
        let step = choose_in(1, 2);
        let n = 33usize;
        let (p, q) = ([3usize, 7, 4, 11][choose(4)], [5usize, 6, 20][choose(3)]);
        let lv = conc(us(0, tier(4, 16))) as f32 / tier(4, 16) as f32;
        let mut fr = vec![vec![0.0f32; n]; 3];
        fr[0][p] = 1.0; fr[1][q] = 0.75; fr[2][q] = lv; fr[2][p + 1] += 0.5; fr[0][q] += 0.25;
        let r = match estimate_tuning_offset_semitones_from_spectrogram(&fr, sr, fft, lo, hi, step, thr) { Ok(r) => r, Err(_) => { check(false, 41); return } };
        check((r >= -0.5) & (r <= 0.5), 41);
        let (mut sx, mut sy, mut sw) = (0.0f64, 0.0f64, 0.0f64);
        let top = (hi as f64).min(sr as f64 / 2.0);
        let mut t = 0;
        while t < 3 {
            let inb = |b: usize| { let f = b as f64 * sr as f64 / fft as f64; f >= lo as f64 && f <= top };
            let mut pk = 0.0f32;
            for b in 0..n { if inb(b) && fr[t][b] > pk { pk = fr[t][b]; } }
            for b in 0..n {
                if !inb(b) || !(fr[t][b] > 0.0) { continue; }
                if (fr[t][b] - pk * thr).abs() < 1e-5 && thr < 1.0 { return; }
                if fr[t][b] < pk * thr { continue; }
                let d = resid(b as f64 * sr as f64 / fft as f64);
                let w = (fr[t][b] as f64).sqrt();
                let a = 2.0 * std::f64::consts::PI * d;
                sx += w * a.cos(); sy += w * a.sin(); sw += w;
            }
            t += step;
        }
        if sw == 0.0 { check(r == 0.0, 42); return; }
        let l = (sx * sx + sy * sy).sqrt() / sw;
        if (l - 0.05).abs() < 1e-3 { return; }
        let want = if l < 0.05 { 0.0 } else { sy.atan2(sx) / (2.0 * std::f64::consts::PI) };
        let d = (r as f64 - want).abs();
        check(d < 1e-3 || (1.0 - d).abs() < 1e-3, 42);
    }
}
