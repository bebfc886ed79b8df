use super::*;
use stratum_dsp::features::chroma::extractor::{convert_linear_to_log_frequency_spectrogram, extract_beat_synchronous_chroma, extract_chroma_from_log_frequency_spectrogram, extract_chroma_from_spectrogram_with_options, extract_chroma_from_spectrogram_with_options_and_energy, extract_chroma_from_spectrogram_with_options_and_energy_tuned};
/*@{"assumptions": ["in-band magnitudes from tables (they pass through pow), fixed by the executor; out-of-band ones free", "bins within 1e-3 semitones of the middle between two pitch classes are not compared"]}@*/

/// semitone of a frequency, C = 0 (mod 12), A = 9
fn semitone(f: f64, tune: f32) -> f64 { 12.0 * (f / 440.0).log2() + 57.0 - tune as f64 }
/// None: a tone too near the middle between two pitch classes
fn expected(frame: &[f32], sr: u32, fft: usize, sigma: Option<f32>, tune: f32) -> Option<[f64; 12]> {
    let mut o = [0.0f64; 12];
    for b in 0..frame.len() {
        let f = b as f64 * sr as f64 / fft as f64;
        if f < 100.0 || f > 5000.0 || f >= sr as f64 / 2.0 || !(frame[b] > 0.0) { continue; }
        let s = semitone(f, tune);
        if ((s - s.floor()) - 0.5).abs() < 1e-3 { return None; }
        let m = (frame[b] as f64).powf(0.6);
        let k = s.round();
        for d in -1i32..=1 {
            let w = match sigma {
                None => if d == 0 { 1.0 } else { 0.0 },
                Some(g) => { let x = s - (k + d as f64); let g = if g > 1e-6 { g as f64 } else { 1e-6 }; (-x * x / (2.0 * g * g)).exp() }
            };
            let c = (k as i32 + d + 120) % 12;
            o[c as usize] += m * w;
        }
    }
    let mut q = 0.0;
    for x in &o { q += x * x; }
    if q > 1e-18 { let l = q.sqrt(); for x in o.iter_mut() { *x /= l; } }
    Some(o)
}
fn matches(c: &[f32], e: &[f64; 12], tol: f64) -> bool { c.len() == 12 && (0..12).all(|i| (c[i] as f64 - e[i]).abs() <= tol) }
const RATES: [(u32, usize); 4] = [(8000, 64), (44100, 512), (11025, 128), (300, 16)];

harnesses! {
    //@ "ids": [1, 2, 3, 4, 5], "split": [4, 5], "w": 3, "bounds": "two tones (table of levels) at every bin and at one of five more, 8 kHz/64, 44.1 kHz/512, 11.025 kHz/128 and 300 Hz/16 spectra, hard mapping and soft mapping of width 0.5, 0.25, 1 and 0, tuning 0, 0.25 and -0.375; DC and Nyquist bins hold any k/16 in [-4,4]: exact pitch classes, unit length, energy"
    fn h_p26_tones() {
        let (sr, fft) = RATES[choose(4)];
        let m = choose(5);
        let sigma = [None, Some(0.5f32), Some(0.25), Some(1.0), Some(0.0)][m];
        let tune = [0.0f32, 0.25, -0.375][choose(3)];
        let n = fft / 2 + 1;
        let p = if fft == 512 { [1usize, 2, 5, 17, 40, 58, 59, 100, 200, 254][conc(us(0, tier(4, 9)))] } else { conc(us(1, n - 2)) };
        let q = [n - 2, 1, n / 2, 3, n / 4 + 1][choose(tier(2, 5))];
        let mut f = vec![0.0f32; n];
        f[p] = [0.5f32, 2.0][choose(2)];
        f[q] += 0.75;
        f[0] = dy(-64, 64, 4);
        f[n - 1] = dy(-64, 64, 4);
        if n > 12 { f[9] -= 0.25; }
        let fr = [f];
        let (c, e) = match extract_chroma_from_spectrogram_with_options_and_energy_tuned(&fr, sr, fft, sigma.is_some(), sigma.unwrap_or(0.5), tune) { Ok(x) => x, Err(_) => { check(false, 9); return } };
        check(c.len() == 1 && e.len() == 1, 1);
        if c.len() != 1 || e.len() != 1 { return; }
        let mut want = 0.0f32;
        for &x in &fr[0] { want += x * x; }
        check(close(e[0], want, 1e-3), 2);
        let mut inner = fr[0].clone();
        inner[0] = 0.0; inner[n - 1] = 0.0;
        let w = match expected(&inner, sr, fft, sigma, tune) { Some(w) => w, None => return };
        check(matches(&c[0], &w, 2e-4), 3);
        if tune == 0.0 {
            let a = extract_chroma_from_spectrogram_with_options(&fr, sr, fft, sigma.is_some(), sigma.unwrap_or(0.5));
            let b = extract_chroma_from_spectrogram_with_options_and_energy(&fr, sr, fft, sigma.is_some(), sigma.unwrap_or(0.5));
            check(matches!(a, Ok(x) if x.len() == 1 && matches(&x[0], &w, 2e-4)), 4);
            check(matches!(b, Ok(x) if x.0.len() == 1 && x.1.len() == 1 && matches(&x.0[0], &w, 2e-4)), 5);
        }
    }
    //@ "ids": [11, 12, 13], "bounds": "frame counts 0..3; frames of 0 bins or unequal lengths are errors; silence gives the zero vector for every position of a level of at most 2^-100"
    fn h_p26_shape() {
        let n = choose(4);
        let bad = choose(3);
        let mut fr = vec![vec![0.0f32; 9]; n];
        if n > 0 && bad == 1 { fr[n - 1] = vec![1.0; 8]; }
        if bad == 2 { for f in fr.iter_mut() { f.clear(); } }
        let r = extract_chroma_from_spectrogram_with_options_and_energy(&fr, 8000, 16, true, 0.5);
        let s = extract_chroma_from_spectrogram_with_options(&fr, 8000, 16, false, 0.5);
        if (bad == 1 && n > 1) || (bad == 2 && n > 0) { check(r.is_err() && s.is_err(), 11); return; }
        match (r, s) {
            (Ok((c, e)), Ok(d)) => {
                check(c.len() == n && e.len() == n && d.len() == n, 12);
                if bad == 0 { check(c.iter().chain(d.iter()).all(|f| f.len() == 12 && f.iter().all(|&x| x == 0.0)), 13); }
            }
            _ => check(false, 12),
        }
    }
    //@ "ids": [21, 22, 23], "split": [3, 2], "w": 3, "bounds": "beat-synchronous: 6 (thorough 8) frames of different chords at 16 frames per second and 3 beat times free on a grid of 1/64 s from -0.25 to 0.75 s, in order: an interval holds the frames starting in it"
    fn h_p26_beats() {
        let soft = choose(3);
        let n = [5usize, tier(6, 8)][choose(2)];
        let sigma = [None, Some(0.5f32), Some(0.25)][soft];
        let mut fr = vec![vec![0.0f32; 33]; n];
        for i in 0..n { fr[i][3 + 2 * i] = 1.0; fr[i][4 + i % 3] += 0.5; }
        let t: Vec<i32> = (0..3).map(|_| int(-16, 48)).collect();
        assume((t[0] <= t[1]) & (t[1] <= t[2]));
        let bt: Vec<f32> = t.iter().map(|&x| x as f32 / 64.0).collect();
        let (c, e) = match extract_beat_synchronous_chroma(&fr, 8000, 64, 500, &bt, sigma.is_some(), 0.5f32.min(sigma.unwrap_or(0.5)), 0.0) { Ok(x) => x, Err(_) => { check(false, 29); return } };
        check(c.len() == 2 && e.len() == 2, 21);
        if c.len() != 2 || e.len() != 2 { return; }
        for j in 0..2 {
            // frame i starts at 4i/64 s
            let first = |x: i32| { let mut k = 0usize; while k < n && 4 * (k as i32) < x { k += 1; } k };
            let (a, b) = (first(t[j]), first(t[j + 1]));
            let mut acc = [0.0f64; 12];
            let mut en = 0.0f32;
            for i in a..b {
                let w = match expected(&fr[i], 8000, 64, sigma, 0.0) { Some(w) => w, None => return };
                for k in 0..12 { acc[k] += w[k]; }
                for &x in &fr[i] { en += x * x; }
            }
            let mut q = 0.0;
            for x in &acc { q += x * x; }
            if q > 0.0 { let l = q.sqrt(); for x in acc.iter_mut() { *x /= l; } }
            check(matches(&c[j], &acc, 2e-4), 22);
            check(close(e[j], en, 1e-4), 23);
        }
    }
    //@ "ids": [31, 32, 33], "bounds": "beat-synchronous: no frames give none, no beats are an error, one beat gives no interval, for any hop and rate of the table and every (not NaN) beat time"
    fn h_p26_beat_args() {
        let (sr, hop) = [(44100u32, 512usize), (8000, 0), (0, 512)][choose(3)];
        let fr = vec![vec![1.0f32; 9]; 2];
        let b = [not_nan(), not_nan()];
        check(matches!(extract_beat_synchronous_chroma(&[], sr, 16, hop, &b, false, 0.5, 0.0), Ok(x) if x.0.is_empty() && x.1.is_empty()), 31);
        check(extract_beat_synchronous_chroma(&fr, sr, 16, hop, &[], false, 0.5, 0.0).is_err(), 32);
        check(matches!(extract_beat_synchronous_chroma(&fr, sr, 16, hop, &b[..1], false, 0.5, 0.0), Ok(x) if x.0.is_empty() && x.1.is_empty()), 33);
    }
    //@ "ids": [41, 42], "split": [4, 4], "w": 3, "bounds": "log-frequency spectrum: two free levels k/8 in [-1,3] at every pair of neighbouring bins (fixed by the executor) and one free level at DC, four rates, four frequency ranges: each level in range is shared linearly between the two semitones around its frequency"
    fn h_p26_log() {
        let (sr, fft) = RATES[choose(4)];
        let (lo, hi) = [(100.0f32, 5000.0f32), (20.0, 2000.0), (0.0, 1e9), (440.0, 900.0)][choose(4)];
        let n = fft / 2 + 1;
        let p = if fft == 512 { [1usize, 5, 58, 59, 200, 255][conc(us(0, tier(2, 5)))] } else { conc(us(1, n - 2)) };
        let mut f = vec![0.0f32; n];
        f[0] = dy(0, 16, 2);
        f[p] = dy(-8, 24, 3);
        f[p + 1] = dy(0, 24, 3);
        let (lo2, hi2) = (lo.max(20.0), hi.min(sr as f32 / 2.0 - 1.0));
        let a = semitone(lo2 as f64, 0.0).floor() as i32;
        let z = semitone(hi2 as f64, 0.0).ceil() as i32;
        let r = match convert_linear_to_log_frequency_spectrogram(&[f.clone()], sr, fft, lo, hi) { Ok(r) => r, Err(_) => { check(z < a, 41); return } };
        let bins = (z - a + 1) as usize;
        check(z >= a && r.len() == 1 && r[0].len() == bins, 41);
        if z < a || r.len() != 1 || r[0].len() != bins { return; }
        let mut w = vec![0.0f32; bins + 1];
        for b in [p, p + 1] {
            let fq = b as f64 * sr as f64 / fft as f64;
            if fq < lo2 as f64 || fq >= hi2 as f64 { continue; }
            let s = semitone(fq, 0.0) - a as f64;
            let k = s.floor();
            let h = (s - k) as f32;
            let v = if f[b] > 0.0 { f[b] } else { 0.0 };
            w[k as usize] += v * (1.0 - h);
            w[k as usize + 1] += v * h;
        }
        for k in 0..bins { check(close(r[0][k], w[k], 1e-3), 42); }
    }
    //@ "ids": [51, 52], "split": [5, 3], "w": 2, "bounds": "chroma of a log-frequency spectrum: 26 semitones from any of five offsets (-25, 0, 9, 36 and 2^31 - 27), two levels k/2 in [-1,3] and k in [-1,3] (fixed by the executor) at octave-related and other places: sums over octaves, unit length"
    fn h_p26_fold() {
        let off = [-25i32, 0, 9, 36, i32::MAX - 26][choose(5)];
        let mut f = vec![0.0f32; 26];
        let (i, j) = [(3usize, 15usize), (0, 25), (11, 12)][choose(3)];
        f[i] = conc(us(0, tier(8, 16))) as f32 / 2.0 - 1.0;
        f[j] = conc(us(0, tier(4, 16))) as f32 - 1.0;
        f[20] = 1.5;
        let r = match extract_chroma_from_log_frequency_spectrogram(&[f.clone()], off) { Ok(r) => r, Err(_) => { check(false, 59); return } };
        let mut w = [0.0f32; 12];
        for k in 0..26 { let c = ((off as i64 + k as i64) % 12 + 12) % 12; w[c as usize] += if f[k] > 0.0 { f[k] } else { 0.0 }; }
        let mut q = 0.0f32;
        for x in &w { q += x * x; }
        let l = q.sqrt();
        check(r.len() == 1 && r[0].len() == 12, 51);
        if r.len() != 1 || r[0].len() != 12 { return; }
        for c in 0..12 { check(close(r[0][c], w[c] / l, 1e-5), 52); }
    }
    //@ "ids": [61], "split": [7], "bounds": "log-frequency conversion: lower limit any f32 (not NaN) with upper limits from a table and the reverse, four rates and rates 0 and 1: never fails, an inverted range is an error"
    fn h_p26_log_total() {
        let k = choose(7);
        let (sr, fft) = [(8000u32, 16usize), (44100, 16), (100, 16), (0, 16), (1, 16), (8000, 0), (u32::MAX, 16)][k];
        let f = vec![0.5f32; 9];
        let (lo, hi) = [(f32::NEG_INFINITY, 100.0f32), (20.0, 19.0), (5000.0, 100.0), (1e30, 1e9), (f32::INFINITY, f32::INFINITY), (30.0, 0.0), (30.0, f32::NEG_INFINITY), (f32::NAN, 1000.0), (30.0, f32::NAN)][choose(9)];
        let r = convert_linear_to_log_frequency_spectrogram(&[f], sr, fft, lo, hi);
        check(match r { Ok(r) => r.len() == 1 && sr > 0 && fft > 0 && !(lo >= 100.0 && lo >= hi * 1.2 && hi > 0.0), Err(_) => sr < 102 || fft == 0 || lo > hi || lo >= 4000.0 || lo.is_nan() || hi.is_nan() }, 61);
    }
}
