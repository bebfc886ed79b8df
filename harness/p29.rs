use super::*;
use stratum_dsp::features::chroma::extractor::{compute_stft, extract_chroma, extract_chroma_from_spectrogram_with_options, extract_chroma_with_options};
/*@{"assumptions": ["samples on dyadic grids, fixed by the executor (the FFT multiplies them by irrational factors)", "frame sizes 2..32 (chroma: 64), the scalar code paths of the FFT library (no SIMD extensions detected)"]}@*/

/// the Hann-windowed spectrum of the frame at s: (re, im) of each bin
fn dft(x: &[f32], size: usize) -> Vec<(f32, f32)> {
    let pi = std::f64::consts::PI;
    (0..size / 2 + 1).map(|k| {
        let (mut re, mut im) = (0.0f32, 0.0f32);
        for n in 0..size {
            let w = 0.5 * (1.0 - (2.0 * pi * n as f64 / (size - 1) as f64).cos());
            let a = 2.0 * pi * ((k * n) % size) as f64 / size as f64;
            re += x[n] * (w * a.cos()) as f32;
            im += x[n] * (w * a.sin()) as f32;
        }
        (re, im)
    }).collect()
}
fn sound(k: usize, n: usize) -> Vec<f32> { (0..n).map(|i| match k { 0 => 0.0f32, 1 => 0.5 - ((i * 3) % 5) as f32 * 0.25, _ => if i % 3 == 0 { 0.75 } else { -0.125 * (i % 2) as f32 } }).collect() }

harnesses! {
    //@ "ids": [1, 2, 3], "split": [5, 3], "tsplit": [8, 3], "w": 3, "bounds": "frame sizes 2, 4, 8, 12 and 16 (thorough also 5, 7, 32), hops 1, 3 and the frame size, up to two frames and a rest, three sounds, one sample k/2 (thorough k/8) in [-1,1] at every position (fixed by the executor): each frame holds the magnitudes of the Hann-windowed spectrum of its samples"
    fn h_p29_spectrum() {
        let size = [2usize, 4, 8, 12, 16, 5, 7, 32][choose(tier(5, 8))];
        let hop = [1usize, 3, size][choose(3)];
        let n = size + hop + [0, hop / 2][choose(2)];
        let mut x = sound(choose(3), n);
        let p = conc(us(0, n - 1));
        x[p] = conc(us(0, tier(4, 16))) as f32 * (2.0 / tier(4, 16) as f32) - 1.0;
        let r = match compute_stft(&x, size, hop) { Ok(r) => r, Err(_) => { check(false, 1); return } };
        let frames = (n - size) / hop + 1;
        check(r.len() == frames, 1);
        if r.len() != frames { return; }
        for i in 0..frames {
            check(r[i].len() == size / 2 + 1, 2);
            if r[i].len() != size / 2 + 1 { return; }
            for (k, (re, im)) in dft(&x[i * hop..], size).into_iter().enumerate() {
                check(close(r[i][k], (re * re + im * im).sqrt(), 2e-3), 3);
            }
        }
    }
    //@ "ids": [11], "bounds": "fewer samples than a frame (0..frame size - 1, any value of the last one, infinite and NaN ones included) give no frames for sizes 1, 2, 8 and 2048 and hops 1, 7 and any other but 0"
    fn h_p29_short() {
        let size = [1usize, 2, 8, 2048][choose(4)];
        let n = [0, size / 2, size - 1][choose(3)];
        let mut x = vec![0.25f32; n];
        if n > 0 { x[n - 1] = any_f32(); }
        let hop = any_usize();
        assume(hop > 0);
        check(matches!(compute_stft(&x, size, hop), Ok(r) if r.is_empty()), 11);
    }
    //@ "ids": [21, 22], "split": [2, 3], "w": 2, "bounds": "chroma of samples: 64-sample frames at 8 kHz with hops 16, 64 and 100, a tone of every period 3..12 samples (fixed by the executor), hard and soft mapping: the chroma of the spectrum of every frame"
    fn h_p29_chroma() {
        let soft = choose(2) == 1;
        let hop = [16usize, 64, 100][choose(3)];
        let p = conc(us(3, tier(8, 12)));
        let x: Vec<f32> = (0..64 + hop + hop / 2).map(|i| if i % p < p / 2 { 0.5f32 } else { -0.25 }).collect();
        let (r, s) = match (extract_chroma_with_options(&x, 8000, 64, hop, soft, 0.25), compute_stft(&x, 64, hop)) { (Ok(r), Ok(s)) => (r, s), _ => { check(false, 29); return } };
        check(s.len() == 2 && r.len() == 2, 21);
        match extract_chroma_from_spectrogram_with_options(&s, 8000, 64, soft, 0.25) { Ok(w) => check(w == r, 22), Err(_) => check(false, 22) }
        if soft { if let (Ok(d), Ok(w)) = (extract_chroma(&x, 8000, 64, hop), extract_chroma_from_spectrogram_with_options(&s, 8000, 64, true, 0.5)) { check(d == w, 22); } else { check(false, 22); } }
    }
    //@ "ids": [31], "bounds": "chroma of samples: no samples, frame size, hop or rate of 0 are errors; any rate and hop otherwise with one sample too few for a frame gives no chroma"
    fn h_p29_args() {
        let (n, f) = [(0usize, 8usize), (7, 8), (7, 0)][choose(3)];
        let x = vec![0.5f32; n];
        let (sr, hop) = (any_u32(), any_usize());
        let bad = n == 0 || f == 0 || sr == 0 || hop == 0;
        check(match extract_chroma(&x, sr, f, hop) { Ok(r) => !bad && r.is_empty(), Err(_) => bad }, 31);
    }
}
