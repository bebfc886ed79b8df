use super::*;
use stratum_dsp::features::period::autocorrelation::estimate_bpm_from_autocorrelation;
/*@{"assumptions": ["up to 41 (thorough 80) frames", "the scalar code paths of the FFT library (no SIMD extensions detected)", "equal scores may come in any order"]}@*/

/// frames of the onsets -> occupied frames
fn verify(fr: &[usize], on: &[usize], sr: u32, hop: usize, lo: f32, hi: f32) {
    let r = match estimate_bpm_from_autocorrelation(on, sr, hop, lo, hi) { Ok(r) => r, Err(_) => { check(fr.iter().all(|&f| f == 0), 9); return } };
    let mut n = 0;
    for &f in fr { if f + 1 > n { n = f + 1; } }
    check(n > 1, 9);
    let mut s = vec![false; n];
    for &f in fr { s[f] = true; }
    let acf: Vec<u32> = (0..n).map(|l| (0..n - l).filter(|&i| s[i] && s[i + l]).count() as u32).collect();
    let (a, b) = ((60.0 * sr as f64 / (hi as f64 * hop as f64) - 1e-6).ceil() as usize, (60.0 * sr as f64 / (lo as f64 * hop as f64) + 1e-6).floor() as usize);
    let mut want = vec![0u32; n];
    if a < b && b < n {
        let mut top = 0;
        for l in a..=b { if acf[l] > top { top = acf[l]; } }
        for l in a + 1..b {
            let side = if acf[l - 1] > acf[l + 1] { acf[l - 1] } else { acf[l + 1] };
            if acf[l] > side { if (acf[l] - side) * 10 == top { return; } if (acf[l] - side) * 10 > top { want[l] = acf[l]; } }
        }
    }
    let mut total = 0;
    for &w in &want { if w > 0 { total += 1; } }
    check(r.len() == total, 1);
    for i in 0..r.len() {
        if i > 0 { check(r[i - 1].confidence >= r[i].confidence, 2); }
        let l = (60.0 * sr as f32 / (r[i].bpm * hop as f32)).round() as usize;
        let ok = l < n && want[l] > 0;
        check(ok, 3);
        if !ok { return; }
        check(close(r[i].bpm, 60.0 * sr as f32 / (l * hop) as f32, 1e-2), 4);
        check(close(r[i].confidence, want[l] as f32 / acf[0] as f32, 1e-3), 5);
        want[l] = 0;
    }
    obs(total as u32);
}

harnesses! {
    //@ "ids": [1, 2, 3, 4, 5], "split": [7, 2], "w": 4, "bounds": "onsets every 3..9 frames over 24 or 41 frames (10 frames per second), one moved to and one added at every frame (fixed by the executor), the first at any sample of its frame, the others within theirs; 60-180 BPM; onsets in order or reversed"
    fn h_p30_pulse() {
        let p = choose_in(3, 9);
        let n = [24usize, 41][choose(2)];
        let mut fr: Vec<usize> = (0..(n - 1) / p + 1).map(|i| i * p).collect();
        let k = conc(us(0, n - 1));
        let m = fr.len() / 2;
        fr[m] = conc(us(0, tier(5, n - 1))) * tier(4, 1) + 3;
        fr.push(k);
        if choose(tier(1, 2)) == 1 { fr.reverse(); }
        let off = us(0, 99);
        let on: Vec<usize> = fr.iter().enumerate().map(|(i, &f)| f * 100 + if f == 0 { off } else { i * 37 % 100 }).collect();
        verify(&fr, &on, 1000, 100, 60.0, 180.0);
    }
    //@ "ids": [1, 2, 3, 4, 5], "split": [4, 4], "w": 3, "bounds": "4 onsets at three table gaps and one gap of every length up to 16 frames (fixed by the executor), four tempo ranges, four rates and hops"
    fn h_p30_ranges() {
        let (lo, hi) = [(60.0f32, 180.0f32), (50.0, 100.0), (100.0, 300.0), (119.0, 121.0)][choose(4)];
        let (sr, hop) = [(1000u32, 100usize), (44100, 4410), (8000, 512), (100, 10)][choose(4)];
        let g = [[5usize, 5, 5], [4, 8, 4], [6, 5, 7], [10, 3, 3]][choose(4)];
        let k = conc(us(1, tier(12, 16)));
        let fr = [0, g[0], g[0] + g[1], g[0] + g[1] + k, g[0] + g[1] + k + g[2]];
        let on: Vec<usize> = fr.iter().map(|&f| f * hop).collect();
        verify(&fr, &on, sr, hop, lo, hi);
    }
    //@ "ids": [11, 12, 13], "bounds": "no onsets, rate 0, hop 0 and tempo limits not above 0 or not ascending (all f32 but NaN) are errors; one onset at any sample gives no candidate"
    fn h_p30_args() {
        let (lo, hi) = (not_nan(), not_nan());
        let sr = [0u32, 44100, u32::MAX][choose(3)];
        let hop = [0usize, 512][choose(2)];
        let o = any_usize();
        let bad = (lo <= 0.0) | (hi <= 0.0) | (lo >= hi);
        check(estimate_bpm_from_autocorrelation(&[], sr, hop, lo, hi).is_err(), 11);
        let r = estimate_bpm_from_autocorrelation(&[o], sr, hop, lo, hi);
        if bad || sr == 0 || hop == 0 { check(r.is_err(), 12); } else { check(matches!(r, Ok(v) if v.is_empty()), 13); }
    }
    //@ "ids": [21], "split": [5], "bounds": "3 onsets within 8 frames, three lower tempo limits and 31 upper ones, infinite included (fixed by the executor): candidates inside the limits with confidence in [0,1], in order"
    fn h_p30_total() {
        let fr = [[0usize, 3, 6], [0, 2, 7], [1, 4, 7], [0, 0, 1], [2, 2, 2]][choose(5)];
        let lo = [90.0f32, 110.0, 1e-30][choose(3)];
        let k = conc(us(0, 30));
        let hi = if k < 28 { 112.5 + 25.0 * k as f32 } else { [1e9, 3e38, f32::INFINITY][k - 28] };
        let on: Vec<usize> = fr.iter().map(|&f| f * 100 + 7).collect();
        if let Ok(r) = estimate_bpm_from_autocorrelation(&on, 1000, 100, lo, hi) {
            for i in 0..r.len() {
                check((r[i].bpm >= lo) & (r[i].bpm <= hi) & (r[i].confidence >= 0.0) & (r[i].confidence <= 1.0) & (i == 0 || r[i - 1].confidence >= r[i].confidence), 21);
            }
        }
    }
}
