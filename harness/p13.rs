use super::*;
use stratum_dsp::features::period::{coarse_to_fine_search, estimate_bpm_from_comb_filter, BpmCandidate};
/*@{"assumptions": ["tempo grids whose beat periods are whole numbers of samples, where the reference score is exact", "finite tempo arguments with at most 64 candidates"]}@*/

/// share of the expected beats 0, T, 2T, ... up to the first one at or after the last onset, with an onset within the tolerance
fn score(on: &[usize], last: usize, sr: u32, bpm: f32) -> f32 {
    let t = 60.0 * sr as f32 / bpm;
    let r = 0.1 * (120.0 / bpm);
    let r = if r < 0.05 { 0.05 } else if r > 0.15 { 0.15 } else { r };
    let tol = t * r;
    let nb = conc(((last as f32 / t).ceil() as usize) + 1);
    let mut c = 0u32;
    for k in 0..nb {
        let e = k as f32 * t;
        let mut any = false;
        for &o in on { any |= (o as f32 - e).abs() <= tol; }
        c += any as u32;
    }
    conc(c as usize) as f32 / nb as f32
}
fn verify(r: &[BpmCandidate], grid: &[f32], on: &[usize], last: usize, sr: u32) {
    let sc: Vec<f32> = grid.iter().map(|&b| score(on, last, sr, b)).collect();
    let mut mx = 0.0f32;
    for &s in &sc { mx = if s > mx { s } else { mx }; }
    let mut listed = vec![0u32; grid.len()];
    for i in 0..r.len() {
        check(i == 0 || r[i - 1].confidence >= r[i].confidence, 1);
        let mut hit = false;
        for k in 0..grid.len() {
            if r[i].bpm == grid[k] {
                hit = true;
                listed[k] += 1;
                check(close(r[i].confidence, sc[k] / mx, 1e-6), 2);
            }
        }
        check(hit, 3);
    }
    for k in 0..grid.len() {
        check((listed[k] == 1) == ((mx > 0.0) & (sc[k] / mx >= 0.1)), 4);
    }
    obs(r.len() as u32);
}
const GRIDS: [(u32, f32, f32, f32, &[f32]); 6] = [
    (44100, 60.0, 150.0, 30.0, &[60.0, 90.0, 120.0, 150.0]),
    (44100, 63.0, 147.0, 21.0, &[63.0, 84.0, 105.0, 126.0, 147.0]),
    (48000, 100.0, 140.0, 20.0, &[100.0, 120.0]),
    (44100, 100.0, 139.0, 20.0, &[100.0, 120.0]),
    (8000, 240.0, 320.0, 80.0, &[240.0, 320.0]),
    (8000, 50.0, 80.0, 10.0, &[50.0, 60.0, 80.0]),
];

harnesses! {
    //@ "ids": [1, 2, 3, 4], "split": [6, 4], "w": 4, "bounds": "6 onset patterns of 3..5 onsets in any order, one onset free over every sample up to the last one; 4 tempo grids of 2..5 tempi from 60 to 320 BPM, sample rates 8000 and 44100"
    fn h_p13_one() {
        let pat = choose(6);
        let (sr, lo, hi, res, grid) = GRIDS[[0, 1, 3, 4][choose(4)]];
        let s = sr as usize;
        let (on, last): (Vec<usize>, usize) = match pat {
            0 => (vec![0, s / 2], s),
            1 => (vec![], s * 2),
            2 => (vec![s / 4], s * 3 / 2),
            3 => (vec![s / 2, s * 3 / 2, 0], s * 2),
            4 => (vec![s / 3, s / 3], s),
            _ => (vec![s * 5 / 7], s * 3),
        };
        let mut on = on;
        on.insert(on.len() / 2, us(0, last - 1));
        on.insert(if pat % 2 == 0 { 0 } else { on.len() }, last);
        match estimate_bpm_from_comb_filter(&on, sr, 512, lo, hi, res) { Ok(r) => verify(&r, grid, &on, last, sr), Err(_) => check(false, 5) }
    }
    //@ "ids": [1, 2, 3, 4], "split": [4], "w": 5, "bounds": "the last onset free over every sample of [0, 2 s] (thorough 6 s), alone or with others at 0, 0.5 and 1 s; tempi 60 and 120 at 1024 Hz or 120 and 240 at 512 Hz"
    fn h_p13_last() {
        let pat = choose(4);
        let (sr, lo, hi, res, grid): (u32, f32, f32, f32, &[f32]) = [(1024u32, 60.0f32, 120.0f32, 60.0f32, &[60.0f32, 120.0][..]), (512, 120.0, 250.0, 120.0, &[120.0, 240.0][..])][choose(2)];
        let s = sr as usize;
        let j = choose(tier(4, 12) + 1);
        let x = if j == 0 { 0 } else { us((j - 1) * s / 2 + 1, j * s / 2) };
        let last = match pat { 3 => if x > s { x } else { s }, 2 => if x > s / 2 { x } else { s / 2 }, _ => x };
        let on = match pat { 0 => vec![x, x], 1 => vec![x, 0], 2 => vec![s / 2, x, 0], _ => vec![0, s, x] };
        match estimate_bpm_from_comb_filter(&on, sr, 512, lo, hi, res) { Ok(r) => verify(&r, grid, &on, last, sr), Err(_) => check(false, 5) }
    }
    //@ "ids": [1, 2, 3, 4], "split": [2], "tsplit": [4], "w": 5, "bounds": "two free onsets over every sample before a fixed last one at 1 s (thorough also 2 s); two tempo grids"
    fn h_p13_two() {
        let g = choose(tier(2, 4));
        let (sr, lo, hi, res, grid) = GRIDS[[3, 4][g % 2]];
        let n = sr as usize * (1 + g / 2);
        let on = vec![us(0, n - 1), n, us(0, n - 1)];
        match estimate_bpm_from_comb_filter(&on, sr, 512, lo, hi, res) { Ok(r) => verify(&r, grid, &on, n, sr), Err(_) => check(false, 5) }
    }
    //@ "ids": [11, 12], "split": [3], "w": 2, "bounds": "onset order: three onsets, one free, in each of the 6 orders give the same candidates; duplicated onsets change nothing"
    fn h_p13_order() {
        let (sr, lo, hi, res, _) = GRIDS[[2, 3, 4][choose(3)]];
        let s = sr as usize;
        let (a, b, c) = (us(0, s), s, s * 2 / 5);
        let p = estimate_bpm_from_comb_filter(&[a, b, c], sr, 512, lo, hi, res);
        let q = match choose(6) {
            0 => estimate_bpm_from_comb_filter(&[a, c, b], sr, 512, lo, hi, res),
            1 => estimate_bpm_from_comb_filter(&[b, a, c], sr, 512, lo, hi, res),
            2 => estimate_bpm_from_comb_filter(&[c, b, a], sr, 512, lo, hi, res),
            3 => estimate_bpm_from_comb_filter(&[b, c, a], sr, 512, lo, hi, res),
            4 => estimate_bpm_from_comb_filter(&[c, a, b], sr, 512, lo, hi, res),
            _ => estimate_bpm_from_comb_filter(&[a, b, c, b, b], sr, 512, lo, hi, res),
        };
        match (p, q) {
            (Ok(p), Ok(q)) => {
                check(p.len() == q.len(), 11);
                for i in 0..p.len().min(q.len()) { check((p[i].bpm == q[i].bpm) & (p[i].confidence == q[i].confidence), 12); }
            }
            _ => check(false, 13),
        }
    }
    //@ "ids": [21, 22], "split": [4], "bounds": "arguments: 0..3 onsets, sample rate 0 or 8000, every finite pair of tempo limits up to 1000 BPM ordered or not (grid k/4; 8 pairs with two or more onsets), resolution negative, zero or from 100: bad ones are errors, fewer than two onsets give no candidate"
    fn h_p13_args() {
        let n = choose(4);
        let on: Vec<usize> = (0..n).map(|i| i * 4000).collect();
        let sr = [8000, 0][choose(2)];
        let res = [100.0f32, 400.0, 0.0, -1.0][choose(4)];
        let (lo, hi) = if n < 2 { (dy(-8, 4000, 2), dy(-8, 4000, 2)) } else { [(60.0f32, 200.0f32), (200.0, 60.0), (100.0, 100.0), (0.0, 90.0), (-5.0, 90.0), (-9.0, -5.0), (0.25, 99.0), (80.0, 900.0)][choose(8)] };
        let bad = (n == 0) | (sr == 0) | (res <= 0.0) | (lo <= 0.0) | (hi <= 0.0) | (lo >= hi);
        match estimate_bpm_from_comb_filter(&on, sr, 512, lo, hi, res) {
            Ok(r) => {
                check(!bad, 21);
                check((n >= 2) | r.is_empty(), 22);
                for c in &r { check((c.bpm >= lo) & (c.bpm <= hi) & (c.confidence >= 0.1) & (c.confidence <= 1.0), 23); }
            }
            Err(_) => check(bad, 24),
        }
    }
    //@ "ids": [25], "bounds": "arguments: every resolution from the least positive number up to 2^-20 BPM on tempo limits 60..200 and 1..32 BPM (steps lost in rounding), and unbounded limits: errors, not endless search"
    fn h_p13_tiny() {
        let (lo, hi) = [(60.0f32, 200.0f32), (60.0, f32::INFINITY), (1.0, 1e30)][choose(3)];
        let res = any_f32();
        assume((res > 0.0) & (res <= 9.5367e-7));
        check(estimate_bpm_from_comb_filter(&[0, 4000], 8000, 512, lo, hi, res).is_err(), 25);
    }
    //@ "ids": [31, 32, 33], "split": [4, 3], "w": 4, "bounds": "two-stage search: tempo range 119..122 or 120..123 (coarse step 2, fine step 0.5), 3 onsets within 1.6 s with one free, refinement range 0.5, 1 or 3 BPM: the result never leaves the tempo range nor the refinement range around the best coarse tempo, its best has confidence 1"
    fn h_p13_fine() {
        let pat = choose(4);
        let rr = [0.5f32, 1.0, 3.0][choose(3)];
        let (lo, hi) = [(119.0f32, 122.0f32), (120.0, 123.0)][choose(2)];
        let x = us(0, 43999);
        let on: Vec<usize> = match pat { 0 => vec![44000, 22050, x], 1 => vec![66000, 0, x], 2 => vec![x, 44100, 21000], _ => vec![x, 70000] };
        match (coarse_to_fine_search(&on, 44100, 512, lo, hi, rr), estimate_bpm_from_comb_filter(&on, 44100, 512, lo, hi, 2.0)) {
            (Ok(r), Ok(c)) => {
                check(r.is_empty() == c.is_empty(), 31);
                for i in 0..r.len() {
                    check((r[i].bpm >= lo) & (r[i].bpm <= hi) & ((r[i].bpm - c[0].bpm).abs() <= rr), 32);
                    check(i == 0 || r[i - 1].confidence >= r[i].confidence, 33);
                }
                if !r.is_empty() { check(r[0].confidence == 1.0, 34); }
            }
            _ => check(false, 35),
        }
    }
}
