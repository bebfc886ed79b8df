use super::*;
use stratum_dsp::features::onset::hpss::*;
/*@{"assumptions": ["non-negative magnitudes", "exact separation is claimed for sustained tones, clicks and uniform spectra; range, sum and shape for arbitrary small spectra on a grid"]}@*/

fn med(v: &mut Vec<f32>) -> f32 {
    let n = v.len();
    for i in 1..n { let mut j = i; while j > 0 && v[j - 1] > v[j] { v.swap(j - 1, j); j -= 1; } }
    if n % 2 == 0 { (v[n / 2 - 1] + v[n / 2]) * 0.5 } else { v[n / 2] }
}
/// reference: ten rounds of median filtering along time (harmonic) and frequency (percussive), the input shared out in proportion
fn reference(s: &[Vec<f32>], m: usize) -> (Vec<Vec<f32>>, Vec<Vec<f32>>) {
    let (nf, nb) = (s.len(), s[0].len());
    let (mut h, mut p) = (s.to_vec(), s.to_vec());
    for it in 0..10 {
        let (oh, op) = (h.clone(), p.clone());
        let mut ch = 0.0f32;
        for i in 0..nf { for k in 0..nb {
            let mut a: Vec<f32> = (if i > m { i - m } else { 0 }..if i + m + 1 < nf { i + m + 1 } else { nf }).map(|f| oh[f][k]).collect();
            let mut b: Vec<f32> = (if k > m { k - m } else { 0 }..if k + m + 1 < nb { k + m + 1 } else { nb }).map(|x| op[i][x]).collect();
            let (x, y) = (med(&mut a), med(&mut b));
            let r = if x + y > 1e-10 { x / (x + y) } else { 0.5 };
            h[i][k] = s[i][k] * r;
            p[i][k] = s[i][k] * (1.0 - r);
            let d = (h[i][k] - oh[i][k]).abs();
            if d > ch { ch = d; }
            let d = (p[i][k] - op[i][k]).abs();
            if d > ch { ch = d; }
        } }
        if it > 0 && ch < 1e-6 { break; }
    }
    (h, p)
}
fn lvl() -> f32 { f_in(0.001953125, 1024.0) }

fn same_as_reference(s: &[Vec<f32>], m: usize, h: &[Vec<f32>], p: &[Vec<f32>]) {
    let (rh, rp) = reference(s, m);
    for i in 0..s.len() { for k in 0..s[0].len() { check(close(h[i][k], rh[i][k], 1e-4) & close(p[i][k], rp[i][k], 1e-4), 61); } }
}

harnesses! {
    //@ "ids": [1, 2], "split": [3], "w": 2, "bounds": "sustained tones: 3..6 frames x 4..7 bins, tones of symbolic level (any f32 in [1/512,1024]) in one or two bins more than margin apart, margin 1..3: all energy harmonic, none percussive"
    fn h_p10_tone() {
        let margin = 1 + choose(3);
        let nf = choose_in(2, tier(4, 6));
        let nb = choose_in(2 * margin + 2, 2 * margin + tier(3, 4));
        let b0 = choose(nb);
        if margin == 1 && (b0 == 0 || b0 == nb - 1) { return; }
        let a = lvl();
        let c = lvl();
        let two = choose(2) == 1;
        let b1 = b0 + 2 * margin + 1;
        if two && (b1 >= nb || (margin == 1 && b1 == nb - 1)) { return; }
        // near the edge the window shrinks: keep the tone a minority of every window
        let s: Vec<Vec<f32>> = (0..nf).map(|_| (0..nb).map(|k| if k == b0 { a } else if two && k == b1 { c } else { 0.0 }).collect()).collect();
        match hpss_decompose(&s, margin) {
            Ok((h, p)) => {
                check((h.len() == nf) & (p.len() == nf), 1);
                for i in 0..nf { for k in 0..nb { check((h[i][k] == s[i][k]) & (p[i][k] == 0.0), 2); } }
            }
            Err(_) => check(false, 3),
        }
    }
    //@ "ids": [11, 12], "split": [3], "w": 2, "bounds": "clicks: one or two frames of symbolic level with all bins equal, margin 1..3: all energy percussive, none harmonic"
    fn h_p10_click() {
        let margin = 1 + choose(3);
        let nb = choose_in(2, tier(4, 6));
        let nf = choose_in(2 * margin + 2, 2 * margin + tier(3, 4));
        let f0 = choose(nf);
        if margin == 1 && (f0 == 0 || f0 == nf - 1) { return; }
        let a = lvl();
        let s: Vec<Vec<f32>> = (0..nf).map(|i| (0..nb).map(|_| if i == f0 { a } else { 0.0 }).collect()).collect();
        match hpss_decompose(&s, margin) {
            Ok((h, p)) => {
                check((h.len() == nf) & (p.len() == nf), 11);
                for i in 0..nf { for k in 0..nb { check((p[i][k] == s[i][k]) & (h[i][k] == 0.0), 12); } }
            }
            Err(_) => check(false, 13),
        }
    }
    //@ "ids": [21], "split": [4], "bounds": "uniform spectra of any symbolic level, margin 0..3: halves"
    fn h_p10_uniform() {
        let margin = choose(4);
        let (nf, nb) = (choose_in(1, 4), choose_in(1, 4));
        let a = lvl();
        let s = vec![vec![a; nb]; nf];
        match hpss_decompose(&s, margin) {
            Ok((h, p)) => for i in 0..nf { for k in 0..nb { check((h[i][k] == a * 0.5) & (p[i][k] == a * 0.5), 21); } },
            Err(_) => check(false, 22),
        }
    }
    //@ "ids": [31, 32], "split": [3], "w": 4, "bounds": "tone and click crossing in spectra of 5x5 to 9x9 cells at three (thorough: all) positions each, two (four) relative levels, with or without background; margin 1..3: h, p non-negative, sum to the input within 1e-4 relative, tone cells more harmonic, click cells more percussive; for margin 1 also equal to the reference separation"
    fn h_p10_cross() {
        let margin = 1 + choose(3);
        let n = 2 * margin + 3;
        let pos = [1, n / 2, n - 1];
        let (f0, b0) = if thorough() { (choose(n), choose(n)) } else { (pos[choose(3)], pos[choose(3)]) };
        let t = [1.0f32, 8.0, 0.5, 2.0][choose(tier(2, 4))];
        let bg = [0.0f32, 0.0625][choose(2)];
        let s: Vec<Vec<f32>> = (0..n).map(|i| (0..n).map(|k| if i == f0 && k == b0 { 1.0 + t } else if k == b0 { t } else if i == f0 { 1.0 } else { bg }).collect()).collect();
        match hpss_decompose(&s, margin) {
            Ok((h, p)) => { if margin == 1 || thorough() { same_as_reference(&s, margin, &h, &p); } for i in 0..n { for k in 0..n {
                let (a, b) = (h[i][k], p[i][k]);
                check((a >= 0.0) & (b >= 0.0) & ((a + b - s[i][k]).abs() <= s[i][k] * 1e-4), 31);
                let mid = (i != f0) | (k != b0);
                if mid && k == b0 { check(a > b, 32); }
                if mid && i == f0 { check(b > a, 32); }
            } } },
            Err(_) => check(false, 33),
        }
    }
    //@ "ids": [41], "bounds": "empty spectrum, empty frames, ragged frames: error; any sample bits, margin up to 2^40"
    fn h_p10_args() {
        let nf = choose(4);
        let nb = choose(3);
        let rag = choose(2) == 1 && nf >= 2;
        let margin = [0usize, 1, 5, 1 << 40][choose(4)];
        let sp = [f32::NAN, f32::INFINITY, f32::MAX, 0.0][choose(4)];
        let s: Vec<Vec<f32>> = (0..nf).map(|i| (0..if rag && i == nf - 1 { nb + 1 } else { nb }).map(|k| if i == 0 && k == 0 { sp } else { 0.25 * (i + k) as f32 }).collect()).collect();
        match hpss_decompose(&s, margin) {
            Ok((h, p)) => check((nf > 0) & (nb > 0) & !rag & (h.len() == nf) & (p.len() == nf) & h.iter().all(|f| f.len() == nb) & p.iter().all(|f| f.len() == nb), 41),
            Err(_) => check((nf == 0) | (nb == 0) | rag, 42),
        }
    }
    //@ "ids": [51, 52, 61], "split": [2, 2], "w": 4, "bounds": "2x2 and 2x3 spectra of every value k/2, k<=3 (fixed by the executor), margin 0..1: parts non-negative, never above the input, summing to it, equal to the reference separation"
    fn h_p10_small() {
        let margin = choose(2);
        let nb = 2 + choose(2);
        let s: Vec<Vec<f32>> = (0..2).map(|i| (0..nb).map(|k| if i == 1 && k == 2 { 1.5 } else { conc(us(0, 3)) as f32 * 0.5 }).collect()).collect();
        match hpss_decompose(&s, margin) {
            Ok((h, p)) => { same_as_reference(&s, margin, &h, &p); for i in 0..2 { for k in 0..nb {
                let (a, b) = (h[i][k], p[i][k]);
                check((a >= 0.0) & (b >= 0.0) & (a <= s[i][k]) & (b <= s[i][k]), 51);
                check((a + b - s[i][k]).abs() <= s[i][k] * 1e-4, 52);
            } } },
            Err(_) => check(false, 53),
        }
    }
    //@ "ids": [61], "split": [3], "w": 3, "bounds": "5 frames x 4 bins of three fixed textures with three cells free on k/2 in [0,2] (thorough: four cells; fixed by the executor), margin 0..2: equal to the reference separation, tolerance 1e-4"
    fn h_p10_texture() {
        let t = choose(3);
        let margin = choose(3);
        let mut s: Vec<Vec<f32>> = (0..5usize).map(|i| (0..4usize).map(|k| match t { 0 => ((i * 3 + k * 5) % 7) as f32 / 4.0, 1 => if (i + k) % 2 == 0 { 1.0 } else { 0.25 }, _ => (i * k) as f32 / 8.0 }).collect()).collect();
        for &(i, k) in &[(0usize, 1usize), (2, 2), (4, 3), (3, 0)][..tier(3, 4)] { s[i][k] = conc(us(0, 4)) as f32 / 2.0; }
        match hpss_decompose(&s, margin) { Ok((h, p)) => same_as_reference(&s, margin, &h, &p), Err(_) => check(false, 62) }
    }
}
