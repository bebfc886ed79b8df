use super::*;
use stratum_dsp::features::chroma::normalization::{l2_normalize_chroma, sharpen_chroma};
/*@{"assumptions": ["chroma values on dyadic grids (several magnitudes), powers from a table", "at most 12 pitch classes"]}@*/

fn unit_norm(r: &[f32]) -> bool { let mut s = 0.0f32; for &x in r { s += x * x; } (s - 1.0).abs() < 1e-4 }

harnesses! {
    //@ "ids": [1, 2], "split": [5, 4], "w": 3, "bounds": "length normalization: 1..4 free values k*2^-s, k in [0,15] (one signed), s = 0, 4, 12, 24 or 30: each output is the value divided by the Euclidean length"
    fn h_p21_l2() {
        let s = [0i32, 4, 12, 24, 30][choose(5)];
        let n = choose_in(1, 4);
        let sc = 1.0 / (1u32 << s) as f32;
        let c: Vec<f32> = (0..n).map(|i| int(if i == 1 { -15 } else { 0 }, 15) as f32 * sc).collect();
        let mut q = 0.0f32;
        for &x in &c { q += x * x; }
        assume(q > 0.0);
        let r = l2_normalize_chroma(&c);
        check(r.len() == n, 1);
        if r.len() == n { let l = q.sqrt(); for i in 0..n { check(close(r[i], c[i] / l, 1e-6), 2); } }
    }
    //@ "ids": [1, 3, 4], "split": [4], "w": 2, "bounds": "length normalization of 12 values: 3 profiles with every value k/8 in [0,2] at two positions (fixed by the executor), scaled by 1, 2^-10, 2^-28 or 2^10: unit length, ratios kept, the same for every scale"
    fn h_p21_profile() {
        let sc = [1.0f32, 0.0009765625, 3.7252903e-9, 1024.0][choose(4)];
        let mut b = [[1.0f32, 0.0, 0.5, 0.0, 0.75, 0.25, 0.0, 1.0, 0.0, 0.5, 0.0, 0.25], [0.0; 12], [0.125f32; 12]][choose(3)];
        b[3] = conc(us(0, 16)) as f32 / 8.0;
        b[11] = conc(us(0, 4)) as f32 / 2.0;
        let mut q = 0.0f32;
        for &x in &b { q += x * x; }
        if q == 0.0 { return; }
        let c: Vec<f32> = b.iter().map(|&x| x * sc).collect();
        let r = l2_normalize_chroma(&c);
        check(r.len() == 12, 1);
        if r.len() != 12 { return; }
        check(unit_norm(&r), 3);
        for i in 0..12 { check(close(r[i], b[i] / q.sqrt(), 1e-6), 4); }
    }
    //@ "ids": [11, 12, 13], "split": [5], "w": 3, "bounds": "sharpening by power 1, 2, 1.5, 3 or 0.5: 12 values, two of them every k/8 in [0,1] (fixed by the executor): unit length, each value raised to the power relative to the others"
    fn h_p21_sharpen() {
        let k = choose(5);
        let p = [1.0f32, 2.0, 1.5, 3.0, 0.5][k];
        let mut b = [[1.0f32, 0.0, 0.5, 0.0, 0.75, 0.25, 0.0, 1.0, 0.0, 0.5, 0.0, 0.25], [0.0; 12], [0.125f32; 12]][choose(3)];
        b[2] = conc(us(0, 8)) as f32 / 8.0;
        b[9] = conc(us(0, 4)) as f32 / 4.0;
        let w: Vec<f32> = b.iter().map(|&x| match k { 0 => x, 1 => x * x, 2 => x * x.sqrt(), 3 => x * x * x, _ => x.sqrt() }).collect();
        let mut q = 0.0f32;
        for &x in &w { q += x * x; }
        let r = sharpen_chroma(&b, p);
        check(r.len() == 12, 11);
        if r.len() != 12 { return; }
        check(unit_norm(&r), 12);
        for i in 0..12 { check(close(r[i], if q > 0.0 { w[i] / q.sqrt() } else { 0.28867513 }, 1e-5), 13); }
    }
    //@ "ids": [21, 22], "bounds": "silence: 1..12 values below 2^-36 in magnitude become uniform with unit length under both; no values give none; the input is not needed to be sorted or positive"
    fn h_p21_silent() {
        let n = choose(13);
        let x = int(-3, 3) as f32 * 2.910383e-12;
        let mut c = vec![0.0f32; n];
        if n > 0 { c[n / 2] = x; }
        let r = l2_normalize_chroma(&c);
        let z = sharpen_chroma(&vec![0.0; n], 2.0);
        check(r.len() == n && z.len() == n, 21);
        if r.len() != n || z.len() != n { return; }
        let u = 1.0 / (n as f32).sqrt();
        for i in 0..n { check(close(r[i], u, 1e-6) & close(z[i], u, 1e-6), 22); }
    }
}
