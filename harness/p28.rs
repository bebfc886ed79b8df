use super::*;
use stratum_dsp::features::chroma::extractor::{extract_hpcp_bass_blend_from_spectrogram_with_options_and_energy_tuned as blend, extract_hpcp_from_spectrogram_with_options_and_energy_tuned as hpcp};
/*@{"assumptions": ["levels from tables and grids, fixed by the executor (they pass through pow)", "peaks tied in height at the limit of the number kept, and partials within 1e-3 semitones of the middle between two pitch classes, are not compared"]}@*/

struct Opt { sr: u32, fft: usize, sigma: f32, tune: f32, peaks: usize, harm: usize, decay: f32, pow: f32, white: usize }
/// whitened level: relative to the mean over the window cut at the ends, at most 20
fn whiten(f: &[f32], win: usize) -> Vec<f64> {
    let h = (win | 1) / 2;
    (0..f.len()).map(|i| {
        let (a, b) = (if i > h { i - h } else { 0 }, if i + h < f.len() { i + h } else { f.len() - 1 });
        let mut s = 0.0f64;
        for k in a..=b { if f[k] > 0.0 { s += f[k] as f64; } }
        let x = if f[i] > 0.0 { f[i] as f64 } else { 0.0 };
        if x == 0.0 { 0.0 } else { (x / (s / (b - a + 1) as f64)).min(20.0) }
    }).collect()
}
fn profile(f: &[f32], o: &Opt, lo: f32, hi: f32, keep: usize) -> Option<[f64; 12]> {
    let res = o.sr as f64 / o.fft as f64;
    let (lo, hi) = ((lo as f64).max(20.0), (hi as f64).min(o.sr as f64 / 2.0));
    let mut out = [0.0f64; 12];
    let v: Vec<f64> = if o.white >= 3 { whiten(f, o.white) } else { f.iter().map(|&x| x as f64).collect() };
    let mut pk: Vec<(usize, f64)> = Vec::new();
    for b in 1..f.len() - 1 {
        let q = b as f64 * res;
        if q < lo || q > hi { continue; }
        if (v[b] != v[b - 1] && (v[b] - v[b - 1]).abs() < 1e-4) || (v[b] != v[b + 1] && (v[b] - v[b + 1]).abs() < 1e-4) { return None; }
        if v[b] > v[b - 1] && v[b] >= v[b + 1] { pk.push((b, v[b])); }
    }
    for i in 1..pk.len() { let mut j = i; while j > 0 && pk[j - 1].1 < pk[j].1 { pk.swap(j - 1, j); j -= 1; } }
    let keep = keep.max(1);
    if pk.len() > keep { if (pk[keep - 1].1 - pk[keep].1).abs() < 1e-4 { return None; } pk.truncate(keep); }
    for &(b, _) in &pk {
        let f0 = b as f64 * res;
        let w0 = if f[b] > 0.0 { (f[b] as f64).powf(o.pow.max(0.05).min(1.0) as f64) } else { continue };
        for h in 1..=o.harm.max(1) {
            let q = f0 * h as f64;
            if q > hi { break; }
            let s = 12.0 * (q / 440.0).log2() + 57.0 - o.tune as f64;
            if ((s - s.floor()) - 0.5).abs() < 1e-3 { return None; }
            let mut g = w0 / h as f64;
            for _ in 1..h { g *= o.decay.max(0.0).min(1.0) as f64; }
            let k = s.round();
            for d in -1i32..=1 {
                let x = s - (k + d as f64);
                let sg = o.sigma.max(1e-6) as f64;
                out[((k as i32 + d + 120) % 12) as usize] += g * (-x * x / (2.0 * sg * sg)).exp();
            }
        }
    }
    unit(&mut out);
    Some(out)
}
fn unit(o: &mut [f64; 12]) { let mut q = 0.0; for x in o.iter() { q += x * x; } if q > 1e-18 { let l = q.sqrt(); for x in o.iter_mut() { *x /= l; } } }
fn matches(c: &[f32], e: &[f64; 12]) -> bool { c.len() == 12 && (0..12).all(|i| (c[i] as f64 - e[i]).abs() <= 3e-4) }
fn verify(fr: &[Vec<f32>], inner: &[Vec<f32>], o: &Opt) {
    let (c, e) = match hpcp(fr, o.sr, o.fft, o.sigma, o.tune, o.peaks, o.harm, o.decay, o.pow, o.white > 0, o.white) { Ok(x) => x, Err(_) => { check(false, 9); return } };
    check(c.len() == fr.len() && e.len() == fr.len(), 1);
    if c.len() != fr.len() || e.len() != fr.len() { return; }
    for i in 0..fr.len() {
        let mut q = 0.0f32;
        for &x in &fr[i] { q += x * x; }
        check(close(e[i], q, 1e-3), 2);
        if let Some(w) = profile(&inner[i], o, 100.0, 5000.0, o.peaks) { check(matches(&c[i], &w), 3); }
    }
}
fn bed(k: usize, n: usize) -> Vec<f32> { (0..n).map(|b| match k { 0 => 0.0f32, 1 => 0.125, _ => ((b * 5) % 7) as f32 * 0.0625 }).collect() }

harnesses! {
    //@ "ids": [1, 2, 3], "split": [3, 4], "w": 3, "bounds": "one frame of 33 bins at 8 or 11.025 kHz: peaks at every bin (fixed by the executor) and at two of a table over three beds, levels k/4, 1..4 or 100 peaks kept, 1 or 4 harmonics, decay 0.7, 0 and 2, powers 0.5, 1 and 0, soft width 0.5 and 0.25, two tunings; the level of the last bin free (k/16 in [0,1])"
    fn h_p28_peaks() {
        let k = choose(3);
        let keep = [1usize, 2, 3, 100][choose(4)];
        let v = choose(4);
        let o = Opt { sr: [8000, 11025, 8000, 8000][v], fft: 64, sigma: [0.5, 0.25, 0.5, 1.0][v], tune: [0.0, 0.25, -0.375, 0.0][v], peaks: keep, harm: [1, 4, 3, 8][v], decay: [0.7, 0.7, 0.0, 2.0][v], pow: [0.5, 1.0, 0.0, 0.6][v], white: 0 };
        let mut f = bed(k, 33);
        let p = conc(us(1, 31));
        f[p] += [1.0f32, 0.5][choose(2)];
        f[[4usize, 7][choose(2)]] += 0.75;
        f[21] += 0.5;
        f[32] = dy(0, 16, 4);
        let inner = vec![f.clone()];
        verify(&inner.clone(), &inner, &o);
    }
    //@ "ids": [1, 2, 3], "split": [3, 3], "w": 3, "bounds": "the same with whitening over 3, 4, 5, 9 or 101 bins (2 means none)"
    fn h_p28_white() {
        let k = choose(3);
        let keep = [1usize, 2, 100][choose(3)];
        let win = [3usize, 4, 9, 101, 2][choose(5)];
        let o = Opt { sr: 8000, fft: 64, sigma: 0.5, tune: 0.0, peaks: keep, harm: 2, decay: 0.6, pow: 0.5, white: win };
        let mut f = bed(k, 33);
        let p = conc(us(1, 31));
        f[p] += [1.0f32, 0.5][choose(2)];
        f[6] += 0.75;
        f[20] += 3.0;
        let inner = vec![f.clone()];
        verify(&inner.clone(), &inner, &o);
    }
    //@ "ids": [11, 12, 13], "split": [5, 2], "w": 3, "bounds": "bass blend: weights -1, 0, 0.25, 1 and 3, bass bands 100-400 Hz, 50-1000 Hz and 900-300 Hz (empty), a peak at every bin (fixed by the executor), 1, 2 or 40 peaks: (1-w) full-band plus w bass-band profile, unit length"
    fn h_p28_blend() {
        let w = [0.25f32, -1.0, 0.0, 1.0, 3.0][choose(5)];
        let keep = [2usize, 40][choose(2)];
        let (lo, hi) = [(100.0f32, 400.0f32), (50.0, 1000.0), (900.0, 300.0)][choose(3)];
        let o = Opt { sr: 8000, fft: 128, sigma: 0.5, tune: 0.0, peaks: keep, harm: 3, decay: 0.7, pow: 0.5, white: 0 };
        let mut f = bed(choose(2) * 2, 65);
        let p = conc(us(1, tier(24, 62)));
        f[p] += 1.0;
        f[5] += 0.5;
        f[30] += 0.75;
        let fr = vec![f.clone()];
        let (c, e) = match blend(&fr, o.sr, o.fft, o.sigma, o.tune, keep, o.harm, o.decay, o.pow, false, 0, lo, hi, w) { Ok(x) => x, Err(_) => { check(false, 19); return } };
        check(c.len() == 1 && e.len() == 1, 11);
        if c.len() != 1 || e.len() != 1 { return; }
        let mut q = 0.0f32;
        for &x in &f { q += x * x; }
        check(close(e[0], q, 1e-3), 12);
        let (a, b) = match (profile(&f, &o, 100.0, 5000.0, keep), if hi > lo { profile(&f, &o, lo, hi, keep.min(12)) } else { Some([0.0; 12]) }) { (Some(a), Some(b)) => (a, b), _ => return };
        let u = (w as f64).max(0.0).min(1.0);
        let mut m = [0.0f64; 12];
        for i in 0..12 { m[i] = (1.0 - u) * a[i] + u * b[i]; }
        unit(&mut m);
        check(matches(&c[0], &m), 13);
    }
    //@ "ids": [21, 22], "split": [7, 3], "bounds": "0..2 frames, empty and unequal frames, rates, FFT sizes and counts from tables (0 included), bass limits NaN, infinite or inverted; five levels in the first bin (fixed by the executor): errors exactly for empty or unequal frames, otherwise profiles of 12 values"
    fn h_p28_args() {
        let (sr, fft) = [(8000u32, 16usize), (44100, 16), (30, 16), (0, 16), (1, 16), (8000, 0), (u32::MAX, 16)][choose(7)];
        let bad = choose(3);
        let n = choose(3);
        let (lo, hi) = [(f32::NEG_INFINITY, 100.0f32), (5000.0, 100.0), (f32::INFINITY, f32::INFINITY), (f32::NAN, 1000.0), (30.0, f32::NAN)][choose(5)];
        let x = conc(us(0, 4)) as f32 - 2.0;
        let mut fr = vec![vec![x, 0.5, 0.25, 0.0, 1.0, 0.0, 0.5, 0.5, 0.5]; n];
        if n > 0 && bad == 1 { fr[n - 1] = vec![1.0; 8]; }
        if bad == 2 { for f in fr.iter_mut() { f.clear(); } }
        let err = (bad == 1 && n > 1) || (bad == 2 && n > 0);
        let okv = |c: &[Vec<f32>], e: &[f32]| c.len() == n && e.len() == n && c.iter().all(|f| f.len() == 12);
        check(match hpcp(&fr, sr, fft, 0.5, 0.0, 0, 0, 0.5, 0.5, true, 3) { Ok(r) => !err && okv(&r.0, &r.1), Err(_) => err }, 21);
        check(match blend(&fr, sr, fft, 0.5, 0.0, 3, 2, 0.5, 0.5, false, 3, lo, hi, 0.5) { Ok(r) => !err && okv(&r.0, &r.1), Err(_) => err }, 22);
    }
}
