use super::*;
use stratum_dsp::preprocessing::normalization::*;
/*@{"assumptions": ["headroom 0, 1 or 6 dB (peak harness also -3), loudest sample on the grid k/16 up to 2.0; other samples arbitrary f32 up to the loudest"]}@*/

fn cfg(m: NormalizationMethod, lufs: f32, head: f32) -> NormalizationConfig {
    NormalizationConfig { target_loudness_lufs: lufs, max_headroom_db: head, method: m }
}
const HEAD: [f32; 4] = [0.0, 1.0, 6.0, -3.0];
const PK: [i32; 10] = [1, 2, 3, 5, 8, 13, 15, 16, 21, 32];

fn wave(wv: usize) -> Vec<f32> {
    let n = [5usize, 3500, 200, 4500][wv];
    (0..n).map(|i| if wv == 1 && i >= 1000 && i < 3100 { 0.0 } else { (((i * 37 + 11) % 64) as f32 - 31.5) / [40.0, 100.0, 33.0, if i >= 1600 && i < 3200 { 1e7 } else { 64.0 + (i / 100) as f32 }][wv] }).collect()
}
/// reference loudness: K-weighting high-pass, mean square of 400 ms blocks, blocks at or below -70 LUFS left out
fn loudness(x: &[f32], sr: f32) -> f32 {
    let sr = sr as f64;
    let w0 = 2.0 * std::f64::consts::PI * 1681.9745 / sr;
    let (c, al) = (w0.cos(), w0.sin() / 2.0 * (1.0f64 / 0.707).sqrt());
    let a0 = 1.0 + al;
    let (b0, b1, b2, a1, a2) = ((1.0 + c) / 2.0 / a0, -(1.0 + c) / a0, (1.0 + c) / 2.0 / a0, -2.0 * c / a0, (1.0 - al) / a0);
    let (mut x1, mut x2, mut y1, mut y2) = (0.0f64, 0.0f64, 0.0f64, 0.0f64);
    let mut blocks = vec![];
    let bs = (sr * 0.4 + 1e-3) as usize;
    let (mut e, mut k) = (0.0f64, 0usize);
    for &s in x {
        let s = s as f64;
        let y = b0 * s + b1 * x1 + b2 * x2 - a1 * y1 - a2 * y2;
        x2 = x1; x1 = s; y2 = y1; y1 = y;
        e += y * y; k += 1;
        if k == bs { blocks.push(e / k as f64); e = 0.0; k = 0; }
    }
    if k > 0 { blocks.push(e / k as f64); }
    let gate = 10.0f64.powf((-70.0 + 0.691) / 10.0);
    let (mut t, mut m) = (0.0f64, 0);
    for &b in &blocks { if b > gate { t += b; m += 1; } }
    (-0.691 + 10.0 * (t / m as f64).log10()) as f32
}
harnesses! {
    //@ "uniq": 1, "ids": [1, 2, 3, 4, 5, 6], "split": [4], "w": 3, "bounds": "peak method: 1..3 samples, loudest sample concrete from 10 levels 1/16..2 at every position and sign, others every f32 within it; headroom 0/1/6/-3 dB"
    fn h_p05_peak() {
        let hi = choose(4);
        let pk = PK[choose(10)] as f32 / 16.0;
        let n = choose_in(1, tier(2, 4));
        let p = choose(n);
        let neg = choose(2) == 1;
        let mut x: Vec<f32> = (0..n).map(|i| if i == p { if neg { -pk } else { pk } } else { f_in(-pk, pk) }).collect();
        let orig = x.clone();
        let md = match normalize(&mut x, cfg(NormalizationMethod::Peak, -14.0, HEAD[hi]), 44100.0) { Ok(m) => m, Err(_) => { check(false, 7); return; } };
        // one common gain: target/peak, never past full scale
        let target = 10.0f32.powf(-HEAD[hi] / 20.0).min(1.0);
        let g = target / pk;
        for i in 0..n {
            check(close(x[i], orig[i] * g, 1e-5), 1);
            check(x[i].abs() <= 1.000001, 2);
            check((x[i] >= 0.0) | (orig[i] <= 0.0), 3);
        }
        check(close(x[p].abs(), target, 1e-5), 4);
        check(close(md.gain_db, 20.0 * g.log10(), 1e-3), 5);
        check(close(md.peak_db, 20.0 * pk.log10(), 1e-3) & md.measured_lufs.is_none(), 6);
    }
    //@ "uniq": 1, "ids": [11, 12, 13, 14, 15], "split": [3], "w": 3, "bounds": "RMS method: 1..3 samples on the grid k/4 in [-1,1] (thorough k/8), targets -20/-14/-3, headroom 0/1/6 dB"
    fn h_p05_rms() {
        let head = HEAD[choose(3)];
        let lufs = [-20.0f32, -14.0, -3.0][choose(3)];
        let n = choose_in(1, tier(2, 3));
        let lim = tier(4, 8) as i32;
        let k: Vec<i32> = (0..n).map(|_| int(-lim, lim)).collect();
        let mut sq = 0;
        let mut pk = 0;
        for i in 0..n { sq += k[i] * k[i]; pk = pk.max(k[i].abs()); }
        let sq = conc(sq as usize);
        let pk = conc(pk as usize);
        let mut x: Vec<f32> = k.iter().map(|&v| v as f32 / lim as f32).collect();
        let orig = x.clone();
        let md = match normalize(&mut x, cfg(NormalizationMethod::RMS, lufs, head), 44100.0) { Ok(m) => m, Err(_) => { check(false, 16); return; } };
        if sq == 0 {
            for i in 0..n { check(x[i] == 0.0, 11); }
            check((md.gain_db == 0.0) & (md.rms_db == f32::NEG_INFINITY) & (md.peak_db == f32::NEG_INFINITY), 12);
        } else {
            let rms = (sq as f32 / (lim * lim) as f32 / n as f32).sqrt();
            let peak = pk as f32 / lim as f32;
            let g = (10.0f32.powf((lufs + 3.0 - head) / 20.0) / rms).min(1.0 / peak);
            for i in 0..n {
                check(close(x[i], orig[i] * g, 1e-5), 13);
                check(x[i].abs() <= 1.000001, 14);
            }
            check(close(md.gain_db, 20.0 * g.log10(), 1e-3) & close(md.rms_db, 20.0 * rms.log10(), 1e-3) & close(md.peak_db, 20.0 * peak.log10(), 1e-3), 15);
        }
    }
    //@ "ids": [21], "bounds": "silent input: 1..4 samples of magnitude <= 1e-10, all three methods: samples and reported gain unchanged (peak, loudness) "
    fn h_p05_silent() {
        let m = [NormalizationMethod::Peak, NormalizationMethod::RMS, NormalizationMethod::Loudness][choose(3)];
        let n = choose_in(1, 3);
        let mut x: Vec<f32> = (0..n).map(|_| f_in(-9e-11, 9e-11)).collect();
        let orig = x.clone();
        match normalize(&mut x, cfg(m, -14.0, 1.0), 44100.0) {
            Ok(md) => {
                for i in 0..n { check(x[i] == orig[i], 21); }
                check(md.gain_db == 0.0, 22);
            }
            Err(_) => check(false, 23),
        }
    }
    //@ "ids": [31, 32], "bounds": "empty input and non-positive sample rate: error, no panic; all methods, any config numbers"
    fn h_p05_args() {
        let m = [NormalizationMethod::Peak, NormalizationMethod::RMS, NormalizationMethod::Loudness];
        let mut e: Vec<f32> = vec![];
        check(normalize(&mut e, cfg(m[choose(3)], any_f32(), any_f32()), any_f32()).is_err(), 31);
        let mut x = vec![0.5f32, -0.25];
        let sr = f_in(-1e6, 0.0);
        check(normalize(&mut x, cfg(NormalizationMethod::Loudness, -14.0, 1.0), sr).is_err(), 32);
        check((x[0] == 0.5) & (x[1] == -0.25), 33);
    }
    //@ "uniq": 1, "ids": [41, 42, 43, 44, 45, 46, 47], "split": [4], "w": 2, "bounds": "loudness method: 4 fixed waveforms (5, 200, 3500 and 4500 samples: one to three blocks, one of them gated), every target in [-40,0] LUFS, headroom 0/1/6 dB"
    fn h_p05_lufs() {
        let wv = choose(4);
        let head = HEAD[choose(3)];
        let sr = [8000.0f32, 8000.0, 44100.0, 4000.0][wv];
        let mut x = wave(wv);
        let n = x.len();
        let orig = x.clone();
        let lufs = f_in(-40.0, 0.0);
        let md = match normalize(&mut x, cfg(NormalizationMethod::Loudness, lufs, head), sr) { Ok(m) => m, Err(_) => { check(false, 48); return; } };
        let ceil = 10.0f32.powf(-head / 20.0);
        let peak = orig.iter().fold(0.0f32, |a, &b| a.max(b.abs()));
        let rms = (orig.iter().fold(0.0f64, |a, &b| a + b as f64 * b as f64) / n as f64).sqrt() as f32;
        let lvl = match md.measured_lufs { Some(v) => v, None => { check(false, 49); return; } };
        check(close(lvl, loudness(&orig, sr), 0.02), 45);
        let lim = 20.0 * (ceil / peak).log10();
        // reported gain: whatever reaches the target, limited by the headroom
        check(close(md.gain_db, (lufs - lvl).min(lim), 1e-3), 41);
        for i in [0, 1, 2, 3, 4, n / 2, n - 1] {
            check(x[i].abs() <= ceil + 1e-5, 42);
            check((x[i] >= 0.0) == (orig[i] >= 0.0), 43);
        }
        check(close(md.peak_db, 20.0 * peak.log10(), 1e-3), 44);
        check(close(md.rms_db, 20.0 * rms.log10(), 1e-2), 46);
        check(x.len() == n, 47);
    }
    //@ "ids": [51, 52], "split": [4, 3], "bounds": "loudness method, 4 fixed waveforms, targets -40/-23/-14/-9/0 LUFS, headroom 0/1/6 dB: every sample multiplied by the gain reported"
    fn h_p05_lufs_gain() {
        let wv = choose(4);
        let head = HEAD[choose(3)];
        let sr = [8000.0f32, 8000.0, 44100.0, 4000.0][wv];
        let mut x = wave(wv);
        let orig = x.clone();
        let lufs = [-40.0f32, -23.0, -14.0, -9.0, 0.0][choose(5)];
        let md = match normalize(&mut x, cfg(NormalizationMethod::Loudness, lufs, head), sr) { Ok(m) => m, Err(_) => { check(false, 53); return; } };
        let g = 10.0f32.powf(md.gain_db / 20.0);
        let mut ok = x.len() == orig.len();
        for i in 0..orig.len() { ok &= close(x[i], orig[i] * g, 1e-4 * g); }
        check(ok, 51);
        check(close(md.gain_db, (lufs - loudness(&orig, sr)).min(20.0 * (10.0f32.powf(-head / 20.0) / orig.iter().fold(0.0f32, |a, &b| a.max(b.abs()))).log10()), 0.03), 52);
    }
}
