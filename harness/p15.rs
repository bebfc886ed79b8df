use super::*;
use stratum_dsp::features::beat_tracking::hmm::HmmBeatTracker;
/*@{"assumptions": ["onset times on a grid of 1/1024 s (exact sums)", "tempi whose beat interval is a power of two of a second for free onsets; others with fixed onsets"]}@*/

/// an onset supports a beat when it lies within 0.025 * sqrt(2 ln 10) s = 53.65 ms of it
const REACH: f32 = 0.0536492;

/// beats expected on the grid start, start+T, ...; `nf` of them examined
fn verify(on: &[f32], nf: usize, bpm: f32, conf: bool) {
    let t = 60.0 / bpm;
    let r = match HmmBeatTracker::new(bpm, on.to_vec(), 44100).track_beats() { Ok(r) => r, Err(_) => { check(false, 9); return } };
    let mut n = 0;
    for k in 0..nf {
        let e = on[0] + k as f32 * t;
        let mut sup = false;
        for &o in on { sup |= (o - e).abs() < REACH; }
        if conc(sup as usize) == 1 {
            check(n < r.len(), 1);
            if n >= r.len() { return; }
            check(r[n].time_seconds == e, 2);
            check((r[n].confidence > 0.0) & (r[n].confidence <= 1.0), 3);
            if conf {
                let mut d = 1e9f32;
                for &o in on { let x = (o - e).abs(); d = if x < d { x } else { d }; }
                let w = 0.7 * (-(d * d) / 0.00125).exp() + 0.3 * if d < 0.05 { 1.0 - d / 0.05 } else { 0.0 };
                check(close(r[n].confidence, w, 1e-5), 4);
            }
            n += 1;
        }
    }
    check(n == r.len(), 5);
    obs(n as u32);
}

harnesses! {
    //@ "ids": [1, 2, 3, 5], "split": [3, 3], "w": 3, "quick_ms": 20000, "bounds": "120, 60 or 240 BPM; first onset anywhere on the grid in [0, 4 s], two inner onsets (one beyond two intervals) free over the whole span, the last free inside one of 3 (thorough 6) beat intervals"
    fn h_p15_free() {
        let bpm = [120.0f32, 60.0, 240.0][choose(3)];
        let t = (60.0 / bpm * 1024.0) as i32;
        let j = choose(tier(3, 6)) as i32 + 1;
        let a = int(0, 4096);
        let last = a + (j - 1) * t + int(1, t);
        let f = |x: i32| x as f32 / 1024.0;
        let m1 = a + int(0, (j - 1) * t);
        if j > 2 { verify(&[f(a), f(m1), f(last)], j as usize + 1, bpm, false); return; }
        let m2 = a + int(0, (j - 1) * t);
        verify(&[f(a), f(m1), f(m2), f(last)], j as usize + 1, bpm, false);
    }
    //@ "ids": [1, 2, 3, 4, 5], "split": [3], "w": 2, "bounds": "confidence: onsets on every beat except one displaced by every k/1024 s in [-64,64] (each fixed by the executor), 120, 100 or 187.5 BPM, 5 beats, displaced beat 1..3"
    fn h_p15_conf() {
        let bpm = [120.0f32, 100.0, 187.5][choose(3)];
        let p = 1 + choose(3);
        let d = (conc(us(0, 128)) as f32 - 64.0) / 1024.0;
        let t = 60.0 / bpm;
        let on: Vec<f32> = (0..5).map(|i| 1.0 + i as f32 * t + if i == p { d } else { 0.0 }).collect();
        let nf = ((on[4] - on[0]) / t).ceil() as usize + 1;
        verify(&on, nf, bpm, true);
    }
    //@ "ids": [11, 12], "split": [3], "bounds": "every tempo (all f32 including NaN): zero, negative and above 300 are errors, and with no onset every tempo is; one onset gives one beat at it with confidence 1"
    fn h_p15_args() {
        let n = choose(3);
        let bpm = if n == 2 { [0.0f32, -1.0, 300.5, 1e-11, f32::NEG_INFINITY, f32::INFINITY][choose(6)] } else { any_f32() };
        assume(!bpm.is_nan());
        let on: Vec<f32> = if n == 0 { vec![] } else { vec![dy(0, 4096, 10); n] };
        match HmmBeatTracker::new(bpm, on.clone(), 44100).track_beats() {
            Ok(r) => {
                check((n > 0) & (bpm > 0.0) & (bpm <= 300.0), 11);
                check(r.len() == 1 && (r[0].time_seconds == on[0]) & (r[0].confidence >= 0.999), 12);
            }
            Err(_) => check((n == 0) | (bpm <= 1e-10) | (bpm > 300.0), 13),
        }
    }
}
