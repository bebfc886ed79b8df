use super::*;
use stratum_dsp::preprocessing::silence::*;
/*@{"assumptions": ["samples lie on the grid k/8, |k|<=8 (quick) so that frame energies are exact", "thresholds -40, -12, -6, 0 dB"]}@*/

const DB: [f32; 4] = [-40.0, -12.0, -6.0, 0.0];
fn thr(i: usize) -> f32 { 10.0f32.powf(DB[i] / 20.0) }

/// reference: which analysis frames are silent.  Frames start every `hop` samples and cover the whole signal.
fn frames(x: &[f32], frame: usize, t: f32) -> (Vec<usize>, Vec<bool>) {
    let hop = (frame / 2).max(1);
    let mut starts = vec![];
    let mut sil = vec![];
    let mut s = 0;
    loop {
        let e = (s + frame).min(x.len());
        let mut sum = 0.0f32;
        for i in s..e { sum += x[i] * x[i]; }
        starts.push(s);
        sil.push((sum / (e - s) as f32).sqrt() <= t);
        if s + frame >= x.len() { break; }
        s += hop;
    }
    (starts, sil)
}

fn run(x: &[f32], sr: u32, ms: u32, frame: usize, di: usize) {
    let n = x.len();
    let r = detect_and_trim(x, sr, SilenceDetector { threshold_db: DB[di], min_duration_ms: ms, frame_size: frame });
    let (y, map) = match r { Ok(v) => v, Err(_) => { check(false, 1); return; } };
    let t = thr(di);
    // silence map: in bounds, non-empty, ordered, disjoint
    let mut prev = 0;
    for (i, &(a, b)) in map.iter().enumerate() {
        check((a < b) & (b <= n) & ((i == 0) | (a >= prev)), 2);
        prev = b;
    }
    // reference segmentation
    let hop = (frame / 2).max(1);
    let (starts, sil) = frames(x, frame, t);
    let nf = starts.len();
    let need = ((ms as f32 / 1000.0 * sr as f32) as usize).div_ceil(hop);
    let mut want = vec![];
    let mut i = 0;
    while i < nf {
        if sil[i] {
            let s = i;
            while i < nf && sil[i] { i += 1; }
            if i - s >= need || s == 0 {
                want.push((starts[s], if i < nf { starts[i] } else { n }));
            }
        } else { i += 1; }
    }
    check(map == want, 3);
    let a = if let Some(&(0, e)) = want.first() { e } else { 0 };
    let b = match want.last() { Some(&(s, e)) if e == n => s, _ => n };
    let b = b.max(a.min(b));
    if a < b {
        check(y.len() == b - a, 4);
        if y.len() == b - a { for j in 0..y.len() { check(y[j] == x[a + j], 5); } }
    } else { check(y.is_empty(), 6); }
    obs(y.len() as u32);
}

harnesses! {
    //@ "ids": [2, 3, 4, 5, 6], "split": [4, 4], "w": 3, "tbudget": 2000, "bounds": "1..7 samples (thorough 1..10) on the grid k/8 in [-1,1], frame size 1..4, thresholds -40/-12/-6/0 dB, minimum durations 0..3 ms at 1 kHz"
    fn h_p04_small() {
        let frame = 1 + choose(4);
        let di = choose(4);
        let ms = choose(4) as u32;
        let n = 1 + choose(tier(7, 10));
        let x: Vec<f32> = (0..n).map(|_| dy(-8, 8, 3)).collect();
        run(&x, 1000, ms, frame, di);
    }
    //@ "ids": [11], "split": [3], "w": 2, "bounds": "6..9 samples with one loud sample (|x| beyond threshold*sqrt(frame)) at every position, the rest on the grid; frame 2..4: a sample that alone makes its frame audible is never trimmed"
    fn h_p04_keep() {
        let frame = 2 + choose(3);
        let n = choose_in(6, tier(8, 10));
        let p = choose(n);
        let mut x: Vec<f32> = (0..n).map(|_| dy(0, 1, 4)).collect();
        let v = dy(8, 16, 3);
        x[p] = if any_bool() { v } else { -v };
        let ms = choose(3) as u32;
        let (y, _) = match detect_and_trim(&x, 1000, SilenceDetector { threshold_db: -12.0, min_duration_ms: ms, frame_size: frame }) { Ok(v) => v, Err(_) => { check(false, 12); return; } };
        let mut found = false;
        for k in 0..y.len() { found |= y[k] == x[p]; }
        check(found, 11);
    }
    //@ "ids": [21, 22, 23], "bounds": "invalid parameters: zero sample rate, zero frame size, empty input, frame longer than the signal; any sample bit patterns"
    fn h_p04_args() {
        let n = choose(3);
        let x: Vec<f32> = (0..n).map(|_| any_f32()).collect();
        let sr = choose(2) as u32 * 44100;
        let frame = choose(4) * 3;
        let r = detect_and_trim(&x, sr, SilenceDetector { threshold_db: -40.0, min_duration_ms: any_u32(), frame_size: frame });
        if n == 0 {
            match r { Ok((a, b)) => check(a.is_empty() && b.is_empty(), 21), Err(_) => {} }
        } else if sr == 0 || frame == 0 {
            check(r.is_err(), 22);
        } else {
            match r { Ok((a, b)) => { check(a.len() <= n, 23); for &(s, e) in &b { check((s < e) & (e <= n), 24); } }, Err(_) => check(false, 25) }
        }
    }
    //@ "ids": [2, 3, 4, 5], "split": [3], "w": 2, "bounds": "5 segments of one hop each (hop 4, 8 or 32 samples) plus a 0..3 sample tail, each segment with a symbolic level on the grid k/4, sample rates 8000/44100, min duration 0/1/2 ms"
    fn h_p04_segments() {
        let hop = [4usize, 8, 32][choose(3)];
        let sr = [8000u32, 44100][choose(2)];
        let ms = choose(3) as u32;
        let tail = choose(2) * 3;
        let segs = tier(4, 6);
        let mut x = vec![];
        for _ in 0..segs {
            let v = dy(0, 4, 2);
            for k in 0..hop { x.push(if k == 1 { v } else { 0.0 }); }
        }
        for _ in 0..tail { x.push(0.0); }
        run(&x, sr, ms, hop * 2, 1);
    }
}
