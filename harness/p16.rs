use super::*;
use stratum_dsp::features::beat_tracking::generate_beat_grid;
use stratum_dsp::features::beat_tracking::time_signature::detect_time_signature;
/*@{"assumptions": ["onset times on a grid of 1/1024 s", "irregular onset patterns (tempo refinement): positions fixed by the executor path by path"]}@*/

fn verify(on: &[f32], bpm: f32) -> Vec<f32> {
    let (g, st) = match generate_beat_grid(bpm, 0.75, on, 44100) { Ok(r) => r, Err(_) => { check(false, 9); return vec![] } };
    let t = 60.0 / bpm;
    let (mut lo, mut hi) = (on[0], on[0]);
    for &o in on { lo = lo.min(o); hi = hi.max(o); }
    let b = &g.beats;
    check(!b.is_empty(), 1);
    for i in 0..b.len() {
        check((b[i] >= lo) & (b[i] <= hi + t * 1.2), 2);
        if i > 0 { check(b[i] > b[i - 1], 3); check(b[i] - b[i - 1] >= t * 0.499, 4); }
    }
    // downbeats: the first beat, then each beat a bar (within a tenth) after the previous downbeat
    let (sig, _) = match detect_time_signature(b, bpm) { Ok(s) => s, Err(_) => { check(false, 8); return vec![] } };
    let bar = t * sig.beats_per_bar() as f32;
    let mut d: Vec<f32> = vec![];
    for &x in b { if d.is_empty() || (x - (d[d.len() - 1] + bar)).abs() <= bar * 0.1 { d.push(x); } }
    check(g.downbeats.len() == d.len(), 5);
    for i in 0..d.len().min(g.downbeats.len()) { check(g.downbeats[i] == d[i], 6); }
    check(g.bars == g.downbeats, 7);
    // stability: 1 / (1 + coefficient of variation of the beat intervals)
    let iv: Vec<f32> = (1..b.len()).map(|i| b[i] - b[i - 1]).collect();
    if iv.is_empty() { check(st == 0.0, 10); } else {
        let m = iv.iter().fold(0.0f32, |a, &x| a + x) / iv.len() as f32;
        let v = iv.iter().fold(0.0f32, |a, &x| a + (x - m) * (x - m)) / iv.len() as f32;
        check(close(st, 1.0 / (1.0 + v.sqrt() / m), 1e-4), 11);
        check((st > 0.0) & (st <= 1.0), 12);
    }
    g.beats
}

harnesses! {
    //@ "ids": [1, 2, 3, 4, 5, 6, 7, 11, 12, 21, 22], "split": [3, 4], "w": 2, "bounds": "steady tempo 60, 120 or 240: 2, 5, 9 or 17 onsets, two of them displaced by any k/1024 s within 48 ms: the grid is exactly start + k*T in whatever order the onsets are given"
    fn h_p16_steady() {
        let bpm = [120.0f32, 60.0, 240.0][choose(3)];
        let n = [2usize, 5, 9, 17][choose(4)];
        let t = 60.0 / bpm;
        let (p, q) = (n / 2, n - 2);
        let a = [0.0f32, 3.25][choose(2)];
        let mut on: Vec<f32> = (0..n).map(|i| a + i as f32 * t + if i > 0 && (i == p || i == q) && i + 1 < n { dy(-48, 48, 10) } else { 0.0 }).collect();
        if choose(2) == 1 { on.reverse(); on.swap(0, n / 2); }
        let b = verify(&on, bpm);
        check(b.len() == n, 21);
        for i in 0..b.len() { check(b[i] == a + i as f32 * t, 22); }
    }
    //@ "ids": [1, 2, 3, 4, 5, 6, 7, 11, 12], "split": [6, 3], "w": 4, "bounds": "irregular onsets: 8 to 16 beats at 120, 100 or 93 BPM with missing beats in 6 patterns and one extra onset anywhere (step 1/16 beat, fixed by the executor)"
    fn h_p16_irregular() {
        let pat = choose(6);
        let bpm = [120.0f32, 100.0, 93.0][choose(3)];
        let t = 60.0 / bpm;
        let n = tier(13, 21);
        let x = conc(us(0, if thorough() { 16 * (n - 1) } else { 2 * (n - 1) })) as f32 * t / if thorough() { 16.0 } else { 2.0 };
        let mut on: Vec<f32> = (0..n).filter(|&i| match pat { 0 => i != 2, 1 => i % 3 != 1, 2 => i < 4 || i > 8, 3 => i % 4 != 3 || i > 8, 4 => i < 7 || i % 2 == 0, _ => i == 0 || i % 5 > 1 || i == n - 1 }).map(|i| i as f32 * t + [0.0, 0.01, -0.01][i % 3 * (i > 0) as usize]).collect();
        on.push(x);
        verify(&on, bpm);
    }
    //@ "ids": [31, 32], "split": [3], "w": 1, "bounds": "arguments: every non-NaN tempo with no onset or tempo 0, negative or above 300 is an error; a single onset anywhere gives one beat at it and stability 0"
    fn h_p16_args() {
        match choose(3) {
            0 => { let b = any_f32(); assume(!b.is_nan()); check(generate_beat_grid(b, 0.5, &[], 44100).is_err(), 31); }
            1 => { let b = any_f32(); assume((b <= 0.0) | (b > 300.0)); check(generate_beat_grid(b, 0.5, &[0.0, 0.5, 1.0], 44100).is_err(), 31); }
            _ => {
                let o = dy(0, 8192, 10);
                match generate_beat_grid(120.0, 0.5, &[o], 44100) { Ok((g, s)) => check((g.beats.len() == 1 && g.beats[0] == o) & (g.downbeats.len() == 1) & (s == 0.0), 32), Err(_) => check(false, 33) }
            }
        }
    }
}
