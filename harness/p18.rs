use super::*;
use stratum_dsp::features::beat_tracking::time_signature::{detect_time_signature, TimeSignature};
/*@{"assumptions": ["beat times in increasing order on dyadic grids", "scores within 1e-4 of each other are not ranked, except exact ties of perfectly regular beats"]}@*/

fn score(iv: &[f32], lag: usize, m: f32) -> f32 {
    if iv.len() <= lag { return 0.0; }
    let mut s = 0.0f32;
    for i in 0..iv.len() - lag { s += 1.0 / (1.0 + (iv[i] - iv[i + lag]).abs() / m); }
    let mut v = 0.0f32;
    for &x in iv { v += (x - m) * (x - m); }
    let cv = (v / iv.len() as f32).sqrt() / m;
    s / (iv.len() - lag) as f32 * 0.7 + 0.3 / (1.0 + cv)
}
fn verify(b: &[f32]) {
    let (sig, c) = match detect_time_signature(b, 120.0) { Ok(r) => r, Err(_) => { check(false, 9); return } };
    check((c >= 0.0) & (c <= 1.0), 1);
    if b.len() < 8 { check((sig == TimeSignature::FourFour) & (c == 0.5), 2); return; }
    let iv: Vec<f32> = (1..b.len()).map(|i| b[i] - b[i - 1]).collect();
    let m = (b[b.len() - 1] - b[0]) / iv.len() as f32;
    let s = [score(&iv, 4, m), score(&iv, 3, m), score(&iv, 6, m)];
    let k = match sig { TimeSignature::FourFour => 0, TimeSignature::ThreeFour => 1, _ => 2 };
    for j in 0..3 { check(s[k] >= s[j] - 1e-4, 3); }
    check(close(c, if s[k] > 1.0 { 1.0 } else { s[k] }, 1e-4), 4);
    obs(k as u32);
}

harnesses! {
    //@ "ids": [1, 3, 4], "split": [3, 3], "w": 3, "bounds": "accent patterns: 9 to 20 beats whose intervals repeat every 3, 4 or 6 beats, with one interval of the pattern lengthened by every k/16 s up to 0.5 s and one single beat displaced by up to 3/16 s (fixed by the executor)"
    fn h_p18_pattern() {
        let per = [3usize, 4, 6][choose(3)];
        let n = [9usize, 14, 20][choose(3)];
        let l = conc(us(0, 8)) as f32 / 16.0;
        let d = (conc(us(0, 6)) as f32 - 3.0) / 16.0;
        let mut b = vec![0.5f32];
        for i in 1..n { let p = b[i - 1]; b.push(p + 0.5 + if i % per == 0 { l } else { 0.0 }); }
        b[n / 2] += d;
        verify(&b);
    }
    //@ "ids": [1, 11, 12], "split": [3], "w": 2, "bounds": "perfectly regular beats: 8..24 of them, intervals 0.25, 0.5 or 1 s, any start k/16: nothing speaks against common time, so 4/4 with full confidence"
    fn h_p18_regular() {
        let t = [0.25f32, 0.5, 1.0][choose(3)];
        let n = choose_in(8, 24);
        let a = dy(0, 256, 4);
        let b: Vec<f32> = (0..n).map(|i| a + i as f32 * t).collect();
        match detect_time_signature(&b, 60.0 / t) { Ok((s, c)) => { check((c >= 0.0) & (c <= 1.0), 1); check(s == TimeSignature::FourFour, 11); check(c > 0.999, 12); } Err(_) => check(false, 9) }
    }
    //@ "ids": [1, 3, 4], "split": [3], "tsplit": [7, 2], "w": 4, "assert_ms": 20000, "bounds": "9 regular beats, one inner beat (second, fourth or seventh; thorough: any) displaced by every k/16 s in [-6,6]; thorough also half the interval"
    fn h_p18_shift() {
        let p = [1, 3, 6, 2, 4, 5, 7][choose(tier(3, 7))];
        let t = [1.0f32, 0.5][choose(tier(1, 2))];
        let d = dy(-6, 6, if t == 1.0 { 4 } else { 5 });
        let b: Vec<f32> = (0..9).map(|i| i as f32 * t + if i == p { d } else { 0.0 }).collect();
        verify(&b);
    }
    //@ "ids": [2, 21], "split": [4], "bounds": "fewer than 8 beats at any times (all f32, any order) with any tempo give 4/4 at confidence 0.5; with 8 beats a tempo at or below zero is an error; bar lengths 4, 3 and 6"
    fn h_p18_args() {
        match choose(4) {
            0 => { let b: Vec<f32> = (0..choose(8)).map(|_| any_f32()).collect(); match detect_time_signature(&b, any_f32()) { Ok((s, c)) => check((s == TimeSignature::FourFour) & (c == 0.5), 2), Err(_) => check(false, 9) } }
            1 => { let t = any_f32(); assume(t <= 0.0); let b: Vec<f32> = (0..9).map(|i| i as f32).collect(); check(detect_time_signature(&b, t).is_err(), 21); }
            2 => { let x = dy(0, 64, 2); let b = vec![x; 9]; match detect_time_signature(&b, 120.0) { Ok((s, c)) => check((s == TimeSignature::FourFour) & (c == 0.5), 22), Err(_) => check(false, 9) } }
            _ => check(TimeSignature::FourFour.beats_per_bar() == 4 && TimeSignature::ThreeFour.beats_per_bar() == 3 && TimeSignature::SixEight.beats_per_bar() == 6 && TimeSignature::FourFour.name() == "4/4" && TimeSignature::ThreeFour.name() == "3/4" && TimeSignature::SixEight.name() == "6/8", 23),
        }
    }
}
