use super::*;
use stratum_dsp::preprocessing::channel_mixer::*;
/*@{"assumptions": ["at most 3 (thorough 6) frames of fully symbolic samples; 24 frames (thorough 64) with one symbolic frame"]}@*/

fn mode(i: usize) -> ChannelMixMode {
    match i { 0 => ChannelMixMode::Mono, 1 => ChannelMixMode::MidSide, 2 => ChannelMixMode::Dominant, _ => ChannelMixMode::Center }
}
/// what one output sample must be
fn frame_ok(m: usize, l: f32, r: f32, y: f32) -> bool {
    match m {
        2 => {
            // the louder channel; either one on a tie
            ((l.abs() > r.abs()) & (y == l)) | ((r.abs() > l.abs()) & (y == r)) | ((l.abs() == r.abs()) & ((y == l) | (y == r)))
        }
        _ => (y == (l + r) * 0.5) | (y == l * 0.5 + r * 0.5),
    }
}
harnesses! {
    //@ "ids": [1, 2, 3], "split": [4], "bounds": "4 modes, every finite |x|<=1e30 sample, 0..3 frames (thorough 0..6)"
    fn h_p03_mix() {
        let m = choose(4);
        let n = choose(tier(4, 7));
        let l: Vec<f32> = (0..n).map(|_| f_in(-1e30, 1e30)).collect();
        let r: Vec<f32> = (0..n).map(|_| f_in(-1e30, 1e30)).collect();
        match stereo_to_mono(&l, &r, mode(m)) {
            Ok(y) => {
                check(y.len() == n, 1);
                for i in 0..y.len() {
                    check(frame_ok(m, l[i], r[i], y[i]), 2);
                    check(y[i].abs() <= l[i].abs().max(r[i].abs()), 3);
                }
            }
            Err(_) => check(false, 4),
        }
    }
    //@ "ids": [11], "split": [4], "bounds": "4 modes, every pair of lengths 0..4 (equal or not)"
    fn h_p03_shape() {
        let m = choose(4);
        let (a, b) = (choose(5), choose(5));
        let l: Vec<f32> = (0..a).map(|_| any_f32()).collect();
        let r: Vec<f32> = (0..b).map(|_| any_f32()).collect();
        let res = stereo_to_mono(&l, &r, mode(m));
        if a == b { check(res.map(|v| v.len()).ok() == Some(a), 11); } else { check(res.is_err(), 12); }
    }
    //@ "ids": [21, 22], "split": [4], "bounds": "4 modes, 24 (thorough 64) frames of fixed data, one frame at every position fully symbolic"
    fn h_p03_long() {
        let m = choose(4);
        let n = tier(24, 64);
        let p = choose(n);
        let mut l: Vec<f32> = (0..n).map(|i| (i as f32 * 0.37).fract() - 0.5).collect();
        let mut r: Vec<f32> = (0..n).map(|i| (i as f32 * 0.61).fract() - 0.5).collect();
        l[p] = f_in(-1e30, 1e30);
        r[p] = f_in(-1e30, 1e30);
        match stereo_to_mono(&l, &r, mode(m)) {
            Ok(y) => {
                check(y.len() == n, 21);
                for i in 0..n { check(frame_ok(m, l[i], r[i], y[i]), 22); }
            }
            Err(_) => check(false, 23),
        }
    }
}
