use super::*;
use stratum_dsp::analysis::result::Key;
/*@{"assumptions": ["text inputs are valid UTF-8 of at most 4 bytes (quick) / 6 bytes (thorough)"]}@*/

const NAMES: [&str; 12] = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"];

fn any_key() -> (Key, u32, bool) {
    let i = any_u32();
    let maj = any_bool();
    (if maj { Key::Major(i) } else { Key::Minor(i) }, i % 12, maj)
}
/// wheel position (1..=12) of a pitch class: one step per fifth, 1 = C major = A minor
fn wheel(i: u32, maj: bool) -> u32 {
    let j = if maj { i } else { (i + 3) % 12 };
    (j * 7) % 12 + 1
}
/// reference reading of a numerical label: optional '+', decimal digits, then A or B
fn read(b: &[u8]) -> Option<(u32, bool)> {
    let n = b.len();
    if n < 2 { return None; }
    let maj = b[n - 1] == b'A';
    if !maj & (b[n - 1] != b'B') { return None; }
    let mut s = 0;
    if b[0] == b'+' { s = 1; }
    if s >= n - 1 { return None; }
    let mut v: u32 = 0;
    let mut ok = true;
    for i in s..n - 1 {
        ok &= b[i].is_ascii_digit();
        v = v.wrapping_mul(10).wrapping_add((b[i] as u32).wrapping_sub(48));
    }
    if ok & (v >= 1) & (v <= 12) { Some((v, maj)) } else { None }
}

harnesses! {
    //@ "fmt": 1, "ids": [1, 2], "bounds": "every u32 pitch index, both modes"
    fn h_p01_name() {
        let (k, i, maj) = any_key();
        let s = k.name();
        let mut e = String::from(NAMES[conc(i as usize)]);
        if !maj { e.push('m'); }
        check(s.len() == e.len(), 1);
        check(s == e, 2);
    }
    //@ "fmt": 1, "ids": [11, 12, 13], "bounds": "every u32 pitch index, both modes"
    fn h_p01_roundtrip() {
        let (k, i, maj) = any_key();
        let s = k.numerical();
        let b = s.as_bytes();
        let r = read(b);
        check(r == Some((wheel(i, maj), maj)), 11);
        check(b[0] != b'0' && b[0] != b'+', 12);
        let want = if maj { Key::Major(i) } else { Key::Minor(i) };
        obs(i);
        check(Key::from_numerical(&s) == Some(want), 13);
    }
    //@ "fmt": 1, "ids": [21, 22], "split": [5], "tsplit": [7], "bounds": "every valid UTF-8 string of <=4 bytes (thorough <=6)"
    fn h_p01_parse() {
        let n = choose(tier(5, 7));
        let mut v = Vec::with_capacity(8);
        for _ in 0..n { v.push(any_u8()); }
        if let Ok(s) = std::str::from_utf8(&v) {
            let got = Key::from_numerical(s);
            match read(&v) {
                None => check(got.is_none(), 21),
                Some((num, maj)) => {
                    let ok = match got {
                        Some(Key::Major(i)) => maj & (i < 12) & (wheel(i, true) == num),
                        Some(Key::Minor(i)) => !maj & (i < 12) & (wheel(i, false) == num),
                        None => false,
                    };
                    check(ok, 22);
                }
            }
        }
    }
}
