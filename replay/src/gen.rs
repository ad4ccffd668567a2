//! Which cases are tried for which property
use crate::case::*;
use crate::rng::Rng;
pub struct Gen { prop: String, r: Rng, n: u64 }
impl Gen {
    pub fn new(prop: &str, seed: u64) -> Gen { Gen { prop: prop.into(), r: Rng::new(seed.wrapping_mul(1000).wrapping_add(prop.bytes().map(|b| b as u64).sum())), n: 0 } }
    fn base(&mut self) -> Case {
        let r = &mut self.r;
        let small = r.below(10);
        let dim = |r: &mut Rng| -> usize { match small { 0..=3 => r.range(1, 20) as usize, 4..=7 => r.range(1, 48) as usize, 8 => r.pick(&[1, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65]), _ => r.range(1, 130) as usize } };
        let w = dim(r); let h = dim(r);
        Case {
            color: r.below(9) as usize, w, h,
            quality: if r.chance(1, 3) { r.pick(&[1, 2, 49, 50, 51, 89, 90, 99, 100, 0, 101, 255]) } else { r.range(1, 100) as u8 },
            sampling: if r.chance(1, 3) { 99 } else { r.below(16) as usize },
            restart: if r.chance(1, 2) { 0 } else { r.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 10, 16, 17, 50, 1000, 65535]) },
            scans: match r.below(5) { 0 => 1, 1 => r.range(2, 64) as u8, _ => 0 },
            optimize: r.chance(1, 3),
            qt: if r.chance(1, 2) { (0, 0) } else if r.chance(1, 2) { (r.below(9) as u32, r.below(9) as u32) } else { (100 + r.below(400) as u32, 100 + r.below(400) as u32) },
            density: r.below(4) as u8, apps: if r.chance(1, 5) { r.below(4) as u8 } else { 0 }, icc: if r.chance(1, 20) { r.range(0, 500) as usize } else { 0 },
            pattern: r.below(12) as u8, seed: r.next() >> 1, extra: if r.chance(1, 8) { r.range(0, 40) } else { 0 }, custom: r.chance(1, 8),
            fail_at: None, chunk: if r.chance(1, 6) { r.pick(&[1, 2, 3, 7, 64]) } else { 0 }, flush_fails: false, once: false,
        }
    }
    pub fn next(&mut self) -> Vec<Case> {
        self.n += 1;
        let n = self.n;
        let mut c = self.base();
        let r = &mut self.r;
        match self.prop.as_str() {
            "C01" => { c.apps = 0; c.icc = 0; c.pattern = r.pick(&[0, 3, 6, 1, 7, 8, 11]); if r.chance(1, 2) { c.quality = 100; } if r.chance(1, 4) { c.w = r.range(1, 60) as usize; c.h = r.range(1, 60) as usize; } }
            "C02" => { c.apps = 0; c.icc = 0; c.pattern = r.pick(&[0, 3, 6, 7, 8, 10, 11, 5]); if r.chance(1, 2) { c.qt = (r.pick(&[101, 109, 117, 106]), r.pick(&[101, 109])); } }
            "C03" => {
                c.apps = 0; c.icc = 0; c.optimize = r.chance(3, 4);
                if r.chance(1, 3) { c.pattern = 11; c.quality = 100; c.qt = (101, 101); if n % 40 == 7 { c.w = 400; c.h = 400; c.color = 0; } }
                if n % 50 == 3 { c.pattern = r.pick(&[0, 3, 6]); c.w = 256; c.h = 192; c.qt = (101, 101); c.optimize = true; c.color = r.pick(&[0, 1, 5, 6]); }
            }
            "C04" => { c.apps = 0; c.icc = 0; c.color = r.pick(&[0, 5, 6, 8, 0, 5]); c.pattern = r.pick(&[0, 3, 6, 7, 1, 9]); if n <= 9 * 101 { c.quality = ((n - 1) % 101) as u8; c.qt = (((n - 1) / 101) as u32, ((n - 1) / 101) as u32); c.w = 8; c.h = 8; c.color = 5; c.sampling = 0; c.scans = 0; } }
            "C05" => { c.apps = 0; c.icc = 0; c.color = r.pick(&[0, 5, 6]); c.pattern = r.pick(&[6, 6, 6, 3, 0, 5, 8, 10]); c.qt = (101, 101); }
            "C06" => {
                c.color = ((n - 1) % 9) as usize; c.apps = 0; c.icc = 0;
                if n % 2 == 0 { c.pattern = 2; c.quality = 100; c.w = 8 * r.range(1, 24) as usize + r.below(8) as usize; c.h = 8 * r.range(1, 12) as usize; c.sampling = r.below(4) as usize; c.qt = (0, 0); c.restart = 0; }
                else { c.pattern = r.pick(&[0, 9, 1]); c.qt = (101, 101); }
                // lines longer than 16-bit offsets
                if n % 90 == 13 { c.color = 1 + (n as usize / 90) % 8; c.w = r.pick(&[16384, 21846, 32768, 65535]); c.h = r.range(2, 3) as usize; c.scans = r.pick(&[0, 0, 0, 3]); }
            }
            "C07" => { c.sampling = r.below(16) as usize; c.color = r.pick(&[1, 5, 6, 8, 0, 5, 7]); c.apps = 0; c.icc = 0; c.pattern = r.pick(&[0, 9, 1, 3, 8]); c.qt = (101, 101); if n % 97 == 5 { c.w = r.pick(&[1000, 4097, 65535]); c.h = r.range(1, 3) as usize; } if n % 97 == 50 { c.h = r.pick(&[1000, 4097, 65535]); c.w = r.range(1, 3) as usize; } }
            "C08" => { c.density = r.below(4) as u8; c.apps = if r.chance(1, 3) { r.below(4) as u8 } else { 0 }; if n % 31 == 2 { c.w = r.pick(&[256, 257, 300, 65535]); c.h = 1; } if n % 31 == 3 { c.h = r.pick(&[256, 300, 65535]); c.w = 1; } }
            "C09" => { c.apps = 0; c.icc = 0; c.restart = r.pick(&[1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 16, 31, 64, 255, 256, 257, 300]); c.pattern = r.pick(&[0, 8, 3, 7, 9]); if r.chance(1, 4) { c.w = r.range(60, 200) as usize; c.h = r.range(20, 120) as usize; } if n % 60 == 9 { c.w = 256; c.h = 128; c.restart = r.pick(&[255, 256, 257, 511, 300]); c.color = 0; }
                if n % 150 == 39 { c.w = 272; c.h = 272; c.restart = r.pick(&[511, 512, 1000, 1023, 1024, 1025]); c.color = r.pick(&[0, 5]); c.sampling = 99; c.scans = r.pick(&[0, 0, 2, 5]); }
                if n % 600 == 99 { c.w = 520; c.h = 512; c.restart = r.pick(&[2047, 2048, 4095, 4096]); c.color = 0; c.scans = r.pick(&[0, 0, 2, 5]); }
                if n % 1500 == 699 { c.w = 1456; c.h = 1456; c.restart = r.pick(&[32767, 32768, 32769, 8192, 16384]); c.color = 0; c.sampling = 99; c.scans = r.pick(&[0, 2]); c.pattern = 3; } }
            "C10" => {
                c.apps = 0; c.icc = 0; c.extra = 0; c.custom = false;
                if r.chance(1, 2) { c.sampling = r.pick(&[0, 1, 2, 3, 99]); }
                let s = if n <= 63 { (n + 1) as u8 } else { r.range(2, 64) as u8 };
                if n <= 63 { c.w = c.w.min(20); c.h = c.h.min(20); }
                let a = Case { scans: 0, optimize: false, ..c.clone() };
                let b = Case { scans: 0, optimize: true, ..c.clone() };
                let d = Case { scans: s, optimize: r.chance(1, 2), ..c.clone() };
                let e = Case { scans: 1, optimize: r.chance(1, 2), restart: 0, ..c.clone() };
                return vec![a, b, d, e];
            }
            "C11" => { c.apps = r.range(0, 5) as u8; if r.chance(1, 2) { c.icc = r.pick(&[1, 100, 65518, 65519, 65520, 131037, 131038, 131039, 200000]); } c.w = c.w.min(16); c.h = c.h.min(16); }
            "C12" => {
                c.apps = 0; c.icc = 0;
                match n % 8 {
                    0 => { c.extra = -r.pick(&[1i64, 2, 3, 4, 5, 100000]).min((c.w * c.h * BPP[c.color]) as i64); c.custom = false; }
                    1 => { if r.chance(1, 2) { c.w = 0 } else { c.h = 0 } c.extra = 0; if r.chance(1, 4) { c.w = 0; c.h = 0; } }
                    2 => { c.extra = 0; c.custom = false; c.chunk = 0; let x = r.pick(&[1, 2, 3, 1000]); return vec![c.clone(), Case { extra: x, ..c }]; }
                    3 => { c.flush_fails = true; }
                    4 | 5 => { c.w = c.w.min(24); c.h = c.h.min(24); let l = run(&Case { chunk: 0, ..c.clone() }).bytes.len(); c.fail_at = Some(match r.below(4) { 0 => l.saturating_sub(1 + r.below(12) as usize), 1 => r.below(30) as usize, _ => r.below(l as u64 + 2) as usize }); c.once = r.chance(1, 2); }
                    6 => { // every position of a tiny file
                        c.w = 3; c.h = 3; c.custom = false; c.extra = 0; c.apps = 0;
                        let l = run(&Case { chunk: 0, ..c.clone() }).bytes.len();
                        return (0..=l).flat_map(|k| [Case { fail_at: Some(k), once: false, ..c.clone() }, Case { fail_at: Some(k), once: true, ..c.clone() }]).collect();
                    }
                    _ => { c.chunk = 5; }
                }
            }
            "C13" => { if r.chance(1, 4) { c.w = r.pick(&[1, 2, 3, 8, 65535]); c.h = if c.w > 100 { r.range(1, 2) as usize } else { r.range(1, 40) as usize }; } if r.chance(1, 12) { c.h = 65535; c.w = 1; } c.pattern = r.pick(&[0, 3, 5, 6, 6, 8, 10, 11]); if n % 3 == 0 { c.qt = (r.pick(&[101, 102, 105, 110]), r.pick(&[101, 102, 105, 110])); c.optimize = r.chance(2, 3); } }
            "C14" => { if r.chance(1, 3) { c.w = r.range(1, 70) as usize; c.h = r.range(1, 20) as usize; } if r.chance(1, 2) { c.color = r.range(1, 4) as usize; c.pattern = r.pick(&[0, 3, 9]); } if r.chance(1, 3) { c.pattern = 6; c.qt = (101, 101); } if n % 9 == 0 { c.extra = -r.range(1, 9).min((c.w * c.h * BPP[c.color]) as i64); } if n % 23 == 0 { c.w = 0; c.extra = 0; } c.chunk = 0; if n % 11 == 0 { c.fail_at = Some(r.below(900) as usize); } }
            _ => {}
        }
        // more blocks than 16 bits can count
        if n == 151 && matches!(self.prop.as_str(), "C03" | "C07" | "C13" | "C14") {
            c.w = r.pick(&[2056, 2049]); c.h = 2048; c.color = 0; c.sampling = 99; c.restart = r.pick(&[0, 0, 65535]); c.scans = r.pick(&[0, 0, 2]); c.optimize = true; c.pattern = r.pick(&[3, 8]); c.extra = 0; c.custom = false; c.chunk = 0; c.fail_at = None;
        }
        if c.w * c.h > 200000 && c.color > 0 { c.color = 0; }
        vec![c]
    }
}
