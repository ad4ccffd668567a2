//! Deterministic checks of the remaining public API
use crate::case::*;
use crate::check::jfif;
use crate::jpeg::parse;
use jpeg_encoder::*;
pub type T = (&'static str, Box<dyn Fn() -> Result<(), String>>);
fn enc() -> (Encoder<Sink>, std::rc::Rc<std::cell::RefCell<State>>) {
    let st = std::rc::Rc::new(std::cell::RefCell::new(State::default()));
    (Encoder::new(Sink { st: st.clone(), fail_at: None, chunk: 0, flush_fails: false, once: false, intr: false }, 90), st)
}
pub fn tests(prop: &str) -> Vec<T> {
    let mut v: Vec<T> = vec![];
    match prop {
        "C06" => {
            v.push(("rgb_to_ycbcr for all 2^24 colours", Box::new(|| {
                for r in 0..=255u8 { for g in 0..=255u8 { for b in 0..=255u8 {
                    let (y, cb, cr) = rgb_to_ycbcr(r, g, b); let t = jfif(r, g, b);
                    if (y as f64 - t[0]).abs() > 1.0 || (cb as f64 - t[1]).abs() > 1.0 || (cr as f64 - t[2]).abs() > 1.0 { return Err(format!("rgb_to_ycbcr({},{},{}) = {:?}, formula {:?}", r, g, b, (y, cb, cr), t)); }
                    if r == g && g == b && (cb != 128 || cr != 128) { return Err(format!("grey {} has chroma {},{}", r, cb, cr)); }
                } } }
                for k in 0..=255u8 { let (a, b, c) = rgb_to_ycbcr(k, 7, 255 - k); if cmyk_to_ycck(k, 7, 255 - k, k) != (a, b, c, 255 - k) { return Err(format!("cmyk_to_ycck({},7,{},{})", k, 255 - k, k)); } }
                Ok(())
            })));
        }
        "C07" | "C08" => {
            v.push(("SamplingFactor::from_factors", Box::new(|| {
                for h in 0..=255u8 { for w in 0..=255u8 {
                    let ok = matches!(h, 1 | 2 | 4) && matches!(w, 1 | 2 | 4) && (h, w) != (4, 4);
                    match SamplingFactor::from_factors(h, w) {
                        None => if ok { return Err(format!("from_factors({}, {}) = None", h, w)); },
                        Some(f) => { let i = SAMPLINGS.iter().position(|&s| s == f).unwrap(); if !ok || SF[i] != (h as usize, w as usize) { return Err(format!("from_factors({}, {}) = {:?}", h, w, f)); } }
                    }
                } }
                for q in 0..=255u8 {
                    let e = Encoder::new(enc().1.sink(), q);
                    let i = SAMPLINGS.iter().position(|&s| s == e.sampling_factor()).unwrap();
                    if SF[i] != if q < 90 { (2, 2) } else { (1, 1) } { return Err(format!("default sampling factor for quality {}", q)); }
                }
                Ok(())
            })));
            v.push(("settings are returned as set", Box::new(|| {
                let (mut e, _) = enc();
                if e.progressive_scans().is_some() || e.restart_interval().is_some() || e.optimized_huffman_tables() { return Err("defaults".into()); }
                e.set_progressive(true); if e.progressive_scans() != Some(4) { return Err("set_progressive(true)".into()); }
                e.set_progressive(false); if e.progressive_scans().is_some() { return Err("set_progressive(false)".into()); }
                for s in 2..=64 { e.set_progressive_scans(s); if e.progressive_scans() != Some(s) { return Err(format!("set_progressive_scans({})", s)); } }
                for s in [0, 1, 2, 255, 256, 65535] { e.set_restart_interval(s); if e.restart_interval() != if s == 0 { None } else { Some(s) } { return Err(format!("set_restart_interval({})", s)); } }
                e.set_optimized_huffman_tables(true); if !e.optimized_huffman_tables() { return Err("set_optimized_huffman_tables".into()); }
                for s in SAMPLINGS { e.set_sampling_factor(s); if e.sampling_factor() != s { return Err("set_sampling_factor".into()); } }
                Ok(())
            })));
        }
        "C09" => { v.push(("restart interval zero after another one", Box::new(|| {
            let (mut e, st) = enc(); e.set_restart_interval(3); e.set_restart_interval(0);
            e.encode(&[9u8; 64 * 9], 24, 24, ColorType::Luma).map_err(|x| format!("{:?}", x))?;
            let j = parse(&st.borrow().bytes).map_err(|f| f.msg)?;
            if j.dri.unwrap_or(0) != 0 { return Err("interval announced".into()); } Ok(())
        }))); }
        "C11" => {
            v.push(("segment numbers and sizes", Box::new(|| {
                for nr in 0..=255u8 {
                    for len in [0usize, 1, 65532, 65533, 65534, 65535, 70000] {
                        if nr > 20 && len != 1 && nr != 255 { continue; }
                        let (mut e, st) = enc();
                        let d: Vec<u8> = (0..len).map(|i| (i * 7) as u8).collect();
                        let ok = (1..=15).contains(&nr) && len <= 65533;
                        let r = e.add_app_segment(nr, &d);
                        if r.is_ok() != ok { return Err(format!("add_app_segment({}, {} bytes) is {:?}", nr, len, r)); }
                        e.add_app_segment(3, b"tail").map_err(|x| format!("{:?}", x))?;
                        e.encode(&[1], 1, 1, ColorType::Luma).map_err(|x| format!("{:?}", x))?;
                        let j = parse(&st.borrow().bytes).map_err(|f| f.msg)?;
                        let mut want = vec![]; if ok { want.push((nr, d)); } want.push((3u8, b"tail".to_vec()));
                        if j.apps != want { return Err(format!("after add_app_segment({}, {} bytes) the file has {} segments", nr, len, j.apps.len())); }
                    }
                }
                Ok(())
            })));
            v.push(("ICC profile sizes", Box::new(|| {
                const C: usize = 65519;
                for len in [0usize, 1, C - 1, C, C + 1, 2 * C, 2 * C + 1, 9 * C + 5, 254 * C, 254 * C + 1, 255 * C - 1, 255 * C, 255 * C + 1, 256 * C, 256 * C + 1, 257 * C, 300 * C, 512 * C] {
                    let (mut e, st) = enc();
                    let d: Vec<u8> = (0..len).map(|i| (i ^ (i >> 9)) as u8).collect();
                    let r = e.add_icc_profile(&d);
                    if r.is_ok() != (len <= 255 * C) { return Err(format!("add_icc_profile({} bytes) is {:?}", len, r)); }
                    e.add_app_segment(3, b"tail").map_err(|x| format!("{:?}", x))?;
                    e.encode(&[1], 1, 1, ColorType::Luma).map_err(|x| format!("{:?}", x))?;
                    let b = &st.borrow().bytes;
                    let j = parse(b).map_err(|f| f.msg)?;
                    let n = if len <= 255 * C { (len + C - 1) / C } else { 0 };
                    if j.apps.len() != n + 1 { return Err(format!("ICC profile of {} bytes: {} segments", len, j.apps.len())); }
                    let mut got = vec![];
                    for (i, (m, s)) in j.apps[..n].iter().enumerate() {
                        if *m != 2 || s.len() < 14 || &s[..12] != b"ICC_PROFILE\0" || s[12] as usize != i + 1 || s[13] as usize != n { return Err(format!("ICC profile of {} bytes: chunk {} has a bad header", len, i)); }
                        got.extend_from_slice(&s[14..]);
                    }
                    if n > 0 && got != d { return Err(format!("ICC profile of {} bytes is altered", len)); }
                }
                Ok(())
            })));
        }
        "C12" => {
            v.push(("the library's own sinks", Box::new(|| {
                let cfg = |opt: bool| Case { color: 1, w: 40, h: 24, quality: 100, optimize: opt, icc: 70000, pattern: 0, ..Case::default() };
                for opt in [false, true] {
                    let c = cfg(opt); let want = run(&c).bytes; let d = c.data();
                    let mut out: Vec<u8> = vec![];
                    let mut e = Encoder::new(&mut out, c.quality); configure(&mut e, &c)?;
                    e.encode(&d, 40, 24, ColorType::Rgb).map_err(|x| format!("{:?}", x))?;
                    if out != want { return Err(format!("a Vec received {} bytes, another sink {} of the same image", out.len(), want.len())); }
                    for (fail, flush) in [(None, false), (None, true), (Some(want.len() - 1), false), (Some(0), false), (Some(700), false)] {
                        let st = std::rc::Rc::new(std::cell::RefCell::new(State::default()));
                        let mut s = Sink { st: st.clone(), fail_at: fail, chunk: 0, flush_fails: flush, once: false, intr: false };
                        let mut e = Encoder::new(&mut s, c.quality); configure(&mut e, &c)?;
                        let r = e.encode(&d, 40, 24, ColorType::Rgb);
                        if r.is_ok() != (fail.is_none() && !flush) { return Err(format!("through &mut, sink failing at {:?}, flush failing {}: {:?}", fail, flush, r)); }
                        if r.is_ok() && (st.borrow().bytes != want || st.borrow().flushed != want.len()) { return Err("through &mut other or unflushed bytes".into()); }
                    }
                }
                Ok(())
            })));
            v.push(("encoding into a slice or vector through &mut", Box::new(|| {
                let mut out: Vec<u8> = vec![];
                Encoder::new(&mut out, 80).encode(&[5u8; 300], 10, 10, ColorType::Rgb).map_err(|x| format!("{:?}", x))?;
                let j = parse(&out).map_err(|f| f.msg)?; if j.w != 10 { return Err("width".into()); } Ok(())
            })));
            #[cfg(feature = "std")]
            v.push(("BufWriter over a sink that fails late", Box::new(|| {
                let len = { let (e, st) = enc(); e.encode(&[5u8; 64], 8, 8, ColorType::Luma).map_err(|x| format!("{:?}", x))?; let n = st.borrow().bytes.len(); n };
                for fail in [0usize, 1, 100, len / 2, len - 1] {
                    let st = std::rc::Rc::new(std::cell::RefCell::new(State::default()));
                    let s = Sink { st: st.clone(), fail_at: Some(fail), chunk: 0, flush_fails: false, once: false, intr: false };
                    let r = Encoder::new(std::io::BufWriter::with_capacity(1 << 20, s), 90).encode(&[5u8; 64], 8, 8, ColorType::Luma);
                    if r.is_ok() { return Err(format!("Ok although the device only took {} bytes", fail)); }
                }
                Ok(())
            })));
            #[cfg(feature = "std")]
            v.push(("new_file", Box::new(|| {
                let p = std::env::temp_dir().join(format!("replay-new-file-{}.jpg", std::process::id()));
                let r = Encoder::new_file(&p, 80).and_then(|e| e.encode(&[5u8; 64], 8, 8, ColorType::Luma));
                let b = std::fs::read(&p).unwrap_or_default(); std::fs::remove_file(&p).ok();
                r.map_err(|x| format!("{:?}", x))?;
                parse(&b).map_err(|f| f.msg)?;
                if Encoder::new_file("/nonexistent-directory/x.jpg", 80).is_ok() { return Err("new_file in a missing directory is Ok".into()); }
                if std::path::Path::new("/dev/full").exists() {
                    let e = Encoder::new_file("/dev/full", 80).map_err(|x| format!("{:?}", x))?;
                    if e.encode(&[5u8; 64], 8, 8, ColorType::Luma).is_ok() { return Err("encoding to /dev/full returns Ok".into()); }
                }
                Ok(())
            })));
            v.push(("data length of large images", Box::new(|| {
                let d = vec![7u8; 1 << 20];
                for (ct, b) in COLORS.iter().zip(BPP) { for (w, h) in [(65535u16, 65535u16), (32768, 32769), (65535, 32769), (65535, 16388), (16385, 65535), (256, 257), (300, 300), (65535, 1), (1, 65535), (21846, 65535), (43691, 65535)] {
                    let n = w as u64 * h as u64 * b as u64;
                    for bits in [8, 16, 31, 32] {
                        for x in [n & ((1u64 << bits) - 1), (w as u64 * h as u64 & ((1 << bits) - 1)) * b as u64, (w as u64 * b as u64) & ((1 << bits) - 1)] {
                            let len = x.min(d.len() as u64);
                            if len >= n { continue; }
                            let (e, st) = enc();
                            match e.encode(&d[..len as usize], w, h, *ct) { Err(EncodingError::BadImageData { length, required }) if length as u64 == len && required as u64 == n => {}, o => return Err(format!("{:?} {}x{} with {} bytes: {:?}", ct, w, h, len, o)) }
                            if !st.borrow().bytes.is_empty() { return Err("output before rejection".into()); }
                        }
                    }
                } }
                Ok(())
            })));
            v.push(("data length limits", Box::new(|| {
                for (ct, b) in COLORS.iter().zip(BPP) { for (w, h) in [(1usize, 1usize), (3, 5), (8, 8), (17, 2)] {
                    let n = w * h * b;
                    for len in [0, n - 1, n, n + 1] {
                        let (e, st) = enc();
                        let r = e.encode(&vec![7u8; len], w as u16, h as u16, *ct);
                        if r.is_ok() != (len >= n) { return Err(format!("{:?} {}x{} with {} bytes: {:?}", ct, w, h, len, r)); }
                        if len < n { if !st.borrow().bytes.is_empty() { return Err("output before rejection".into()); }
                            match r { Err(EncodingError::BadImageData { length, required }) if length == len && required == n => {}, o => return Err(format!("{:?}", o)) } }
                    }
                } }
                Ok(())
            })));
        }
        "C13" | "C10" => {
            v.push(("scan counts", Box::new(|| {
                for s in 2..=64u8 { for o in [false, true] {
                    let (mut e, st) = enc(); e.set_progressive_scans(s); e.set_optimized_huffman_tables(o);
                    e.encode(&[77u8; 100], 10, 10, ColorType::Luma).map_err(|x| format!("{:?}", x))?;
                    let j = parse(&st.borrow().bytes).map_err(|f| f.msg)?;
                    if j.scans.len() != s as usize { return Err(format!("{} scans instead of {}", j.scans.len(), s)); }
                } }
                Ok(())
            })));
        }
        _ => {}
    }
    v
}
trait Inner { fn sink(self) -> Sink; }
impl Inner for std::rc::Rc<std::cell::RefCell<State>> { fn sink(self) -> Sink { Sink { st: self, fail_at: None, chunk: 0, flush_fails: false, once: false, intr: false } } }
