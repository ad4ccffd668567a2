//! What a correct encoder has to produce for a case
use crate::case::*;
use crate::jpeg::*;
use crate::presets;

pub fn want_table(c: &Case, which: usize) -> [u8; 64] {
    let mut o = [0u8; 64];
    if let Some(t) = c.custom_table(which) { for i in 0..64 { o[i] = t[i].clamp(1, 255) as u8; } return o; }
    let ty = (if which == 0 { c.qt.0 } else { c.qt.1 }).min(8) as usize;
    let base = if which == 0 { presets::LUMA[ty] } else { presets::CHROMA[ty] };
    let q = (c.quality as u32).clamp(1, 100);
    let s = if q < 50 { 5000 / q } else { 200 - q * 2 };
    for i in 0..64 { o[i] = ((base[i] as u32 * s + 50) / 100).clamp(1, 255) as u8; }
    o
}
fn f(props: &'static [&'static str], msg: String) -> Fail { Fail { props, msg } }

/// Everything that can be said about one encode; `planes` are recomputed from the case
pub fn verify(c: &Case) -> Result<Option<Jpeg>, Fail> {
    let r = run(c);
    verify_run(c, &r)
}
pub fn verify_run(c: &Case, r: &Run) -> Result<Option<Jpeg>, Fail> {
    if let Res::Panic(m) = &r.res { return Err(f(&["C13", "C12", "C02", "C03", "C05", "C07", "C09", "C10", "C11", "C01", "C04", "C06", "C08"], format!("panic: {}", m))); }
    let zero = c.w == 0 || c.h == 0;
    let short = c.extra < 0;
    if zero || short {
        return match &r.res {
            Res::Ok => Err(f(&["C12"], format!("{} was accepted", if zero { "an image with a zero dimension" } else { "too little data" }))),
            Res::Err(m) => {
                if !r.bytes.is_empty() { return Err(f(&["C12"], format!("{} bytes were written before the input was rejected", r.bytes.len()))); }
                if short && !zero && !m.starts_with("BadImageData") { return Err(f(&["C12"], format!("wrong error for short data: {}", m))); }
                if zero && !short && !m.starts_with("ZeroImageDimensions") { return Err(f(&["C12"], format!("wrong error for zero dimensions: {}", m))); }
                Ok(None)
            }
            Res::Panic(_) => unreachable!(),
        };
    }
    if c.fail_at.is_some() || c.flush_fails {
        let full = Case { fail_at: None, chunk: 0, flush_fails: false, ..c.clone() };
        let all = run(&full);
        let fails = c.flush_fails || c.fail_at.unwrap() < all.bytes.len();
        if fails && r.ok() { return Err(f(&["C12"], "the sink failed but encode returned Ok".into())); }
        if fails && r.bytes.len() > all.bytes.len() || !all.bytes.starts_with(&r.bytes) { return Err(f(&["C12", "C01"], "what a failing sink got is not the beginning of the file".into())); }
        if !fails && !r.ok() { return Err(f(&["C12"], "error although the sink accepted everything".into())); }
        return Ok(None);
    }
    if let Res::Err(m) = &r.res { if c.chunk == 5 && m.contains("nterrupted") { return Ok(None); } return Err(f(&["C12", "C13", "C11"], format!("valid input was rejected: {}", m))); }
    if r.flushed != r.bytes.len() { return Err(f(&["C12"], format!("Ok, but only {} of {} bytes were flushed", r.flushed, r.bytes.len()))); }
    let j = parse(&r.bytes)?;
    structure(c, &j)?;
    content(c, &j)?;
    Ok(Some(j))
}
fn structure(c: &Case, j: &Jpeg) -> Result<(), Fail> {
    let (u, x, y) = match c.density { 0 => (0u8, 1u16, 1u16), 1 => (1, 300, 72), 2 => (2, 0x1234, 0xFFFF), _ => (1, 1, 65535) };
    let mut jf = b"JFIF\0".to_vec(); jf.extend([1, 2, u, (x >> 8) as u8, x as u8, (y >> 8) as u8, y as u8, 0, 0]);
    if j.jfif.len() != jf.len() || j.jfif[..6] != jf[..6] || j.jfif[6] > 2 || j.jfif[7..] != jf[7..] { return Err(f(&["C08"], format!("APP0 payload is {:?}", j.jfif))); }
    let mut apps = &j.apps[..];
    if c.color >= 6 {
        let t = if c.color == 6 { 0u8 } else { 2 };
        match apps.first() {
            Some((14, d)) if d.len() == 12 && &d[..5] == b"Adobe" && d[11] == t => {}
            o => return Err(f(&["C08", "C11"], format!("Adobe segment is {:?}", o))),
        }
        apps = &apps[1..];
    }
    let added = c.app_data();
    for (i, (n, d)) in added.iter().enumerate() {
        match apps.get(i) { Some((m, e)) if m == n && e == d => {}, _ => return Err(f(&["C11", "C08"], format!("application segment {} (APP{}, {} bytes) is missing or altered", i, n, d.len()))) }
    }
    apps = &apps[added.len()..];
    let icc = c.icc_data();
    let n = cdiv(icc.len(), 65519);
    let mut got = vec![];
    if apps.len() != n { return Err(f(&["C11", "C08"], format!("{} further application segments, expected {}", apps.len(), n))); }
    for (i, (m, d)) in apps.iter().enumerate() {
        if *m != 2 || d.len() < 14 || &d[..12] != b"ICC_PROFILE\0" || d[12] as usize != i + 1 || d[13] as usize != n { return Err(f(&["C11"], format!("ICC chunk {} has a bad header", i))); }
        got.extend_from_slice(&d[14..]);
    }
    if got != icc { return Err(f(&["C11"], "the ICC profile was altered".into())); }
    // frame
    if (j.w, j.h) != (c.w, c.h) { return Err(f(&["C08"], format!("frame header says {}x{}", j.w, j.h))); }
    if j.comps.len() != c.ncomp() { return Err(f(&["C08"], format!("{} components", j.comps.len()))); }
    if j.progressive != (c.scans > 0) { return Err(f(&["C08", "C10"], "wrong frame type".into())); }
    let (fh, fv) = c.factors();
    for (i, k) in j.comps.iter().enumerate() {
        let want = match (c.ncomp(), i) { (1, _) => (1, 1), (3, 0) => (fh, fv), (4, 3) => (fh, fv), (4, 0) if c.color >= 7 => (fh, fv), _ => (1, 1) };
        if (k.h, k.v) != want { return Err(f(&["C07", "C08"], format!("component {} has sampling factors {}x{}, expected {}x{}", i, k.h, k.v, want.0, want.1))); }
        let luma = if c.color == 6 { i == 3 } else { i == 0 || i == 3 };
        if let Some(q) = j.qt[k.tq as usize] {
            let w = want_table(c, if luma { 0 } else { 1 });
            for z in 0..64 { if q[z] != w[ZZ[z]] { return Err(f(&["C04"], format!("component {}: announced divisor at zig-zag {} is {}, expected {}", i, z, q[z], w[ZZ[z]]))); } }
        }
    }
    // restarts
    let ri = c.restart;
    if ri == 0 && j.dri.unwrap_or(0) != 0 || ri != 0 && (j.dri != Some(ri) || j.dri_count != 1) { return Err(f(&["C09"], format!("restart interval {} announced as {:?}", ri, j.dri))); }
    // scans
    for (i, _) in j.comps.iter().enumerate() {
        let mut bands: Vec<(u8, u8)> = vec![];
        for s in &j.scans { if s.comps.contains(&i) { bands.push((s.ss, s.se)); } }
        if c.scans == 0 {
            if bands != [(0, 63)] { return Err(f(&["C10", "C08"], format!("component {} has scans {:?}", i, bands))); }
        } else {
            let n = if c.scans == 1 { 4 } else { c.scans as usize };
            if bands.first() != Some(&(0, 0)) || bands.len() != n { return Err(f(&["C10"], format!("component {} has scans {:?}, {} were requested", i, bands, n))); }
            let mut next = 1;
            for &(s, e) in &bands[1..] { if s != next || e < s { return Err(f(&["C10"], format!("component {} has bands {:?}", i, bands))); } next = e + 1; }
            if next != 64 { return Err(f(&["C10"], format!("component {} has bands {:?}", i, bands))); }
        }
    }
    // every coefficient exactly once
    for (i, k) in j.comps.iter().enumerate() {
        let inter = j.scans.iter().any(|s| s.comps.contains(&i) && s.comps.len() > 1);
        let (gw, gh) = if inter { (k.bw, k.bh) } else { (k.sw, k.sh) };
        for y in 0..gh { for x in 0..gw { for z in 0..64 { if k.seen[y * k.bw + x][z] != 1 { return Err(f(&["C10", "C07"], format!("component {} block {},{} coefficient {} was sent {} times", i, x, y, z, k.seen[y * k.bw + x][z]))); } } } }
    }
    Ok(())
}
fn content(c: &Case, j: &Jpeg) -> Result<(), Fail> {
    let data = c.data();
    let p = planes(c, &data);
    let rgb = (1..=4).contains(&c.color) || c.color == 7;
    let hm = j.comps.iter().map(|k| k.h).max().unwrap(); let vm = j.comps.iter().map(|k| k.v).max().unwrap();
    for (i, k) in j.comps.iter().enumerate() {
        let (sx, sy) = (hm / k.h, vm / k.v);
        let q = j.qt[k.tq as usize].unwrap();
        let inter = j.scans.iter().any(|s| s.comps.contains(&i) && s.comps.len() > 1);
        let (gw, gh) = if inter { (k.bw, k.bh) } else { (k.sw, k.sh) };
        // converted samples may differ by one in a correct encoder
        let slack = if rgb && i < 3 { 8.2 } else { 0.0 };
        let converted_flat = rgb && i < 3 && c.pattern == 2 && !c.custom;
        for by in 0..gh { for bx in 0..gw {
            let mut s = [0f64; 64];
            for y in 0..8 { for x in 0..8 {
                let ix = ((bx * 8 + x) * sx).min(c.w - 1); let iy = ((by * 8 + y) * sy).min(c.h - 1);
                s[y * 8 + x] = p[i][iy * c.w + ix] as f64 - 128.0;
            } }
            let t = dct(&s);
            let got = &k.coefs[by * k.bw + bx];
            for z in 0..64 {
                let d = q[z] as f64; let e = (got[z] as f64 * d - t[ZZ[z]]).abs();
                let pow2 = (q[z] as u32).is_power_of_two();
                let lim = (if pow2 { 0.5 } else { 2.0 / 3.0 }) * d + 1.0 + slack;
                if e > lim + 1e-6 {
                    // which guarantee is it?
                    let single = (0..64).filter(|&z| (got[z] as f64 * q[z] as f64 - t[ZZ[z]]).abs() > q[z] as f64 + 3.0 + slack).count();
                    let props: &'static [&'static str] = if rgb && i < 3 { &["C06", "C07", "C02", "C04", "C05", "C10", "C14"] } else { &["C07", "C04", "C05", "C02", "C06", "C10", "C14"] };
                    return Err(f(props, format!("component {} block {},{} coefficient {}: {} * {} = {} for a true value of {:.3} ({} coefficients of the block are far off)", i, bx, by, z, got[z], q[z], got[z] as f64 * d, t[ZZ[z]], single)));
                }
            }
            if converted_flat && q[0] == 1 && (1..64).all(|n| s[n] == s[0]) {
                // flat block and divisor 1: the sample is visible in the DC coefficient
                let ix = (bx * 8 * sx).min(c.w - 1); let iy = (by * 8 * sy).min(c.h - 1);
                let o = (iy * c.w + ix) * BPP[c.color];
                let (r, g, b) = if c.color == 3 || c.color == 4 { (data[o + 2], data[o + 1], data[o]) } else { (data[o], data[o + 1], data[o + 2]) };
                let v = jfif(r, g, b)[i];
                let seen = got[0] as f64 / 8.0 + 128.0;
                if (seen - v).abs() > 1.0 + 0.25 { return Err(f(&["C06"], format!("pixel ({},{},{}) at {},{}: component {} is {:.2}, JFIF formula {:.2}", r, g, b, ix, iy, i, seen, v))); }
            }
        } }
    }
    Ok(())
}
pub fn jfif(r: u8, g: u8, b: u8) -> [f64; 3] {
    let (r, g, b) = (r as f64, g as f64, b as f64);
    [0.299 * r + 0.587 * g + 0.114 * b, -0.168735892 * r - 0.331264108 * g + 0.5 * b + 128.0, 0.5 * r - 0.418687589 * g - 0.081312411 * b + 128.0]
}
