//! A test case, its text form, and running the real encoder on it
use crate::rng::Rng;
use jpeg_encoder::*;
use std::cell::RefCell;
use std::fmt::Write as _;
use std::rc::Rc;

pub const COLORS: [ColorType; 9] = [ColorType::Luma, ColorType::Rgb, ColorType::Rgba, ColorType::Bgr, ColorType::Bgra, ColorType::Ycbcr, ColorType::Cmyk, ColorType::CmykAsYcck, ColorType::Ycck];
pub const BPP: [usize; 9] = [1, 3, 4, 3, 4, 3, 4, 4, 4];
pub const SAMPLINGS: [SamplingFactor; 16] = [
    SamplingFactor::F_1_1, SamplingFactor::F_2_1, SamplingFactor::F_1_2, SamplingFactor::F_2_2, SamplingFactor::F_4_1, SamplingFactor::F_4_2,
    SamplingFactor::F_1_4, SamplingFactor::F_2_4, SamplingFactor::R_4_4_4, SamplingFactor::R_4_4_0, SamplingFactor::R_4_4_1, SamplingFactor::R_4_2_2,
    SamplingFactor::R_4_2_0, SamplingFactor::R_4_2_1, SamplingFactor::R_4_1_1, SamplingFactor::R_4_1_0,
];
pub const SF: [(usize, usize); 16] = [(1, 1), (2, 1), (1, 2), (2, 2), (4, 1), (4, 2), (1, 4), (2, 4), (1, 1), (1, 2), (1, 4), (2, 1), (2, 2), (2, 4), (4, 1), (4, 2)];

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub color: usize, pub w: usize, pub h: usize, pub quality: u8,
    /// sampling: 99 = leave the default
    pub sampling: usize,
    pub restart: u16,
    /// 0 = not progressive, 1 = set_progressive(true)
    pub scans: u8,
    pub optimize: bool,
    /// tables: 0..8 built-in, 100.. custom from seed
    pub qt: (u32, u32),
    pub density: u8,
    pub apps: u8, pub icc: usize,
    pub pattern: u8, pub seed: u64,
    /// bytes added to (or missing from) the input
    pub extra: i64,
    /// pass the image through a user-defined ImageBuffer
    pub custom: bool,
    /// sink: bytes accepted before it fails, bytes per write, failing flush
    pub fail_at: Option<usize>, pub chunk: usize, pub flush_fails: bool, pub once: bool,
}
impl Default for Case {
    fn default() -> Case {
        Case { color: 0, w: 8, h: 8, quality: 90, sampling: 99, restart: 0, scans: 0, optimize: false, qt: (0, 0), density: 0, apps: 0, icc: 0, pattern: 0, seed: 1, extra: 0, custom: false, fail_at: None, chunk: 0, flush_fails: false, once: false }
    }
}
impl Case {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = write!(s, "color={} w={} h={} quality={} sampling={} restart={} scans={} optimize={} qt0={} qt1={} density={} apps={} icc={} pattern={} seed={} extra={} custom={} fail_at={} chunk={} flush_fails={} once={}",
            self.color, self.w, self.h, self.quality, self.sampling, self.restart, self.scans, self.optimize as u8, self.qt.0, self.qt.1, self.density, self.apps, self.icc,
            self.pattern, self.seed, self.extra, self.custom as u8, self.fail_at.map_or(-1, |v| v as i64), self.chunk, self.flush_fails as u8, self.once as u8);
        s
    }
    pub fn from_text(t: &str) -> Case {
        let mut c = Case::default();
        for kv in t.split_whitespace() {
            let Some((k, v)) = kv.split_once('=') else { continue };
            let n: i64 = match v.parse::<i64>() { Ok(n) => n, Err(_) => v.parse::<u64>().unwrap_or(0) as i64 };
            match k {
                "color" => c.color = n as usize, "w" => c.w = n as usize, "h" => c.h = n as usize, "quality" => c.quality = n as u8, "sampling" => c.sampling = n as usize,
                "restart" => c.restart = n as u16, "scans" => c.scans = n as u8, "optimize" => c.optimize = n != 0, "qt0" => c.qt.0 = n as u32, "qt1" => c.qt.1 = n as u32,
                "density" => c.density = n as u8, "apps" => c.apps = n as u8, "icc" => c.icc = n as usize, "pattern" => c.pattern = n as u8, "seed" => c.seed = n as u64,
                "extra" => c.extra = n, "custom" => c.custom = n != 0, "fail_at" => c.fail_at = if n < 0 { None } else { Some(n as usize) }, "chunk" => c.chunk = n as usize, "once" => c.once = n != 0,
                "flush_fails" => c.flush_fails = n != 0, _ => {}
            }
        }
        c
    }
    pub fn ncomp(&self) -> usize { [1, 3, 3, 3, 3, 3, 4, 4, 4][self.color] }
    pub fn factors(&self) -> (usize, usize) {
        if self.sampling == 99 { if self.quality < 90 { (2, 2) } else { (1, 1) } } else { SF[self.sampling] }
    }
    pub fn custom_table(&self, which: usize) -> Option<[u16; 64]> {
        let t = if which == 0 { self.qt.0 } else { self.qt.1 };
        if t < 100 { return None; }
        let mut r = Rng::new(t as u64 * 77 + which as u64);
        let mut o = [0u16; 64];
        let kind = (t - 100) % 8;
        for v in &mut o {
            *v = match kind {
                0 => r.range(1, 255) as u16,
                1 => 1,
                2 => r.pick(&[0, 1, 2, 255, 256, 1000, 8191, 8192, 32767, 65535]),
                3 => 255,
                4 => r.pick(&[1, 2, 4, 8, 16, 32, 64, 128]),
                5 => r.range(0, 65535) as u16,
                6 => r.range(1, 16) as u16,
                _ => r.pick(&[3, 5, 7, 9, 11, 13, 99, 127, 129, 251, 253, 254]),
            };
        }
        Some(o)
    }
    fn qtype(&self, which: usize) -> QuantizationTableType {
        use QuantizationTableType::*;
        if let Some(t) = self.custom_table(which) { return Custom(Box::new(t)); }
        match if which == 0 { self.qt.0 } else { self.qt.1 } {
            0 => Default, 1 => Flat, 2 => CustomMsSsim, 3 => CustomPsnrHvs, 4 => ImageMagick, 5 => KleinSilversteinCarney, 6 => DentalXRays, 7 => VisualDetectionModel, _ => ImprovedDetectionModel,
        }
    }
    /// application segments that are added, in order
    pub fn app_data(&self) -> Vec<(u8, Vec<u8>)> {
        let mut r = Rng::new(self.seed ^ 0xA99);
        (0..self.apps).map(|i| {
            let nr = if i == 0 && r.chance(1, 2) { r.pick(&[1, 15, 14, 2]) } else { r.range(1, 15) as u8 };
            let len = if self.apps == 1 { r.pick(&[65533, 65532, 0, 1]) } else { r.pick(&[0, 1, 2, 12, 255, 256, 300]) };
            (nr, (0..len).map(|_| if r.chance(1, 8) { 0xFF } else { r.next() as u8 }).collect())
        }).collect()
    }
    pub fn icc_data(&self) -> Vec<u8> { let mut r = Rng::new(self.seed ^ 0x1CC); (0..self.icc).map(|_| r.next() as u8).collect() }
    pub fn density_value(&self) -> Density {
        match self.density { 0 => Density::None, 1 => Density::Inch { x: 300, y: 72 }, 2 => Density::Centimeter { x: 0x1234, y: 0xFFFF }, _ => Density::Inch { x: 1, y: 65535 } }
    }
    /// input bytes
    pub fn data(&self) -> Vec<u8> {
        let bpp = BPP[self.color];
        let n = (self.w * self.h * bpp) as i64 + self.extra;
        let n = n.max(0) as usize;
        let mut d = vec![0u8; n];
        let mut r = Rng::new(self.seed);
        let (w, h) = (self.w, self.h);
        let px = |d: &mut Vec<u8>, x: usize, y: usize, c: usize, v: u8| { let i = (y * w + x) * bpp + c; if i < d.len() { d[i] = v; } };
        match self.pattern {
            0 => for v in &mut d { *v = r.next() as u8; },
            1 => for y in 0..h { for x in 0..w { for c in 0..bpp { let v = (x * (3 + c) + y * (5 - c)) as u8 ^ (r.below(4) as u8); px(&mut d, x, y, c, v); } } },
            2 => { // flat 8x8 blocks (8 * factor, so that subsampled blocks are flat too)
                let (fh, fv) = self.factors();
                let bw = 8 * fh; let bh = 8 * fv; let k = r.next();
                for y in 0..h { for x in 0..w { let mut q = Rng::new(k ^ ((y / bh) as u64 * 4099 + (x / bw) as u64)); for c in 0..bpp { let v = if q.chance(1, 6) { q.pick(&[0, 255, 1, 254]) } else { q.next() as u8 }; px(&mut d, x, y, c, v); } } }
            }
            3 => for v in &mut d { *v = if r.chance(1, 2) { 0 } else { 255 }; },
            4 => { let cs: Vec<u8> = (0..bpp).map(|_| r.pick(&[0, 255, 128, 127, 17, 200])).collect(); for y in 0..h { for x in 0..w { for c in 0..bpp { px(&mut d, x, y, c, cs[c]); } } } }
            5 => for y in 0..h { for x in 0..w { for c in 0..bpp { px(&mut d, x, y, c, if (x + y + c) % 2 == 0 { 0 } else { 255 }); } } },
            6 => { // per block the sign pattern of one DCT basis function at full amplitude
                let k = r.next();
                for y in 0..h { for x in 0..w { for c in 0..bpp {
                    let mut q = Rng::new(k ^ ((y / 8) as u64 * 65537 + (x / 8) as u64 * 16 + c as u64));
                    let (u, v, inv) = (q.below(8) as f64, q.below(8) as f64, q.chance(1, 2));
                    let s = ((2 * (x % 8) + 1) as f64 * u * std::f64::consts::PI / 16.0).cos() * ((2 * (y % 8) + 1) as f64 * v * std::f64::consts::PI / 16.0).cos();
                    px(&mut d, x, y, c, if (s > 0.0) != inv { 255 } else { 0 });
                } } }
            }
            7 => { // few non-zero coefficients per block
                let k = r.next();
                for by in 0..(h + 7) / 8 { for bx in 0..(w + 7) / 8 { for c in 0..bpp {
                    let mut q = Rng::new(k ^ (by as u64 * 1000003 + bx as u64 * 17 + c as u64));
                    let mut co = [0f64; 64];
                    co[0] = q.range(-600, 600) as f64;
                    for _ in 0..q.below(4) { co[q.below(64) as usize] = q.pick(&[3.0, -5.0, 17.0, -40.0, 90.0, -200.0, 300.0]); }
                    let s = idct(&co);
                    for y in 0..8 { for x in 0..8 { if by * 8 + y < h && bx * 8 + x < w { px(&mut d, bx * 8 + x, by * 8 + y, c, (s[y * 8 + x] + 128.0).round().clamp(0.0, 255.0) as u8); } } }
                } } }
            }
            8 => for y in 0..h { for x in 0..w { for c in 0..bpp { px(&mut d, x, y, c, if (x / 8 + y / 8 + c) % 2 == 0 { 0 } else { 255 }); } } },
            9 => for y in 0..h { for x in 0..w { for c in 0..bpp { px(&mut d, x, y, c, ((x * 7 + y * 31 + c * 101) % 251) as u8); } } },
            10 => { let base = r.pick(&[0u8, 128, 255]); for v in &mut d { *v = base; } for _ in 0..(w * h / 40 + 1) { let (x, y, c) = (r.below(w as u64) as usize, r.below(h as u64) as usize, r.below(bpp as u64) as usize); px(&mut d, x, y, c, 255 - base / 2); } }
            11 => { // skewed statistics: geometric choice of a single coefficient per block
                let k = r.next();
                for by in 0..(h + 7) / 8 { for bx in 0..(w + 7) / 8 { for c in 0..bpp {
                    let mut q = Rng::new(k ^ (by as u64 * 1000003 + bx as u64 * 17 + c as u64));
                    let mut g = 0; while g < 62 && q.chance(618, 1000) { g += 1; }
                    let mut co = [0f64; 64];
                    co[crate::jpeg::ZZ[63 - g.min(40)]] = [20.0, 60.0, 120.0, 260.0, 500.0][g % 5];
                    let s = idct(&co);
                    for y in 0..8 { for x in 0..8 { if by * 8 + y < h && bx * 8 + x < w { px(&mut d, bx * 8 + x, by * 8 + y, c, (s[y * 8 + x] + 128.0).round().clamp(0.0, 255.0) as u8); } } }
                } } }
            }
            _ => for v in &mut d { *v = 128; },
        }
        let core = (w * h * bpp).min(d.len());
        for v in &mut d[core..] { *v = r.next() as u8; }
        d
    }
}
pub fn idct(co: &[f64; 64]) -> [f64; 64] {
    let t = tab();
    let mut tmp = [0f64; 64]; let mut o = [0f64; 64];
    for v in 0..8 { for x in 0..8 { let mut s = 0.0; for u in 0..8 { s += t[u * 8 + x] * co[v * 8 + u]; } tmp[v * 8 + x] = s; } }
    for y in 0..8 { for x in 0..8 { let mut s = 0.0; for v in 0..8 { s += t[v * 8 + y] * tmp[v * 8 + x]; } o[y * 8 + x] = s; } }
    o
}
pub fn dct(sm: &[f64; 64]) -> [f64; 64] {
    let t = tab();
    let mut tmp = [0f64; 64]; let mut o = [0f64; 64];
    for y in 0..8 { for u in 0..8 { let mut s = 0.0; for x in 0..8 { s += t[u * 8 + x] * sm[y * 8 + x]; } tmp[y * 8 + u] = s; } }
    for v in 0..8 { for u in 0..8 { let mut s = 0.0; for y in 0..8 { s += t[v * 8 + y] * tmp[y * 8 + u]; } o[v * 8 + u] = s; } }
    o
}
pub fn tab() -> &'static [f64; 64] {
    use std::sync::OnceLock;
    static T: OnceLock<[f64; 64]> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0f64; 64];
        for u in 0..8 { for x in 0..8 { t[u * 8 + x] = (if u == 0 { 0.125f64.sqrt() } else { 0.5 }) * ((2 * x + 1) as f64 * u as f64 * std::f64::consts::PI / 16.0).cos(); } }
        t
    })
}
#[derive(Default)]
pub struct State { pub bytes: Vec<u8>, pub flushed: usize, pub writes: usize }
pub struct Sink { pub st: Rc<RefCell<State>>, pub fail_at: Option<usize>, pub chunk: usize, pub flush_fails: bool, pub once: bool, pub intr: bool }
impl Sink {
    fn accept(&mut self, buf: &[u8]) -> Result<usize, ()> {
        let mut st = self.st.borrow_mut();
        let mut n = buf.len();
        if self.chunk > 0 { n = n.min(self.chunk); }
        if let Some(f) = self.fail_at { n = n.min(f.saturating_sub(st.bytes.len())); if n == 0 && !buf.is_empty() { if self.once { self.fail_at = None; } return Err(()); } }
        st.bytes.extend_from_slice(&buf[..n]);
        st.writes += 1;
        Ok(n)
    }
}
/// kinds of errors a device may report: none of them may be swallowed
#[cfg(feature = "std")]
fn device_error(n: usize) -> std::io::Error {
    use std::io::ErrorKind::*;
    std::io::Error::new([Other, BrokenPipe, WouldBlock, WriteZero, UnexpectedEof, PermissionDenied, TimedOut][n % 7], "sink failed")
}
#[cfg(feature = "std")]
impl std::io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.chunk == 5 {
            // every other call is interrupted by a signal: nothing was taken, the caller is to try again (or to give up with an error)
            self.intr = !self.intr;
            if self.intr { return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted")); }
        }
        let full = self.fail_at.map_or(0, |f| f + 1);
        match self.accept(buf) {
            Ok(n) => Ok(n),
            // a device that is full may also say that it took nothing
            Err(()) if full % 8 == 7 => Ok(0),
            Err(()) => Err(device_error(full)),
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.flush_fails { let n = self.st.borrow().bytes.len(); return Err(device_error(n)); }
        let mut st = self.st.borrow_mut(); st.flushed = st.bytes.len(); Ok(())
    }
}
#[cfg(not(feature = "std"))]
impl JfifWrite for Sink {
    fn write_all(&mut self, buf: &[u8]) -> Result<(), EncodingError> {
        let mut b = buf;
        while !b.is_empty() { match self.accept(b) { Ok(n) => b = &b[n..], Err(()) => return Err(EncodingError::Write("sink failed".into())) } }
        Ok(())
    }
    fn flush(&mut self) -> Result<(), EncodingError> {
        if self.flush_fails { return Err(EncodingError::Write("flush failed".into())); }
        let mut st = self.st.borrow_mut(); st.flushed = st.bytes.len(); Ok(())
    }
}
pub struct Planes { pub ct: JpegColorType, pub w: u16, pub h: u16, pub p: Vec<Vec<u8>> }
impl ImageBuffer for Planes {
    fn get_jpeg_color_type(&self) -> JpegColorType { self.ct }
    fn width(&self) -> u16 { self.w }
    fn height(&self) -> u16 { self.h }
    fn fill_buffers(&self, y: u16, b: &mut [Vec<u8>; 4]) {
        assert!(y < self.h, "row {} of {} rows requested", y, self.h);
        for (i, p) in self.p.iter().enumerate() { b[i].extend_from_slice(&p[y as usize * self.w as usize..(y as usize + 1) * self.w as usize]); }
    }
}
pub enum Res { Ok, Err(String), Panic(String) }
pub struct Run { pub res: Res, pub bytes: Vec<u8>, pub flushed: usize }
impl Run { pub fn ok(&self) -> bool { matches!(self.res, Res::Ok) } }

/// component planes the encoder has to code, by the documented meaning of each input format
pub fn planes(c: &Case, d: &[u8]) -> Vec<Vec<u8>> {
    let n = c.w * c.h; let b = BPP[c.color];
    let mut p = vec![vec![0u8; n]; c.ncomp()];
    for i in 0..n {
        let q = &d[i * b..i * b + b];
        match c.color {
            0 => p[0][i] = q[0],
            1..=4 => { let (r, g, bl) = if c.color <= 2 { (q[0], q[1], q[2]) } else { (q[2], q[1], q[0]) }; let t = rgb_to_ycbcr(r, g, bl); p[0][i] = t.0; p[1][i] = t.1; p[2][i] = t.2; }
            5 => for k in 0..3 { p[k][i] = q[k]; },
            6 => for k in 0..4 { p[k][i] = 255 - q[k]; },
            7 => { let t = rgb_to_ycbcr(q[0], q[1], q[2]); p[0][i] = t.0; p[1][i] = t.1; p[2][i] = t.2; p[3][i] = 255 - q[3]; }
            _ => for k in 0..4 { p[k][i] = q[k]; },
        }
    }
    p
}
pub fn run(c: &Case) -> Run {
    let data = c.data();
    let st = Rc::new(RefCell::new(State::default()));
    let sink = Sink { st: st.clone(), fail_at: c.fail_at, chunk: c.chunk, flush_fails: c.flush_fails, once: c.once, intr: false };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
        let mut e = Encoder::new(sink, c.quality);
        configure(&mut e, c)?;
        let r = if c.custom {
            let ct = match c.color { 0 => JpegColorType::Luma, 1..=5 => JpegColorType::Ycbcr, 6 => JpegColorType::Cmyk, _ => JpegColorType::Ycck };
            let p = planes(c, &data);
            e.encode_image(Planes { ct, w: c.w as u16, h: c.h as u16, p })
        } else { e.encode(&data, c.w as u16, c.h as u16, COLORS[c.color]) };
        r.map_err(|x| format!("{:?}", x))
    }));
    let res = match r {
        Ok(Ok(())) => Res::Ok, Ok(Err(e)) => Res::Err(e),
        Err(p) => Res::Panic(p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
    };
    let s = st.borrow();
    Run { res, bytes: s.bytes.clone(), flushed: s.flushed }
}
pub fn configure<W: JfifWrite>(e: &mut Encoder<W>, c: &Case) -> Result<(), String> {
    if c.sampling != 99 { e.set_sampling_factor(SAMPLINGS[c.sampling]); }
    if c.density > 0 { e.set_density(c.density_value()); }
    if c.restart > 0 { e.set_restart_interval(c.restart); }
    if c.scans == 1 { e.set_progressive(true); } else if c.scans > 1 { e.set_progressive_scans(c.scans); }
    if c.optimize { e.set_optimized_huffman_tables(true); }
    if c.qt != (0, 0) { e.set_quantization_tables(c.qtype(0), c.qtype(1)); }
    for (nr, d) in c.app_data() { e.add_app_segment(nr, &d).map_err(|x| format!("add_app_segment({}, {} bytes): {:?}", nr, d.len(), x))?; }
    if c.icc > 0 { e.add_icc_profile(&c.icc_data()).map_err(|x| format!("add_icc_profile({} bytes): {:?}", c.icc, x))?; }
    Ok(())
}
