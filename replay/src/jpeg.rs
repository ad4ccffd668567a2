//! A strict, independent JPEG reader: it accounts for every byte and reports which guarantee a deviation concerns.
#[derive(Clone, Debug)]
pub struct Fail { pub props: &'static [&'static str], pub msg: String }
pub fn fail<T>(props: &'static [&'static str], msg: String) -> Result<T, Fail> { Err(Fail { props, msg }) }

pub const ZZ: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57,
    50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];
#[derive(Clone)]
pub struct Huff { first: [i32; 17], count: [i32; 17], start: [i32; 17], values: Vec<u8> }
#[derive(Clone, Debug)]
pub struct Comp {
    pub id: u8, pub h: usize, pub v: usize, pub tq: u8,
    /// grid stored (padded to whole MCUs) and grid a non-interleaved scan transmits
    pub bw: usize, pub bh: usize, pub sw: usize, pub sh: usize,
    /// quantized coefficients in zig-zag order
    pub coefs: Vec<[i32; 64]>,
    pub seen: Vec<[u8; 64]>,
}
#[derive(Clone, Debug)]
pub struct Scan { pub comps: Vec<usize>, pub ss: u8, pub se: u8, pub mcus: usize, pub rsts: usize, pub td: Vec<u8>, pub ta: Vec<u8> }
pub struct Jpeg {
    pub jfif: Vec<u8>,
    pub apps: Vec<(u8, Vec<u8>)>,
    pub progressive: bool, pub w: usize, pub h: usize, pub comps: Vec<Comp>,
    pub qt: [Option<[u8; 64]>; 4],
    pub dri: Option<u16>, pub dri_count: usize,
    pub scans: Vec<Scan>,
    pub max_dc_size: u8, pub max_ac_size: u8,
}
pub fn cdiv(a: usize, b: usize) -> usize { (a + b - 1) / b }

const STRUCT: &[&str] = &["C08", "C01", "C11"];
const ENTROPY: &[&str] = &["C01", "C02", "C03", "C09", "C10", "C07"];
const HUFF: &[&str] = &["C03"];

fn build(lens: &[u8], values: &[u8]) -> Result<Huff, Fail> {
    let n: usize = lens.iter().map(|&l| l as usize).sum();
    if n != values.len() { return fail(&["C03", "C08"], format!("DHT lists {} values for {} codes", values.len(), n)); }
    if n == 0 || n > 256 { return fail(HUFF, format!("DHT with {} codes", n)); }
    let mut dup = [false; 256];
    for &v in values { if dup[v as usize] { return fail(HUFF, format!("symbol {:#x} has two codes", v)); } dup[v as usize] = true; }
    let mut h = Huff { first: [0; 17], count: [0; 17], start: [0; 17], values: values.to_vec() };
    let (mut code, mut k) = (0i32, 0i32);
    for s in 1..=16usize {
        h.first[s] = code; h.count[s] = lens[s - 1] as i32; h.start[s] = k;
        code += lens[s - 1] as i32; k += lens[s - 1] as i32;
        if code > (1 << s) - 1 && lens[s - 1] > 0 { return fail(HUFF, format!("code lengths are over-full or use an all-ones code at {} bits: {:?}", s, lens)); }
        if code > (1 << s) { return fail(HUFF, format!("code lengths are over-full: {:?}", lens)); }
        code <<= 1;
    }
    Ok(h)
}
struct Bits<'a> { d: &'a [u8], pos: usize }
impl<'a> Bits<'a> {
    fn left(&self) -> usize { self.d.len() * 8 - self.pos }
    fn bit(&mut self) -> Option<i32> {
        if self.pos >= self.d.len() * 8 { return None; }
        let b = (self.d[self.pos / 8] >> (7 - self.pos % 8)) & 1; self.pos += 1; Some(b as i32)
    }
    fn get(&mut self, n: usize) -> Option<i32> { let mut v = 0; for _ in 0..n { v = v * 2 + self.bit()?; } Some(v) }
    fn sym(&mut self, h: &Huff) -> Result<u8, Fail> {
        let mut c = 0;
        for s in 1..=16 {
            match self.bit() { Some(b) => c = c * 2 + b, None => return fail(ENTROPY, "entropy-coded data ends within a code".into()) }
            if h.count[s] > 0 && c >= h.first[s] && c < h.first[s] + h.count[s] { return Ok(h.values[(h.start[s] + c - h.first[s]) as usize]); }
        }
        fail(ENTROPY, "bits that are no code of the announced table".into())
    }
    fn ext(&mut self, n: usize) -> Result<i32, Fail> {
        if n == 0 { return Ok(0); }
        match self.get(n) { None => fail(ENTROPY, "entropy-coded data ends within additional bits".into()), Some(v) => Ok(if v < 1 << (n - 1) { v - (1 << n) + 1 } else { v }) }
    }
}
/// Splits the entropy-coded data at `p` into restart segments (unstuffed); returns them, the RST numbers and the position of the next marker
fn entropy(b: &[u8], mut p: usize) -> Result<(Vec<Vec<u8>>, Vec<u8>, usize), Fail> {
    let mut segs = vec![vec![]]; let mut rst = vec![];
    loop {
        if p >= b.len() { return fail(STRUCT, "stream ends within a scan".into()); }
        if b[p] != 0xFF { segs.last_mut().unwrap().push(b[p]); p += 1; continue; }
        if p + 1 >= b.len() { return fail(STRUCT, "stream ends with 0xFF".into()); }
        match b[p + 1] {
            0 => { segs.last_mut().unwrap().push(0xFF); p += 2; }
            m @ 0xD0..=0xD7 => { rst.push(m - 0xD0); segs.push(vec![]); p += 2; }
            0xFF => return fail(&["C01", "C08"], "0xFF fill byte or unstuffed 0xFF in entropy-coded data".into()),
            _ => return Ok((segs, rst, p)),
        }
    }
}
pub fn parse(b: &[u8]) -> Result<Jpeg, Fail> {
    let mut j = Jpeg { jfif: vec![], apps: vec![], progressive: false, w: 0, h: 0, comps: vec![], qt: [None; 4], dri: None, dri_count: 0, scans: vec![], max_dc_size: 0, max_ac_size: 0 };
    let mut hd: [Option<Huff>; 4] = [None, None, None, None];
    let mut ha: [Option<Huff>; 4] = [None, None, None, None];
    if b.len() < 4 || b[0] != 0xFF || b[1] != 0xD8 { return fail(STRUCT, "no SOI".into()); }
    let mut p = 2; let mut sof = false; let mut first = true;
    loop {
        if p + 2 > b.len() { return fail(STRUCT, "stream ends without EOI".into()); }
        if b[p] != 0xFF { return fail(STRUCT, format!("byte {:#04x} at offset {} where a marker has to be", b[p], p)); }
        let m = b[p + 1];
        if m == 0xD9 {
            if p + 2 != b.len() { return fail(STRUCT, format!("{} bytes after EOI", b.len() - p - 2)); }
            if !sof { return fail(STRUCT, "no frame header".into()); }
            if j.scans.is_empty() { return fail(STRUCT, "no scan".into()); }
            return Ok(j);
        }
        if p + 4 > b.len() { return fail(STRUCT, "stream ends within a marker segment".into()); }
        let l = (b[p + 2] as usize) << 8 | b[p + 3] as usize;
        if l < 2 || p + 2 + l > b.len() { return fail(STRUCT, format!("segment {:#04x} has bad length {}", m, l)); }
        let d = &b[p + 4..p + 2 + l];
        p += 2 + l;
        if first && m != 0xE0 { return fail(STRUCT, format!("first segment is {:#04x}, not APP0", m)); }
        first = false;
        match m {
            0xE0 => {
                if !j.jfif.is_empty() { return fail(&["C08", "C11"], "second APP0 segment".into()); }
                j.jfif = d.to_vec();
            }
            0xE1..=0xEF => {
                if sof { return fail(&["C08", "C11"], "APP segment after the frame header".into()); }
                j.apps.push((m - 0xE0, d.to_vec()));
            }
            0xDB => {
                let mut q = d;
                while !q.is_empty() {
                    if q[0] > 3 { return fail(STRUCT, format!("DQT with precision/destination {:#04x}", q[0])); }
                    if q.len() < 65 { return fail(STRUCT, "DQT with wrong length".into()); }
                    let mut t = [0u8; 64]; t.copy_from_slice(&q[1..65]);
                    if t.iter().any(|&v| v == 0) { return fail(&["C04", "C08"], "zero in an announced quantization table".into()); }
                    if !j.scans.is_empty() { return fail(STRUCT, "DQT after the first scan".into()); }
                    j.qt[q[0] as usize] = Some(t); q = &q[65..];
                }
            }
            0xC4 => {
                let mut q = d;
                while !q.is_empty() {
                    let (c, dst) = (q[0] >> 4, (q[0] & 15) as usize);
                    if c > 1 || dst > 3 || q.len() < 17 { return fail(STRUCT, "DHT with bad class, destination or length".into()); }
                    let n: usize = q[1..17].iter().map(|&v| v as usize).sum();
                    if q.len() < 17 + n { return fail(&["C03", "C08"], "DHT shorter than its code count".into()); }
                    let h = build(&q[1..17], &q[17..17 + n])?;
                    if c == 0 { hd[dst] = Some(h) } else { ha[dst] = Some(h) }
                    q = &q[17 + n..];
                }
            }
            0xC0 | 0xC1 | 0xC2 => {
                if sof { return fail(STRUCT, "second frame header".into()); }
                sof = true;
                if m == 0xC1 { return fail(STRUCT, "extended frame header".into()); }
                j.progressive = m == 0xC2;
                if d.len() < 6 || d.len() != 6 + 3 * d[5] as usize || d[0] != 8 { return fail(STRUCT, "bad frame header".into()); }
                j.h = (d[1] as usize) << 8 | d[2] as usize; j.w = (d[3] as usize) << 8 | d[4] as usize;
                if j.h == 0 || j.w == 0 || d[5] == 0 || d[5] > 4 { return fail(STRUCT, "bad dimensions or component count".into()); }
                for c in d[6..].chunks(3) {
                    let (h, v) = ((c[1] >> 4) as usize, (c[1] & 15) as usize);
                    if h == 0 || h > 4 || v == 0 || v > 4 || c[2] > 3 { return fail(&["C08", "C07"], "bad sampling factors or table selector".into()); }
                    if j.comps.iter().any(|o| o.id == c[0]) { return fail(STRUCT, "component id used twice".into()); }
                    j.comps.push(Comp { id: c[0], h, v, tq: c[2], bw: 0, bh: 0, sw: 0, sh: 0, coefs: vec![], seen: vec![] });
                }
                let hm = j.comps.iter().map(|c| c.h).max().unwrap(); let vm = j.comps.iter().map(|c| c.v).max().unwrap();
                let (mx, my) = (cdiv(j.w, 8 * hm), cdiv(j.h, 8 * vm));
                for c in &mut j.comps {
                    c.bw = mx * c.h; c.bh = my * c.v;
                    c.sw = cdiv(cdiv(j.w * c.h, hm), 8); c.sh = cdiv(cdiv(j.h * c.v, vm), 8);
                    c.coefs = vec![[0; 64]; c.bw * c.bh]; c.seen = vec![[0; 64]; c.bw * c.bh];
                }
            }
            0xDD => {
                if d.len() != 2 { return fail(&["C09", "C08"], "DRI with wrong length".into()); }
                j.dri = Some((d[0] as u16) << 8 | d[1] as u16); j.dri_count += 1;
            }
            0xDA => {
                if !sof { return fail(STRUCT, "scan before the frame header".into()); }
                if d.is_empty() || d[0] == 0 || d[0] > 4 || d.len() != 4 + 2 * d[0] as usize { return fail(STRUCT, "bad scan header".into()); }
                let n = d[0] as usize;
                let (ss, se, al) = (d[1 + 2 * n] as usize, d[2 + 2 * n] as usize, d[3 + 2 * n]);
                let mut sc = Scan { comps: vec![], ss: ss as u8, se: se as u8, mcus: 0, rsts: 0, td: vec![], ta: vec![] };
                for c in d[1..1 + 2 * n].chunks(2) {
                    match j.comps.iter().position(|o| o.id == c[0]) {
                        Some(i) => { if sc.comps.iter().any(|&o| o >= i) { return fail(STRUCT, "scan components out of order".into()); } sc.comps.push(i) }
                        None => return fail(STRUCT, "scan of an unknown component".into()),
                    }
                    sc.td.push(c[1] >> 4); sc.ta.push(c[1] & 15);
                }
                if al != 0 { return fail(&["C08", "C10"], "successive approximation bits set".into()); }
                if j.progressive {
                    if ss > se || se > 63 || (ss == 0 && se != 0) || (ss > 0 && n != 1) { return fail(&["C10", "C08"], format!("illegal spectral band {}..{}", ss, se)); }
                } else if ss != 0 || se != 63 { return fail(&["C08", "C10"], format!("sequential scan with band {}..{}", ss, se)); }
                let lim = if j.progressive { 3 } else { 1 };
                for i in 0..n {
                    let c = &j.comps[sc.comps[i]];
                    if j.qt[c.tq as usize].is_none() { return fail(&["C08", "C04"], format!("quantization table {} is not defined before the scan", c.tq)); }
                    if sc.td[i] > lim || sc.ta[i] > lim { return fail(STRUCT, "Huffman table selector out of range".into()); }
                    if ss == 0 && hd[sc.td[i] as usize].is_none() { return fail(&["C08", "C03"], "DC table used but not defined".into()); }
                    if se > 0 && ha[sc.ta[i] as usize].is_none() { return fail(&["C08", "C03"], "AC table used but not defined".into()); }
                }
                if n > 1 && sc.comps.iter().map(|&i| j.comps[i].h * j.comps[i].v).sum::<usize>() > 10 { return fail(&["C07", "C08"], "more than 10 blocks in an MCU".into()); }
                let (segs, rst, np) = entropy(b, p)?;
                p = np;
                // block order
                let hm = j.comps.iter().map(|c| c.h).max().unwrap(); let vm = j.comps.iter().map(|c| c.v).max().unwrap();
                let (mx, my) = if n == 1 { let c = &j.comps[sc.comps[0]]; (c.sw, c.sh) } else { (cdiv(j.w, 8 * hm), cdiv(j.h, 8 * vm)) };
                let mcus = mx * my;
                sc.mcus = mcus; sc.rsts = rst.len();
                let ri = j.dri.unwrap_or(0) as usize;
                let want = if ri == 0 { 0 } else { (mcus - 1) / ri };
                if ri == 0 && !rst.is_empty() { return fail(&["C09"], "restart marker without a restart interval".into()); }
                if rst.len() != want { return fail(&["C09", "C07", "C10"], format!("{} restart markers in a scan of {} MCUs with interval {}", rst.len(), mcus, ri)); }
                for (i, &r) in rst.iter().enumerate() { if r as usize != i % 8 { return fail(&["C09"], format!("restart marker {} is numbered {}", i, r)); } }
                let mut mcu = 0;
                for s in &segs {
                    let mut bits = Bits { d: s, pos: 0 };
                    let mut pred = [0i32; 4];
                    let end = if ri == 0 { mcus } else { (mcu + ri).min(mcus) };
                    while mcu < end {
                        for (ci, &i) in sc.comps.iter().enumerate() {
                            let (bh, bv) = if n == 1 { (1, 1) } else { (j.comps[i].h, j.comps[i].v) };
                            for v in 0..bv { for h in 0..bh {
                                let bx = (mcu % mx) * bh + h; let by = (mcu / mx) * bv + v;
                                let at = by * j.comps[i].bw + bx;
                                let (cs, seen) = { let c = &mut j.comps[i]; (&mut c.coefs[at], &mut c.seen[at]) };
                                if ss == 0 {
                                    let t = bits.sym(hd[sc.td[ci] as usize].as_ref().unwrap())?;
                                    if t > 11 { return fail(&["C05", "C02", "C03", "C01"], format!("DC difference category {}", t)); }
                                    j.max_dc_size = j.max_dc_size.max(t);
                                    pred[ci] += bits.ext(t as usize)?;
                                    cs[0] = pred[ci]; seen[0] += 1;
                                }
                                if se > 0 {
                                    let t = ha[sc.ta[ci] as usize].as_ref().unwrap();
                                    let mut k = ss.max(1); let mut zrl = false;
                                    for x in k..=se { seen[x] = seen[x].saturating_add(1); }
                                    while k <= se {
                                        let rs = bits.sym(t)?; let (r, s) = ((rs >> 4) as usize, (rs & 15) as usize);
                                        if s == 0 {
                                            if r == 15 { k += 16; zrl = true; if k > se { return fail(&["C02", "C01"], "ZRL code for trailing zeros".into()); } continue; }
                                            if r == 0 { if zrl { return fail(&["C02", "C01"], "ZRL code followed by EOB".into()); } break; }
                                            return fail(&["C02", "C03", "C01"], format!("symbol {:#x} in a scan", rs));
                                        }
                                        zrl = false;
                                        if s > 10 { return fail(&["C05", "C02", "C03", "C01"], format!("AC category {}", s)); }
                                        j.max_ac_size = j.max_ac_size.max(s as u8);
                                        k += r;
                                        if k > se { return fail(ENTROPY, format!("run leads to coefficient {} in band {}..{}", k, ss, se)); }
                                        cs[k] = bits.ext(s)?; k += 1;
                                    }
                                }
                            } }
                        }
                        mcu += 1;
                    }
                    if bits.left() >= 8 { return fail(ENTROPY, format!("{} bits left over at the end of a segment of entropy-coded data", bits.left())); }
                    while let Some(x) = bits.bit() { if x != 1 { return fail(&["C01", "C09"], "padding is not all ones".into()); } }
                }
                j.scans.push(sc);
            }
            _ => return fail(STRUCT, format!("unexpected segment {:#04x}", m)),
        }
    }
}
