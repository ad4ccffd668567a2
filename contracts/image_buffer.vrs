//@ extra mod
/// the conversion: the JFIF matrix in units of 2^-16, rounded
#[verifier::opaque]
pub open spec fn ycc(r: u8, g: u8, b: u8) -> (u8, u8, u8) {
    (
        ((19595 * r + 38470 * g + 7471 * b + 32767) / 65536) as u8,
        ((32768 * b - 11059 * r - 21709 * g + 8421375) / 65536) as u8,
        ((32768 * r - 27439 * g - 5329 * b + 8421375) / 65536) as u8,
    )
}
/// products by a negative constant, made linear
pub proof fn lemma_neg(c: int, x: int)
    ensures c == -11059 ==> c * x == -(11059 * x), c == -21709 ==> c * x == -(21709 * x), c == -27439 ==> c * x == -(27439 * x), c == -5329 ==> c * x == -(5329 * x),
{}
/// |p - q*v| <= q : v is within one unit of p/q
pub open spec fn within1(v: int, p: int, q: int) -> bool { -q <= q * v - p <= q }
/// JFIF: Y = 0.299 R + 0.587 G + 0.114 B, Cb = (B - Y) / 1.772 + 128, Cr = (R - Y) / 1.402 + 128
pub open spec fn jfif_ok(r: u8, g: u8, b: u8, c: (u8, u8, u8)) -> bool {
    &&& within1(c.0 as int, 299 * r + 587 * g + 114 * b, 1000)
    &&& within1(c.1 - 128, 886 * b - 299 * r - 587 * g, 1772)
    &&& within1(c.2 - 128, 701 * r - 587 * g - 114 * b, 1402)
    &&& (r == g && g == b ==> c.1 == 128 && c.2 == 128)
}
pub proof fn lemma_shr16(x: i32)
    requires x >= 0
    ensures x >> 16 == x / 65536
{ assert(x >> 16i32 == x / 65536) by (bit_vector) requires x >= 0; }
pub open spec fn ncomp(t: JpegColorType) -> int {
    match t { JpegColorType::Luma => 1, JpegColorType::Ycbcr => 3, JpegColorType::Cmyk => 4, JpegColorType::Ycck => 4 }
}
//@ extra ImageBuffer
    spec fn i_color(&self) -> JpegColorType;
    spec fn i_width(&self) -> u16;
    spec fn i_height(&self) -> u16;
    /// sample of component c at column x of row y
    spec fn sample(&self, c: int, x: int, y: int) -> u8;
    /// the pixel data is long enough
    spec fn valid(&self) -> bool;
//@ fn ImageBuffer::get_jpeg_color_type
    ensures res == self.i_color(),
//@ fn ImageBuffer::width
    ensures res == self.i_width(),
//@ fn ImageBuffer::height
    ensures res == self.i_height(),
//@ fn ImageBuffer::fill_buffers
    requires self.valid(), y < self.i_height(),
    ensures
        forall|c: int| 0 <= c < 4 ==> (#[trigger] final(buffers)[c])@ == if c < ncomp(self.i_color()) {
            old(buffers)[c]@ + Seq::new(self.i_width() as nat, |x: int| self.sample(c, x, y as int))
        } else { old(buffers)[c]@ },
//@ fn rgb_to_ycbcr
    ensures res == ycc(r, g, b), jfif_ok(r, g, b, res),
//@ at start
proof {
    reveal(ycc);
    assert(128i32 << 16i32 == 8388608) by (bit_vector);
    lemma_neg(-11059, r as int); lemma_neg(-21709, g as int); lemma_neg(-27439, g as int); lemma_neg(-5329, b as int);
    assert forall|x: i32| x >= 0 implies #[trigger] (x >> 16) == x / 65536 by { lemma_shr16(x); }
}
//@ fn cmyk_to_ycck
    ensures res.0 == ycc(c, m, y).0, res.1 == ycc(c, m, y).1, res.2 == ycc(c, m, y).2, res.3 == 255 - k, jfif_ok(c, m, y, (res.0, res.1, res.2)),
//@ fn get_line
    requires (y + 1) * width * num_colors <= data@.len(), num_colors <= 4,
    ensures
        res@ == data@.subrange(y * width * num_colors, (y + 1) * width * num_colors),
        y * width * num_colors + width * num_colors == (y + 1) * width * num_colors,
//@ at start
proof {
    assert(y as int * width as int <= 65535 * 65535) by (nonlinear_arith) requires 0 <= y <= 65535, 0 <= width <= 65535;
    assert((y as int * width as int) * num_colors as int <= 4 * 65535 * 65535) by (nonlinear_arith)
        requires 0 <= y as int * width as int <= 65535 * 65535, 0 <= num_colors <= 4;
    assert(width as int * num_colors as int <= 65535 * 4) by (nonlinear_arith) requires 0 <= width <= 65535, 0 <= num_colors <= 4;
    assert(y * width * num_colors + width * num_colors == (y + 1) * width * num_colors) by (nonlinear_arith);
    assert(y * (width * num_colors) == y * width * num_colors && (y + 1) * (width * num_colors) == (y + 1) * width * num_colors) by (nonlinear_arith);
}
//@ extra mod
/// index arithmetic of pixel x in a line of w pixels with n bytes each
pub proof fn lemma_pixel(y: int, w: int, n: int, x: int, len: int)
    requires 0 <= y, 0 <= x < w, n > 0, (y + 1) * w * n <= len
    ensures y * w * n + x * n == (y * w + x) * n, 0 <= x * n, x * n + n <= w * n, (y * w + x) * n + n <= len, 0 <= (y * w + x) * n,
        0 <= y * w * n, y * w * n + w * n == (y + 1) * w * n,
{
    assert(y * w * n + x * n == (y * w + x) * n) by (nonlinear_arith);
    assert(x * n + n <= w * n) by (nonlinear_arith) requires 0 <= x < w, n > 0;
    assert(0 <= y * w) by (nonlinear_arith) requires 0 <= y, 0 <= w;
    assert(0 <= x * n && 0 <= y * w * n) by (nonlinear_arith) requires 0 <= x, n > 0, 0 <= y * w;
    assert(y * w * n + w * n == (y + 1) * w * n) by (nonlinear_arith);
}
pub proof fn lemma_lines(y: int, h: int, w: int, n: int, len: int)
    requires 0 <= y < h, 0 <= w, 0 < n, w * h * n <= len
    ensures (y + 1) * w * n <= len, (w * n) / n == w, (1 * w * n) == w * n,
{
    assert((y + 1) * w * n <= w * h * n) by (nonlinear_arith) requires y + 1 <= h, 0 <= w, 0 < n;
    assert((w * n) / n == w) by (nonlinear_arith) requires n > 0;
}
//@ extra mod
/// component c of pixel (x, y) of a GrayImage with data d and width w
pub open spec fn smp_GrayImage(d: Seq<u8>, w: int, c: int, x: int, y: int) -> u8 {
    let p0 = d[(y * w + x) * 1 + 0];
    p0
}
pub open spec fn row_GrayImage(d: Seq<u8>, w: int, c: int, y: int) -> Seq<u8> { Seq::new(w as nat, |x: int| smp_GrayImage(d, w, c, x, y)) }
//@ extra ImageBuffer for GrayImage
    open spec fn i_color(&self) -> JpegColorType { JpegColorType::Luma }
    open spec fn i_width(&self) -> u16 { self.1 }
    open spec fn i_height(&self) -> u16 { self.2 }
    open spec fn valid(&self) -> bool { self.1 * self.2 * 1 <= self.0@.len() }
    open spec fn sample(&self, c: int, x: int, y: int) -> u8 { smp_GrayImage(self.0@, self.1 as int, c, x, y) }
//@ fn GrayImage::get_jpeg_color_type@ImageBuffer
//@ fn GrayImage::width@ImageBuffer
//@ fn GrayImage::height@ImageBuffer
//@ fn GrayImage::fill_buffers@ImageBuffer
//@ at start
let ghost row = y as int;
proof { lemma_lines(row, self.2 as int, self.1 as int, 1, self.0@.len() as int); }
//@ loop 0
    invariant
        self.valid(), 0 <= row < self.2, (row + 1) * self.1 * 1 <= self.0@.len(),
        __s0@ == self.0@.subrange(row * self.1 * 1, (row + 1) * self.1 * 1),
        __s0@.len() == self.1 * 1,
        
        forall|c: int| 0 <= c < 4 ==> (#[trigger] buffers[c])@ == old(buffers)[c]@ + if c < 1 { row_GrayImage(self.0@, self.1 as int, c, row).take(__k0 as int) } else { Seq::empty() },
//@ loop 0 start
let ghost b0 = *buffers;
proof { lemma_pixel(row, self.1 as int, 1, __k0 as int, self.0@.len() as int); }
//@ loop 0 before
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 1 { row_GrayImage(self.0@, self.1 as int, c, row).take(0) } else { Seq::empty() }) by {
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_GrayImage(self.0@, self.1 as int, c, row).take(0) =~= Seq::<u8>::empty());
    }
}
//@ loop 0 end
proof {
    assert(row * self.1 * 1 + __k0 == (row * self.1 + __k0) * 1) by (nonlinear_arith); assert(__s0@[__k0 as int] == self.0@[row * self.1 * 1 + __k0]); assert(__s0@[__k0 as int] == smp_GrayImage(self.0@, self.1 as int, 0, __k0 as int, row));
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 1 { row_GrayImage(self.0@, self.1 as int, c, row).take(__k0 + 1) } else { Seq::empty() }) by {
        if c < 1 {
            assert(row_GrayImage(self.0@, self.1 as int, c, row).take(__k0 + 1) =~= row_GrayImage(self.0@, self.1 as int, c, row).take(__k0 as int).push(smp_GrayImage(self.0@, self.1 as int, c, __k0 as int, row)));
            assert(buffers[c]@ =~= b0[c]@.push(smp_GrayImage(self.0@, self.1 as int, c, __k0 as int, row)));
        } else { assert(buffers[c]@ =~= b0[c]@); }
    }
}
//@ loop 0 after
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == if c < 1 { old(buffers)[c]@ + row_GrayImage(self.0@, self.1 as int, c, row) } else { old(buffers)[c]@ } by {
        assert(row_GrayImage(self.0@, self.1 as int, c, row).take(self.1 as int) =~= row_GrayImage(self.0@, self.1 as int, c, row));
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_GrayImage(self.0@, self.1 as int, c, row) =~= Seq::new(self.i_width() as nat, |x: int| self.sample(c, x, y as int)));
    }
}
//@ extra mod
/// component c of pixel (x, y) of a RgbImage with data d and width w
pub open spec fn smp_RgbImage(d: Seq<u8>, w: int, c: int, x: int, y: int) -> u8 {
    let p0 = d[(y * w + x) * 3 + 0]; let p1 = d[(y * w + x) * 3 + 1]; let p2 = d[(y * w + x) * 3 + 2];
    if c == 0 { ycc(p0, p1, p2).0 } else if c == 1 { ycc(p0, p1, p2).1 } else { ycc(p0, p1, p2).2 }
}
pub open spec fn row_RgbImage(d: Seq<u8>, w: int, c: int, y: int) -> Seq<u8> { Seq::new(w as nat, |x: int| smp_RgbImage(d, w, c, x, y)) }
//@ extra ImageBuffer for RgbImage
    open spec fn i_color(&self) -> JpegColorType { JpegColorType::Ycbcr }
    open spec fn i_width(&self) -> u16 { self.1 }
    open spec fn i_height(&self) -> u16 { self.2 }
    open spec fn valid(&self) -> bool { self.1 * self.2 * 3 <= self.0@.len() }
    open spec fn sample(&self, c: int, x: int, y: int) -> u8 { smp_RgbImage(self.0@, self.1 as int, c, x, y) }
//@ fn RgbImage::get_jpeg_color_type@ImageBuffer
//@ fn RgbImage::width@ImageBuffer
//@ fn RgbImage::height@ImageBuffer
//@ fn RgbImage::fill_buffers@ImageBuffer
//@ at start
let ghost row = y as int;
proof { lemma_lines(row, self.2 as int, self.1 as int, 3, self.0@.len() as int); }
//@ loop 0
    invariant
        self.valid(), 0 <= row < self.2, (row + 1) * self.1 * 3 <= self.0@.len(),
        line@ == self.0@.subrange(row * self.1 * 3, (row + 1) * self.1 * 3),
        line@.len() == self.1 * 3,
        __s0@ == line@, __n0 == 3, __c0 == self.1,
        forall|c: int| 0 <= c < 4 ==> (#[trigger] buffers[c])@ == old(buffers)[c]@ + if c < 3 { row_RgbImage(self.0@, self.1 as int, c, row).take(__k0 as int) } else { Seq::empty() },
//@ loop 0 start
let ghost b0 = *buffers;
proof { lemma_pixel(row, self.1 as int, 3, __k0 as int, self.0@.len() as int); }
//@ loop 0 before
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 3 { row_RgbImage(self.0@, self.1 as int, c, row).take(0) } else { Seq::empty() }) by {
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_RgbImage(self.0@, self.1 as int, c, row).take(0) =~= Seq::<u8>::empty());
    }
}
//@ loop 0 end
proof {
    
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 3 { row_RgbImage(self.0@, self.1 as int, c, row).take(__k0 + 1) } else { Seq::empty() }) by {
        if c < 3 {
            assert(row_RgbImage(self.0@, self.1 as int, c, row).take(__k0 + 1) =~= row_RgbImage(self.0@, self.1 as int, c, row).take(__k0 as int).push(smp_RgbImage(self.0@, self.1 as int, c, __k0 as int, row)));
            assert(buffers[c]@ =~= b0[c]@.push(smp_RgbImage(self.0@, self.1 as int, c, __k0 as int, row)));
        } else { assert(buffers[c]@ =~= b0[c]@); }
    }
}
//@ loop 0 after
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == if c < 3 { old(buffers)[c]@ + row_RgbImage(self.0@, self.1 as int, c, row) } else { old(buffers)[c]@ } by {
        assert(row_RgbImage(self.0@, self.1 as int, c, row).take(self.1 as int) =~= row_RgbImage(self.0@, self.1 as int, c, row));
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_RgbImage(self.0@, self.1 as int, c, row) =~= Seq::new(self.i_width() as nat, |x: int| self.sample(c, x, y as int)));
    }
}
//@ extra mod
/// component c of pixel (x, y) of a RgbaImage with data d and width w
pub open spec fn smp_RgbaImage(d: Seq<u8>, w: int, c: int, x: int, y: int) -> u8 {
    let p0 = d[(y * w + x) * 4 + 0]; let p1 = d[(y * w + x) * 4 + 1]; let p2 = d[(y * w + x) * 4 + 2]; let p3 = d[(y * w + x) * 4 + 3];
    if c == 0 { ycc(p0, p1, p2).0 } else if c == 1 { ycc(p0, p1, p2).1 } else { ycc(p0, p1, p2).2 }
}
pub open spec fn row_RgbaImage(d: Seq<u8>, w: int, c: int, y: int) -> Seq<u8> { Seq::new(w as nat, |x: int| smp_RgbaImage(d, w, c, x, y)) }
//@ extra ImageBuffer for RgbaImage
    open spec fn i_color(&self) -> JpegColorType { JpegColorType::Ycbcr }
    open spec fn i_width(&self) -> u16 { self.1 }
    open spec fn i_height(&self) -> u16 { self.2 }
    open spec fn valid(&self) -> bool { self.1 * self.2 * 4 <= self.0@.len() }
    open spec fn sample(&self, c: int, x: int, y: int) -> u8 { smp_RgbaImage(self.0@, self.1 as int, c, x, y) }
//@ fn RgbaImage::get_jpeg_color_type@ImageBuffer
//@ fn RgbaImage::width@ImageBuffer
//@ fn RgbaImage::height@ImageBuffer
//@ fn RgbaImage::fill_buffers@ImageBuffer
//@ at start
let ghost row = y as int;
proof { lemma_lines(row, self.2 as int, self.1 as int, 4, self.0@.len() as int); }
//@ loop 0
    invariant
        self.valid(), 0 <= row < self.2, (row + 1) * self.1 * 4 <= self.0@.len(),
        line@ == self.0@.subrange(row * self.1 * 4, (row + 1) * self.1 * 4),
        line@.len() == self.1 * 4,
        __s0@ == line@, __n0 == 4, __c0 == self.1,
        forall|c: int| 0 <= c < 4 ==> (#[trigger] buffers[c])@ == old(buffers)[c]@ + if c < 3 { row_RgbaImage(self.0@, self.1 as int, c, row).take(__k0 as int) } else { Seq::empty() },
//@ loop 0 start
let ghost b0 = *buffers;
proof { lemma_pixel(row, self.1 as int, 4, __k0 as int, self.0@.len() as int); }
//@ loop 0 before
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 3 { row_RgbaImage(self.0@, self.1 as int, c, row).take(0) } else { Seq::empty() }) by {
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_RgbaImage(self.0@, self.1 as int, c, row).take(0) =~= Seq::<u8>::empty());
    }
}
//@ loop 0 end
proof {
    
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 3 { row_RgbaImage(self.0@, self.1 as int, c, row).take(__k0 + 1) } else { Seq::empty() }) by {
        if c < 3 {
            assert(row_RgbaImage(self.0@, self.1 as int, c, row).take(__k0 + 1) =~= row_RgbaImage(self.0@, self.1 as int, c, row).take(__k0 as int).push(smp_RgbaImage(self.0@, self.1 as int, c, __k0 as int, row)));
            assert(buffers[c]@ =~= b0[c]@.push(smp_RgbaImage(self.0@, self.1 as int, c, __k0 as int, row)));
        } else { assert(buffers[c]@ =~= b0[c]@); }
    }
}
//@ loop 0 after
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == if c < 3 { old(buffers)[c]@ + row_RgbaImage(self.0@, self.1 as int, c, row) } else { old(buffers)[c]@ } by {
        assert(row_RgbaImage(self.0@, self.1 as int, c, row).take(self.1 as int) =~= row_RgbaImage(self.0@, self.1 as int, c, row));
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_RgbaImage(self.0@, self.1 as int, c, row) =~= Seq::new(self.i_width() as nat, |x: int| self.sample(c, x, y as int)));
    }
}
//@ extra mod
/// component c of pixel (x, y) of a BgrImage with data d and width w
pub open spec fn smp_BgrImage(d: Seq<u8>, w: int, c: int, x: int, y: int) -> u8 {
    let p0 = d[(y * w + x) * 3 + 0]; let p1 = d[(y * w + x) * 3 + 1]; let p2 = d[(y * w + x) * 3 + 2];
    if c == 0 { ycc(p2, p1, p0).0 } else if c == 1 { ycc(p2, p1, p0).1 } else { ycc(p2, p1, p0).2 }
}
pub open spec fn row_BgrImage(d: Seq<u8>, w: int, c: int, y: int) -> Seq<u8> { Seq::new(w as nat, |x: int| smp_BgrImage(d, w, c, x, y)) }
//@ extra ImageBuffer for BgrImage
    open spec fn i_color(&self) -> JpegColorType { JpegColorType::Ycbcr }
    open spec fn i_width(&self) -> u16 { self.1 }
    open spec fn i_height(&self) -> u16 { self.2 }
    open spec fn valid(&self) -> bool { self.1 * self.2 * 3 <= self.0@.len() }
    open spec fn sample(&self, c: int, x: int, y: int) -> u8 { smp_BgrImage(self.0@, self.1 as int, c, x, y) }
//@ fn BgrImage::get_jpeg_color_type@ImageBuffer
//@ fn BgrImage::width@ImageBuffer
//@ fn BgrImage::height@ImageBuffer
//@ fn BgrImage::fill_buffers@ImageBuffer
//@ at start
let ghost row = y as int;
proof { lemma_lines(row, self.2 as int, self.1 as int, 3, self.0@.len() as int); }
//@ loop 0
    invariant
        self.valid(), 0 <= row < self.2, (row + 1) * self.1 * 3 <= self.0@.len(),
        line@ == self.0@.subrange(row * self.1 * 3, (row + 1) * self.1 * 3),
        line@.len() == self.1 * 3,
        __s0@ == line@, __n0 == 3, __c0 == self.1,
        forall|c: int| 0 <= c < 4 ==> (#[trigger] buffers[c])@ == old(buffers)[c]@ + if c < 3 { row_BgrImage(self.0@, self.1 as int, c, row).take(__k0 as int) } else { Seq::empty() },
//@ loop 0 start
let ghost b0 = *buffers;
proof { lemma_pixel(row, self.1 as int, 3, __k0 as int, self.0@.len() as int); }
//@ loop 0 before
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 3 { row_BgrImage(self.0@, self.1 as int, c, row).take(0) } else { Seq::empty() }) by {
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_BgrImage(self.0@, self.1 as int, c, row).take(0) =~= Seq::<u8>::empty());
    }
}
//@ loop 0 end
proof {
    
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 3 { row_BgrImage(self.0@, self.1 as int, c, row).take(__k0 + 1) } else { Seq::empty() }) by {
        if c < 3 {
            assert(row_BgrImage(self.0@, self.1 as int, c, row).take(__k0 + 1) =~= row_BgrImage(self.0@, self.1 as int, c, row).take(__k0 as int).push(smp_BgrImage(self.0@, self.1 as int, c, __k0 as int, row)));
            assert(buffers[c]@ =~= b0[c]@.push(smp_BgrImage(self.0@, self.1 as int, c, __k0 as int, row)));
        } else { assert(buffers[c]@ =~= b0[c]@); }
    }
}
//@ loop 0 after
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == if c < 3 { old(buffers)[c]@ + row_BgrImage(self.0@, self.1 as int, c, row) } else { old(buffers)[c]@ } by {
        assert(row_BgrImage(self.0@, self.1 as int, c, row).take(self.1 as int) =~= row_BgrImage(self.0@, self.1 as int, c, row));
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_BgrImage(self.0@, self.1 as int, c, row) =~= Seq::new(self.i_width() as nat, |x: int| self.sample(c, x, y as int)));
    }
}
//@ extra mod
/// component c of pixel (x, y) of a BgraImage with data d and width w
pub open spec fn smp_BgraImage(d: Seq<u8>, w: int, c: int, x: int, y: int) -> u8 {
    let p0 = d[(y * w + x) * 4 + 0]; let p1 = d[(y * w + x) * 4 + 1]; let p2 = d[(y * w + x) * 4 + 2]; let p3 = d[(y * w + x) * 4 + 3];
    if c == 0 { ycc(p2, p1, p0).0 } else if c == 1 { ycc(p2, p1, p0).1 } else { ycc(p2, p1, p0).2 }
}
pub open spec fn row_BgraImage(d: Seq<u8>, w: int, c: int, y: int) -> Seq<u8> { Seq::new(w as nat, |x: int| smp_BgraImage(d, w, c, x, y)) }
//@ extra ImageBuffer for BgraImage
    open spec fn i_color(&self) -> JpegColorType { JpegColorType::Ycbcr }
    open spec fn i_width(&self) -> u16 { self.1 }
    open spec fn i_height(&self) -> u16 { self.2 }
    open spec fn valid(&self) -> bool { self.1 * self.2 * 4 <= self.0@.len() }
    open spec fn sample(&self, c: int, x: int, y: int) -> u8 { smp_BgraImage(self.0@, self.1 as int, c, x, y) }
//@ fn BgraImage::get_jpeg_color_type@ImageBuffer
//@ fn BgraImage::width@ImageBuffer
//@ fn BgraImage::height@ImageBuffer
//@ fn BgraImage::fill_buffers@ImageBuffer
//@ at start
let ghost row = y as int;
proof { lemma_lines(row, self.2 as int, self.1 as int, 4, self.0@.len() as int); }
//@ loop 0
    invariant
        self.valid(), 0 <= row < self.2, (row + 1) * self.1 * 4 <= self.0@.len(),
        line@ == self.0@.subrange(row * self.1 * 4, (row + 1) * self.1 * 4),
        line@.len() == self.1 * 4,
        __s0@ == line@, __n0 == 4, __c0 == self.1,
        forall|c: int| 0 <= c < 4 ==> (#[trigger] buffers[c])@ == old(buffers)[c]@ + if c < 3 { row_BgraImage(self.0@, self.1 as int, c, row).take(__k0 as int) } else { Seq::empty() },
//@ loop 0 start
let ghost b0 = *buffers;
proof { lemma_pixel(row, self.1 as int, 4, __k0 as int, self.0@.len() as int); }
//@ loop 0 before
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 3 { row_BgraImage(self.0@, self.1 as int, c, row).take(0) } else { Seq::empty() }) by {
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_BgraImage(self.0@, self.1 as int, c, row).take(0) =~= Seq::<u8>::empty());
    }
}
//@ loop 0 end
proof {
    
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 3 { row_BgraImage(self.0@, self.1 as int, c, row).take(__k0 + 1) } else { Seq::empty() }) by {
        if c < 3 {
            assert(row_BgraImage(self.0@, self.1 as int, c, row).take(__k0 + 1) =~= row_BgraImage(self.0@, self.1 as int, c, row).take(__k0 as int).push(smp_BgraImage(self.0@, self.1 as int, c, __k0 as int, row)));
            assert(buffers[c]@ =~= b0[c]@.push(smp_BgraImage(self.0@, self.1 as int, c, __k0 as int, row)));
        } else { assert(buffers[c]@ =~= b0[c]@); }
    }
}
//@ loop 0 after
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == if c < 3 { old(buffers)[c]@ + row_BgraImage(self.0@, self.1 as int, c, row) } else { old(buffers)[c]@ } by {
        assert(row_BgraImage(self.0@, self.1 as int, c, row).take(self.1 as int) =~= row_BgraImage(self.0@, self.1 as int, c, row));
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_BgraImage(self.0@, self.1 as int, c, row) =~= Seq::new(self.i_width() as nat, |x: int| self.sample(c, x, y as int)));
    }
}
//@ extra mod
/// component c of pixel (x, y) of a YCbCrImage with data d and width w
pub open spec fn smp_YCbCrImage(d: Seq<u8>, w: int, c: int, x: int, y: int) -> u8 {
    let p0 = d[(y * w + x) * 3 + 0]; let p1 = d[(y * w + x) * 3 + 1]; let p2 = d[(y * w + x) * 3 + 2];
    if c == 0 { p0 } else if c == 1 { p1 } else { p2 }
}
pub open spec fn row_YCbCrImage(d: Seq<u8>, w: int, c: int, y: int) -> Seq<u8> { Seq::new(w as nat, |x: int| smp_YCbCrImage(d, w, c, x, y)) }
//@ extra ImageBuffer for YCbCrImage
    open spec fn i_color(&self) -> JpegColorType { JpegColorType::Ycbcr }
    open spec fn i_width(&self) -> u16 { self.1 }
    open spec fn i_height(&self) -> u16 { self.2 }
    open spec fn valid(&self) -> bool { self.1 * self.2 * 3 <= self.0@.len() }
    open spec fn sample(&self, c: int, x: int, y: int) -> u8 { smp_YCbCrImage(self.0@, self.1 as int, c, x, y) }
//@ fn YCbCrImage::get_jpeg_color_type@ImageBuffer
//@ fn YCbCrImage::width@ImageBuffer
//@ fn YCbCrImage::height@ImageBuffer
//@ fn YCbCrImage::fill_buffers@ImageBuffer
//@ at start
let ghost row = y as int;
proof { lemma_lines(row, self.2 as int, self.1 as int, 3, self.0@.len() as int); }
//@ loop 0
    invariant
        self.valid(), 0 <= row < self.2, (row + 1) * self.1 * 3 <= self.0@.len(),
        line@ == self.0@.subrange(row * self.1 * 3, (row + 1) * self.1 * 3),
        line@.len() == self.1 * 3,
        __s0@ == line@, __n0 == 3, __c0 == self.1,
        forall|c: int| 0 <= c < 4 ==> (#[trigger] buffers[c])@ == old(buffers)[c]@ + if c < 3 { row_YCbCrImage(self.0@, self.1 as int, c, row).take(__k0 as int) } else { Seq::empty() },
//@ loop 0 start
let ghost b0 = *buffers;
proof { lemma_pixel(row, self.1 as int, 3, __k0 as int, self.0@.len() as int); }
//@ loop 0 before
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 3 { row_YCbCrImage(self.0@, self.1 as int, c, row).take(0) } else { Seq::empty() }) by {
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_YCbCrImage(self.0@, self.1 as int, c, row).take(0) =~= Seq::<u8>::empty());
    }
}
//@ loop 0 end
proof {
    
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 3 { row_YCbCrImage(self.0@, self.1 as int, c, row).take(__k0 + 1) } else { Seq::empty() }) by {
        if c < 3 {
            assert(row_YCbCrImage(self.0@, self.1 as int, c, row).take(__k0 + 1) =~= row_YCbCrImage(self.0@, self.1 as int, c, row).take(__k0 as int).push(smp_YCbCrImage(self.0@, self.1 as int, c, __k0 as int, row)));
            assert(buffers[c]@ =~= b0[c]@.push(smp_YCbCrImage(self.0@, self.1 as int, c, __k0 as int, row)));
        } else { assert(buffers[c]@ =~= b0[c]@); }
    }
}
//@ loop 0 after
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == if c < 3 { old(buffers)[c]@ + row_YCbCrImage(self.0@, self.1 as int, c, row) } else { old(buffers)[c]@ } by {
        assert(row_YCbCrImage(self.0@, self.1 as int, c, row).take(self.1 as int) =~= row_YCbCrImage(self.0@, self.1 as int, c, row));
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_YCbCrImage(self.0@, self.1 as int, c, row) =~= Seq::new(self.i_width() as nat, |x: int| self.sample(c, x, y as int)));
    }
}
//@ extra mod
/// component c of pixel (x, y) of a CmykImage with data d and width w
pub open spec fn smp_CmykImage(d: Seq<u8>, w: int, c: int, x: int, y: int) -> u8 {
    let p0 = d[(y * w + x) * 4 + 0]; let p1 = d[(y * w + x) * 4 + 1]; let p2 = d[(y * w + x) * 4 + 2]; let p3 = d[(y * w + x) * 4 + 3];
    if c == 0 { (255 - p0) as u8 } else if c == 1 { (255 - p1) as u8 } else if c == 2 { (255 - p2) as u8 } else { (255 - p3) as u8 }
}
pub open spec fn row_CmykImage(d: Seq<u8>, w: int, c: int, y: int) -> Seq<u8> { Seq::new(w as nat, |x: int| smp_CmykImage(d, w, c, x, y)) }
//@ extra ImageBuffer for CmykImage
    open spec fn i_color(&self) -> JpegColorType { JpegColorType::Cmyk }
    open spec fn i_width(&self) -> u16 { self.1 }
    open spec fn i_height(&self) -> u16 { self.2 }
    open spec fn valid(&self) -> bool { self.1 * self.2 * 4 <= self.0@.len() }
    open spec fn sample(&self, c: int, x: int, y: int) -> u8 { smp_CmykImage(self.0@, self.1 as int, c, x, y) }
//@ fn CmykImage::get_jpeg_color_type@ImageBuffer
//@ fn CmykImage::width@ImageBuffer
//@ fn CmykImage::height@ImageBuffer
//@ fn CmykImage::fill_buffers@ImageBuffer
//@ at start
let ghost row = y as int;
proof { lemma_lines(row, self.2 as int, self.1 as int, 4, self.0@.len() as int); }
//@ loop 0
    invariant
        self.valid(), 0 <= row < self.2, (row + 1) * self.1 * 4 <= self.0@.len(),
        line@ == self.0@.subrange(row * self.1 * 4, (row + 1) * self.1 * 4),
        line@.len() == self.1 * 4,
        __s0@ == line@, __n0 == 4, __c0 == self.1,
        forall|c: int| 0 <= c < 4 ==> (#[trigger] buffers[c])@ == old(buffers)[c]@ + if c < 4 { row_CmykImage(self.0@, self.1 as int, c, row).take(__k0 as int) } else { Seq::empty() },
//@ loop 0 start
let ghost b0 = *buffers;
proof { lemma_pixel(row, self.1 as int, 4, __k0 as int, self.0@.len() as int); }
//@ loop 0 before
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 4 { row_CmykImage(self.0@, self.1 as int, c, row).take(0) } else { Seq::empty() }) by {
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_CmykImage(self.0@, self.1 as int, c, row).take(0) =~= Seq::<u8>::empty());
    }
}
//@ loop 0 end
proof {
    
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 4 { row_CmykImage(self.0@, self.1 as int, c, row).take(__k0 + 1) } else { Seq::empty() }) by {
        if c < 4 {
            assert(row_CmykImage(self.0@, self.1 as int, c, row).take(__k0 + 1) =~= row_CmykImage(self.0@, self.1 as int, c, row).take(__k0 as int).push(smp_CmykImage(self.0@, self.1 as int, c, __k0 as int, row)));
            assert(buffers[c]@ =~= b0[c]@.push(smp_CmykImage(self.0@, self.1 as int, c, __k0 as int, row)));
        } else { assert(buffers[c]@ =~= b0[c]@); }
    }
}
//@ loop 0 after
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == if c < 4 { old(buffers)[c]@ + row_CmykImage(self.0@, self.1 as int, c, row) } else { old(buffers)[c]@ } by {
        assert(row_CmykImage(self.0@, self.1 as int, c, row).take(self.1 as int) =~= row_CmykImage(self.0@, self.1 as int, c, row));
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_CmykImage(self.0@, self.1 as int, c, row) =~= Seq::new(self.i_width() as nat, |x: int| self.sample(c, x, y as int)));
    }
}
//@ extra mod
/// component c of pixel (x, y) of a CmykAsYcckImage with data d and width w
pub open spec fn smp_CmykAsYcckImage(d: Seq<u8>, w: int, c: int, x: int, y: int) -> u8 {
    let p0 = d[(y * w + x) * 4 + 0]; let p1 = d[(y * w + x) * 4 + 1]; let p2 = d[(y * w + x) * 4 + 2]; let p3 = d[(y * w + x) * 4 + 3];
    if c == 0 { ycc(p0, p1, p2).0 } else if c == 1 { ycc(p0, p1, p2).1 } else if c == 2 { ycc(p0, p1, p2).2 } else { (255 - p3) as u8 }
}
pub open spec fn row_CmykAsYcckImage(d: Seq<u8>, w: int, c: int, y: int) -> Seq<u8> { Seq::new(w as nat, |x: int| smp_CmykAsYcckImage(d, w, c, x, y)) }
//@ extra ImageBuffer for CmykAsYcckImage
    open spec fn i_color(&self) -> JpegColorType { JpegColorType::Ycck }
    open spec fn i_width(&self) -> u16 { self.1 }
    open spec fn i_height(&self) -> u16 { self.2 }
    open spec fn valid(&self) -> bool { self.1 * self.2 * 4 <= self.0@.len() }
    open spec fn sample(&self, c: int, x: int, y: int) -> u8 { smp_CmykAsYcckImage(self.0@, self.1 as int, c, x, y) }
//@ fn CmykAsYcckImage::get_jpeg_color_type@ImageBuffer
//@ fn CmykAsYcckImage::width@ImageBuffer
//@ fn CmykAsYcckImage::height@ImageBuffer
//@ fn CmykAsYcckImage::fill_buffers@ImageBuffer
//@ at start
let ghost row = y as int;
proof { lemma_lines(row, self.2 as int, self.1 as int, 4, self.0@.len() as int); }
//@ loop 0
    invariant
        self.valid(), 0 <= row < self.2, (row + 1) * self.1 * 4 <= self.0@.len(),
        line@ == self.0@.subrange(row * self.1 * 4, (row + 1) * self.1 * 4),
        line@.len() == self.1 * 4,
        __s0@ == line@, __n0 == 4, __c0 == self.1,
        forall|c: int| 0 <= c < 4 ==> (#[trigger] buffers[c])@ == old(buffers)[c]@ + if c < 4 { row_CmykAsYcckImage(self.0@, self.1 as int, c, row).take(__k0 as int) } else { Seq::empty() },
//@ loop 0 start
let ghost b0 = *buffers;
proof { lemma_pixel(row, self.1 as int, 4, __k0 as int, self.0@.len() as int); }
//@ loop 0 before
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 4 { row_CmykAsYcckImage(self.0@, self.1 as int, c, row).take(0) } else { Seq::empty() }) by {
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_CmykAsYcckImage(self.0@, self.1 as int, c, row).take(0) =~= Seq::<u8>::empty());
    }
}
//@ loop 0 end
proof {
    
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 4 { row_CmykAsYcckImage(self.0@, self.1 as int, c, row).take(__k0 + 1) } else { Seq::empty() }) by {
        if c < 4 {
            assert(row_CmykAsYcckImage(self.0@, self.1 as int, c, row).take(__k0 + 1) =~= row_CmykAsYcckImage(self.0@, self.1 as int, c, row).take(__k0 as int).push(smp_CmykAsYcckImage(self.0@, self.1 as int, c, __k0 as int, row)));
            assert(buffers[c]@ =~= b0[c]@.push(smp_CmykAsYcckImage(self.0@, self.1 as int, c, __k0 as int, row)));
        } else { assert(buffers[c]@ =~= b0[c]@); }
    }
}
//@ loop 0 after
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == if c < 4 { old(buffers)[c]@ + row_CmykAsYcckImage(self.0@, self.1 as int, c, row) } else { old(buffers)[c]@ } by {
        assert(row_CmykAsYcckImage(self.0@, self.1 as int, c, row).take(self.1 as int) =~= row_CmykAsYcckImage(self.0@, self.1 as int, c, row));
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_CmykAsYcckImage(self.0@, self.1 as int, c, row) =~= Seq::new(self.i_width() as nat, |x: int| self.sample(c, x, y as int)));
    }
}
//@ extra mod
/// component c of pixel (x, y) of a YcckImage with data d and width w
pub open spec fn smp_YcckImage(d: Seq<u8>, w: int, c: int, x: int, y: int) -> u8 {
    let p0 = d[(y * w + x) * 4 + 0]; let p1 = d[(y * w + x) * 4 + 1]; let p2 = d[(y * w + x) * 4 + 2]; let p3 = d[(y * w + x) * 4 + 3];
    if c == 0 { p0 } else if c == 1 { p1 } else if c == 2 { p2 } else { p3 }
}
pub open spec fn row_YcckImage(d: Seq<u8>, w: int, c: int, y: int) -> Seq<u8> { Seq::new(w as nat, |x: int| smp_YcckImage(d, w, c, x, y)) }
//@ extra ImageBuffer for YcckImage
    open spec fn i_color(&self) -> JpegColorType { JpegColorType::Ycck }
    open spec fn i_width(&self) -> u16 { self.1 }
    open spec fn i_height(&self) -> u16 { self.2 }
    open spec fn valid(&self) -> bool { self.1 * self.2 * 4 <= self.0@.len() }
    open spec fn sample(&self, c: int, x: int, y: int) -> u8 { smp_YcckImage(self.0@, self.1 as int, c, x, y) }
//@ fn YcckImage::get_jpeg_color_type@ImageBuffer
//@ fn YcckImage::width@ImageBuffer
//@ fn YcckImage::height@ImageBuffer
//@ fn YcckImage::fill_buffers@ImageBuffer
//@ at start
let ghost row = y as int;
proof { lemma_lines(row, self.2 as int, self.1 as int, 4, self.0@.len() as int); }
//@ loop 0
    invariant
        self.valid(), 0 <= row < self.2, (row + 1) * self.1 * 4 <= self.0@.len(),
        line@ == self.0@.subrange(row * self.1 * 4, (row + 1) * self.1 * 4),
        line@.len() == self.1 * 4,
        __s0@ == line@, __n0 == 4, __c0 == self.1,
        forall|c: int| 0 <= c < 4 ==> (#[trigger] buffers[c])@ == old(buffers)[c]@ + if c < 4 { row_YcckImage(self.0@, self.1 as int, c, row).take(__k0 as int) } else { Seq::empty() },
//@ loop 0 start
let ghost b0 = *buffers;
proof { lemma_pixel(row, self.1 as int, 4, __k0 as int, self.0@.len() as int); }
//@ loop 0 before
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 4 { row_YcckImage(self.0@, self.1 as int, c, row).take(0) } else { Seq::empty() }) by {
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_YcckImage(self.0@, self.1 as int, c, row).take(0) =~= Seq::<u8>::empty());
    }
}
//@ loop 0 end
proof {
    
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == old(buffers)[c]@ + (if c < 4 { row_YcckImage(self.0@, self.1 as int, c, row).take(__k0 + 1) } else { Seq::empty() }) by {
        if c < 4 {
            assert(row_YcckImage(self.0@, self.1 as int, c, row).take(__k0 + 1) =~= row_YcckImage(self.0@, self.1 as int, c, row).take(__k0 as int).push(smp_YcckImage(self.0@, self.1 as int, c, __k0 as int, row)));
            assert(buffers[c]@ =~= b0[c]@.push(smp_YcckImage(self.0@, self.1 as int, c, __k0 as int, row)));
        } else { assert(buffers[c]@ =~= b0[c]@); }
    }
}
//@ loop 0 after
proof {
    assert forall|c: int| 0 <= c < 4 implies (#[trigger] buffers[c])@ == if c < 4 { old(buffers)[c]@ + row_YcckImage(self.0@, self.1 as int, c, row) } else { old(buffers)[c]@ } by {
        assert(row_YcckImage(self.0@, self.1 as int, c, row).take(self.1 as int) =~= row_YcckImage(self.0@, self.1 as int, c, row));
        assert(old(buffers)[c]@ + Seq::<u8>::empty() =~= old(buffers)[c]@);
        assert(row_YcckImage(self.0@, self.1 as int, c, row) =~= Seq::new(self.i_width() as nat, |x: int| self.sample(c, x, y as int)));
    }
}
