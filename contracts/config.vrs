//@ prelude
#![feature(allocator_api)]
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, non_camel_case_types, unused_assignments, non_upper_case_globals, unreachable_code)]
extern crate alloc;
use vstd::prelude::*;
pub use crate::error::EncodingError;
pub use crate::writer::{Density, JfifWrite};
pub use crate::image_buffer::{rgb_to_ycbcr, cmyk_to_ycck, ImageBuffer};
pub use crate::encoder::{ColorType, Encoder, JpegColorType, SamplingFactor};
pub use crate::quantization::QuantizationTableType;
verus!{ global size_of usize == 8; }
//@ spec-module base
//@ spec-module simd
//@ spec-module spec_bits
//@ spec-module spec_block
//@ spec-module spec_presets
//@ spec-module spec_huff
//@ spec-module spec_tree
//@ spec-module spec_dct
//@ spec-module spec_simd
//@ spec-module spec_enc
//@ module-use use crate::base::*;
//@ module-use use crate::spec_bits::*;
//@ source error error.rs
//@ source marker marker.rs
//@ source quantization quantization.rs
//@ source huffman huffman.rs
//@ source fdct fdct.rs
//@ source image_buffer image_buffer.rs
//@ source writer writer.rs
//@ source encoder encoder.rs
//@ if simd
//@ source avx2 avx2.rs
//@ source avx2::fdct avx2/fdct.rs
//@ source avx2::ycbcr avx2/ycbcr.rs
//@ endif
//@ skip-header impl Encoder<BufWriter<File>>
//@ skip-use std::error::Error
//@ skip-use std::io::BufWriter
//@ skip-use std::fs::File
//@ skip-use std::path::Path
//@ skip-use alloc::fmt::Display
//@ module error
//@ skip Display for EncodingError
//@ skip Error for EncodingError
//@ if std
//@ extra mod
impl vstd::std_specs::convert::FromSpecImpl<std::io::Error> for EncodingError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: std::io::Error) -> Self { EncodingError::IoError(e) }
}
//@ fn EncodingError::from@From
//@ endif
