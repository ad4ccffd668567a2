"""Which modules are verified, and which functions' obligations count, for each property."""

TRUST_NOTES = [
    "the Verus verifier, its vstd library and Z3",
    "vx, the mechanical extraction (rules R1..R11 in DESIGN.md), and rustc",
    "integer-to-bytes (to_be_bytes), i16::leading_zeros/abs, slice::to_vec and similar core functions: assumed specifications in contracts/base.rs",
    "the caller's sink (std::io::Write or JfifWrite): write_all appends exactly the given bytes when it returns Ok, flush delivers what is buffered (JfifWrite's default flush: nothing is)",
    "usize is 64 bit; usize::from(bool) is 0 or 1",
    "ImageBuffer implementations of the caller: pixel data, width and height do not change during an encode (trait contract)",
    "what the AVX2 instructions compute, _mm256_loadu/storeu and the transmute of a register to [i32; 8]: assumed specifications in contracts/simd.rs",
    "raw pointers into slices, vectors and arrays are read as cursors (rule R11): a pointer taken before Vec::set_len still points into the vector; Vec::set_len is called within the capacity (capacity is not modelled)",
    "is_x86_feature_detected! may answer either way",
]

W = r"writer::JfifWriter::"
BITS = [W + r"(new|write|write_u8|flush|finalize_bit_buffer|flush_bit_buffer|flush_byte_from_bit_buffer|write_bit_buffer|write_bits)", r"writer::BUFFER_SIZE"]
CODES = [W + r"(huffman_encode|huffman_encode_value|write_block|write_dc|write_ac_block)", r"writer::get_code", r"huffman::HuffmanTable::get_for_value"]
SEGS = [W + r"(write_u16|write_marker|write_segment|write_header|write_huffman_segment|write_quantization_segment|write_dri|write_frame_header|write_scan_header|write|write_u8)", r"marker::.*",
        r"encoder::Encoder::(write_frame_header|init_components|encode_image_internal)"]
HUFF = [r"huffman::.*"]
QUANT = [r"quantization::.*", r"encoder::Operations::quantize_block"]
SCANS = [r"encoder::Encoder::(encode_image_internal|encode_image_interleaved|encode_image_sequential|encode_image_progressive|write_frame_header|get_max_sampling_size)"]
BLOCKS = [r"encoder::(get_block|ceil_div|get_num_bits|SamplingFactor::.*|Encoder::(get_max_sampling_size|encode_blocks|encode_image_interleaved|init_components|init_rows|init_block_buffers))"]

SPECS = ["base", "spec_bits", "spec_block", "spec_presets", "spec_huff", "spec_tree", "spec_dct", "spec_enc"]

CONES = {
    "C01": dict(modules=["base", "spec_bits", "spec_enc", "writer", "encoder"], functions=BITS + CODES + SCANS,
                note="bit buffer, stuffing, padding for every sequence of codes at every alignment; every scan's bytes are exactly the packed, padded, stuffed code bits", assumptions=[]),
    "C02": dict(modules=["base", "spec_bits", "spec_block", "spec_enc", "writer", "encoder"], functions=BITS + CODES + SCANS, note="symbol and magnitude coding of every block, prediction in every scan", assumptions=[]),
    "C03": dict(modules=["base", "spec_huff", "spec_tree", "huffman", "encoder"], functions=HUFF + CODES + [r"encoder::Encoder::(optimize_huffman_table|encode_image_sequential|encode_image_progressive|encode_image_interleaved|write_frame_header)", r"encoder::get_num_bits", W + "write_huffman_segment"], note="legality and coverage of every Huffman table", assumptions=[]),
    "C04": dict(modules=["base", "spec_presets", "quantization", "writer", "encoder"], functions=QUANT + [W + "write_quantization_segment", r"encoder::Encoder::(write_frame_header|encode_image_internal|encode_blocks|encode_image_interleaved)"], note="divisors, rounding, announcement, and use of the announced tables", assumptions=[]),
    "C05": dict(modules=["base", "simd", "spec_dct", "spec_simd", "fdct", "avx2", "avx2::fdct", "encoder"], functions=[r"fdct::.*", r"avx2::(fdct::.*|AVX2Operations::.*)", r"encoder::(get_block|Encoder::(encode_blocks|encode_image_interleaved))"], note="fdct is the integer matrix transform, that transform is within 3/8 of a unit of the DCT-II, never overflows, and its amplitudes fit; only level-shifted samples reach it", assumptions=[]),
    "C06": dict(modules=["base", "simd", "spec_simd", "image_buffer", "avx2::ycbcr", "encoder"], functions=[r"image_buffer::.*", r"avx2::ycbcr::.*", r"encoder::Encoder::(encode|encode_image)"], note="colour conversion and pixel layout", assumptions=[]),
    "C07": dict(modules=["base", "spec_enc", "encoder"], functions=BLOCKS + SCANS, note="sampling geometry: every block of every scan is the block of the image that T.81 A.1, A.2 prescribe", assumptions=[]),
    "C08": dict(modules=["base", "marker", "writer", "encoder"], functions=SEGS + SCANS, note="marker structure", assumptions=[]),
    "C09": dict(modules=["base", "spec_enc", "writer", "encoder"], functions=BITS + SCANS + [W + "(write_dri|write_marker)"], note="restart intervals", assumptions=[]),
    "C10": dict(modules=["base", "spec_enc", "encoder", "writer"], functions=SCANS + BLOCKS + [W + "(write_scan_header|write_ac_block|write_dc|write_block)", r"encoder::Encoder::optimize_huffman_table"], note="scan partition", assumptions=[]),
    "C11": dict(modules=["base", "encoder", "writer"], functions=[r"encoder::Encoder::(add_app_segment|add_icc_profile|encode_image_internal)", r"encoder::ceil_div", W + "write_segment"], note="APP segments", assumptions=[]),
    "C12": dict(modules=["base", "error", "encoder", "writer"], functions=[r"encoder::Encoder::(encode|encode_image|encode_image_internal)", r"encoder::ColorType::.*", W + "(flush|write|write_u8|write_u16)", r"writer::(W|&W|Vec)::.*", r"error::.*"], other_build=True,
                clause=r"failed\(\)|errors_kept",
                clause_functions=[W + "(finalize_.*|flush_.*|write.*|huffman_.*)", r"encoder::Encoder::(write_frame_header|encode_image_(interleaved|sequential|progressive))"],
                note="validation; and in every function that writes, the postcondition errors_kept and the loop invariants on failed(): an error of the sink is reported, and Ok means there was none", assumptions=[]),
    "C13": dict(modules=None, functions=[r".*"], other_build=True, note="every precondition of every function on the path is proved at its call sites; overflow, index and termination obligations of all verified functions", assumptions=[]),
    "C14": dict(modules=["base", "simd", "spec_dct", "spec_simd", "fdct", "image_buffer", "avx2", "avx2::fdct", "avx2::ycbcr", "encoder"],
                functions=[r"avx2::.*", r"fdct::.*", r"image_buffer::.*", r"encoder::Operations::.*", r"encoder::Encoder::(encode|encode_image)"], other_build=True,
                note="the AVX2 transform and readers compute the same functions of the block and of the pixels as the scalar ones (same postconditions, which determine the results); everything else is one generic source that is given them, and the stream written is specified without reference to which was used",
                assumptions=["the generic encoder code is deterministic and cannot tell which Operations or reader it was given (parametricity; no Any/TypeId/specialisation in the extracted text)"]),
}
