//@ extra mod
/// T.81 table B.1
pub open spec fn marker_ok(m: Marker) -> bool {
    match m { Marker::RST(v) => v <= 7, Marker::APP(v) => v <= 15, Marker::JPGn(v) => v <= 13, _ => true }
}
pub open spec fn marker_byte(m: Marker) -> u8 {
    match m {
        Marker::ZERO => 0x00, Marker::TEM => 0x01, Marker::RES => 0x02,
        Marker::SOF(t) => match t {
            SOFType::BaselineDCT => 0xC0, SOFType::ExtendedSequentialDCT => 0xC1, SOFType::ProgressiveDCT => 0xC2,
            SOFType::Lossless => 0xC3, SOFType::DifferentialSequentialDCT => 0xC5,
            SOFType::DifferentialProgressiveDCT => 0xC6, SOFType::DifferentialLossless => 0xC7,
            SOFType::ExtendedSequentialDCTArithmetic => 0xC9, SOFType::ProgressiveDCTArithmetic => 0xCA,
            SOFType::LosslessArithmeticCoding => 0xCB, SOFType::DifferentialSequentialDCTArithmetic => 0xCD,
            SOFType::DifferentialProgressiveDCTArithmetic => 0xCE, SOFType::DifferentialLosslessArithmetic => 0xCF,
        },
        Marker::JPG => 0xC8, Marker::DHT => 0xC4, Marker::DAC => 0xCC,
        Marker::RST(v) => (0xD0 + v) as u8,
        Marker::SOI => 0xD8, Marker::EOI => 0xD9, Marker::SOS => 0xDA, Marker::DQT => 0xDB, Marker::DNL => 0xDC,
        Marker::DRI => 0xDD, Marker::DHP => 0xDE, Marker::EXP => 0xDF,
        Marker::APP(v) => (0xE0 + v) as u8, Marker::JPGn(v) => (0xF0 + v) as u8,
        Marker::COM => 0xFE, Marker::FILL => 0xFF,
    }
}
impl vstd::std_specs::convert::FromSpecImpl<Marker> for u8 {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(m: Marker) -> u8 { marker_byte(m) }
}
//@ fn u8::from@From
//@ props C08
//@ at start
// the trait has no precondition: its only caller, write_marker, requires marker_ok
proof { assume(marker_ok(marker)); }
