// Written by tools/decl.py
//! Contracts declared as a client declares them. Expanded for the verifier, linked by the stand-in.
#![allow(non_snake_case, dead_code)]
use tp_client::contract::{channels, states, ContractDataHandle};
use tp_client::object::ObjectHandle;

#[states]
pub struct SEmpty {
}

#[states]
pub struct SOne {
    pub only: u64,
}

#[states]
pub struct STwo {
    /// with a comment
    b: f64,
    pub(crate) a: u32,
}

#[states]
pub struct SEach {
    /// with a comment
    u8_field: u8,
    pub(crate) u16_field: u16,
    u32_field: u32,
    pub u64_field: u64,
    /// with a comment
    i8_field: i8,
    pub(crate) i16_field: i16,
    i32_field: i32,
    pub i64_field: i64,
    /// with a comment
    bool_field: bool,
    pub(crate) f32_field: f32,
    f64_field: f64,
    pub string_field: String,
    /// with a comment
    objecthandle_field: ObjectHandle,
    pub(crate) contractdatahandle_field: ContractDataHandle,
}

#[states]
pub struct SBack {
    /// with a comment
    z0: ContractDataHandle,
    pub(crate) z1: ObjectHandle,
    z2: String,
    pub z3: f64,
    /// with a comment
    z4: f32,
    pub(crate) z5: bool,
    z6: i64,
    pub z7: i32,
    /// with a comment
    z8: i16,
    pub(crate) z9: i8,
    z10: u64,
    pub z11: u32,
    /// with a comment
    z12: u16,
    pub(crate) z13: u8,
}

#[states]
pub struct SSame {
    pub same0: String,
    /// with a comment
    same1: String,
    pub(crate) same2: String,
    same3: String,
    pub same4: String,
}

#[states]
pub struct SPairs {
    pub u8_0: u8,
    /// with a comment
    u8_1: u8,
    pub(crate) i8_0: i8,
    i8_1: i8,
    pub f32_0: f32,
    /// with a comment
    f32_1: f32,
    pub(crate) str_0: String,
    oh_0: ObjectHandle,
    pub ch_0: ContractDataHandle,
}

#[states]
pub struct SNames {
    pub(crate) id: u8,
    idx: bool,
    pub contract: i64,
    /// with a comment
    handle: u8,
    pub(crate) ID: u16,
    _x: i16,
    pub x: i16,
    /// with a comment
    x_: i16,
    pub(crate) XX: f64,
    types: u32,
    pub names: String,
    /// with a comment
    etats: bool,
    pub(crate) value: f32,
    state: u8,
    pub channels: ObjectHandle,
}

#[states]
pub struct SWide {
    w000: u8,
    pub w001: u64,
    /// with a comment
    w002: i32,
    pub(crate) w003: f32,
    w004: ObjectHandle,
    pub w005: u16,
    /// with a comment
    w006: i8,
    pub(crate) w007: i64,
    w008: f64,
    pub w009: ContractDataHandle,
    /// with a comment
    w010: u32,
    pub(crate) w011: i16,
    w012: bool,
    pub w013: String,
    /// with a comment
    w014: u16,
    pub(crate) w015: i8,
    w016: i64,
    pub w017: f64,
    /// with a comment
    w018: ContractDataHandle,
    pub(crate) w019: u32,
    w020: i16,
    pub w021: bool,
    /// with a comment
    w022: String,
    pub(crate) w023: u8,
    w024: u64,
    pub w025: i32,
    /// with a comment
    w026: f32,
    pub(crate) w027: ObjectHandle,
    w028: u32,
    pub w029: i16,
    /// with a comment
    w030: bool,
    pub(crate) w031: String,
    w032: u8,
    pub w033: u64,
    /// with a comment
    w034: i32,
    pub(crate) w035: f32,
    w036: ObjectHandle,
    pub w037: u16,
    /// with a comment
    w038: i8,
    pub(crate) w039: i64,
    w040: f64,
    pub w041: ContractDataHandle,
    /// with a comment
    w042: u64,
    pub(crate) w043: i32,
    w044: f32,
    pub w045: ObjectHandle,
    /// with a comment
    w046: u16,
    pub(crate) w047: i8,
    w048: i64,
    pub w049: f64,
    /// with a comment
    w050: ContractDataHandle,
    pub(crate) w051: u32,
    w052: i16,
    pub w053: bool,
    /// with a comment
    w054: String,
    pub(crate) w055: u8,
    w056: i8,
    pub w057: i64,
    /// with a comment
    w058: f64,
    pub(crate) w059: ContractDataHandle,
    w060: u32,
    pub w061: i16,
    /// with a comment
    w062: bool,
    pub(crate) w063: String,
    w064: u8,
    pub w065: u64,
    /// with a comment
    w066: i32,
    pub(crate) w067: f32,
    w068: ObjectHandle,
    pub w069: u16,
    /// with a comment
    w070: i16,
    pub(crate) w071: bool,
    w072: String,
    pub w073: u8,
    /// with a comment
    w074: u64,
    pub(crate) w075: i32,
    w076: f32,
    pub w077: ObjectHandle,
    /// with a comment
    w078: u16,
    pub(crate) w079: i8,
    w080: i64,
    pub w081: f64,
    /// with a comment
    w082: ContractDataHandle,
    pub(crate) w083: u32,
    w084: i32,
    pub w085: f32,
    /// with a comment
    w086: ObjectHandle,
    pub(crate) w087: u16,
    w088: i8,
    pub w089: i64,
    /// with a comment
    w090: f64,
    pub(crate) w091: ContractDataHandle,
    w092: u32,
    pub w093: i16,
    /// with a comment
    w094: bool,
    pub(crate) w095: String,
    w096: u8,
    pub w097: u64,
    /// with a comment
    w098: i64,
    pub(crate) w099: f64,
    w100: ContractDataHandle,
    pub w101: u32,
    /// with a comment
    w102: i16,
    pub(crate) w103: bool,
    w104: String,
    pub w105: u8,
    /// with a comment
    w106: u64,
    pub(crate) w107: i32,
    w108: f32,
    pub w109: ObjectHandle,
    /// with a comment
    w110: u16,
    pub(crate) w111: i8,
    w112: bool,
    pub w113: String,
    /// with a comment
    w114: u8,
    pub(crate) w115: u64,
    w116: i32,
    pub w117: f32,
    /// with a comment
    w118: ObjectHandle,
    pub(crate) w119: u16,
    w120: i8,
    pub w121: i64,
    /// with a comment
    w122: f64,
    pub(crate) w123: ContractDataHandle,
    w124: u32,
    pub w125: i16,
    /// with a comment
    w126: f32,
    pub(crate) w127: ObjectHandle,
    w128: u16,
    pub w129: i8,
    /// with a comment
    w130: i64,
    pub(crate) w131: f64,
    w132: ContractDataHandle,
    pub w133: u32,
    /// with a comment
    w134: i16,
    pub(crate) w135: bool,
    w136: String,
    pub w137: u8,
    /// with a comment
    w138: u64,
    pub(crate) w139: i32,
    w140: f64,
    pub w141: ContractDataHandle,
    /// with a comment
    w142: u32,
    pub(crate) w143: i16,
    w144: bool,
    pub w145: String,
    /// with a comment
    w146: u8,
    pub(crate) w147: u64,
    w148: i32,
    pub w149: f32,
    /// with a comment
    w150: ObjectHandle,
    pub(crate) w151: u16,
    w152: i8,
    pub w153: i64,
    /// with a comment
    w154: String,
    pub(crate) w155: u8,
    w156: u64,
    pub w157: i32,
    /// with a comment
    w158: f32,
    pub(crate) w159: ObjectHandle,
    w160: u16,
    pub w161: i8,
    /// with a comment
    w162: i64,
    pub(crate) w163: f64,
    w164: ContractDataHandle,
    pub w165: u32,
    /// with a comment
    w166: i16,
    pub(crate) w167: bool,
    w168: ObjectHandle,
    pub w169: u16,
    /// with a comment
    w170: i8,
    pub(crate) w171: i64,
    w172: f64,
    pub w173: ContractDataHandle,
    /// with a comment
    w174: u32,
    pub(crate) w175: i16,
    w176: bool,
    pub w177: String,
    /// with a comment
    w178: u8,
    pub(crate) w179: u64,
    w180: i32,
    pub w181: f32,
    /// with a comment
    w182: ContractDataHandle,
    pub(crate) w183: u32,
    w184: i16,
    pub w185: bool,
    /// with a comment
    w186: String,
    pub(crate) w187: u8,
    w188: u64,
    pub w189: i32,
    /// with a comment
    w190: f32,
    pub(crate) w191: ObjectHandle,
    w192: u16,
    pub w193: i8,
    /// with a comment
    w194: i64,
    pub(crate) w195: f64,
    w196: u8,
    pub w197: u64,
    /// with a comment
    w198: i32,
    pub(crate) w199: f32,
    w200: ObjectHandle,
    pub w201: u16,
    /// with a comment
    w202: i8,
    pub(crate) w203: i64,
    w204: f64,
    pub w205: ContractDataHandle,
    /// with a comment
    w206: u32,
    pub(crate) w207: i16,
    w208: bool,
    pub w209: String,
    /// with a comment
    w210: u16,
    pub(crate) w211: i8,
    w212: i64,
    pub w213: f64,
    /// with a comment
    w214: ContractDataHandle,
    pub(crate) w215: u32,
    w216: i16,
    pub w217: bool,
    /// with a comment
    w218: String,
    pub(crate) w219: u8,
    w220: u64,
    pub w221: i32,
    /// with a comment
    w222: f32,
    pub(crate) w223: ObjectHandle,
    w224: u32,
    pub w225: i16,
    /// with a comment
    w226: bool,
    pub(crate) w227: String,
    w228: u8,
    pub w229: u64,
    /// with a comment
    w230: i32,
    pub(crate) w231: f32,
    w232: ObjectHandle,
    pub w233: u16,
    /// with a comment
    w234: i8,
    pub(crate) w235: i64,
    w236: f64,
    pub w237: ContractDataHandle,
    /// with a comment
    w238: u64,
    pub(crate) w239: i32,
    w240: f32,
    pub w241: ObjectHandle,
    /// with a comment
    w242: u16,
    pub(crate) w243: i8,
    w244: i64,
    pub w245: f64,
    /// with a comment
    w246: ContractDataHandle,
    pub(crate) w247: u32,
    w248: i16,
    pub w249: bool,
    /// with a comment
    w250: String,
    pub(crate) w251: u8,
    w252: i8,
    pub w253: i64,
    /// with a comment
    w254: f64,
    pub(crate) w255: ContractDataHandle,
    w256: u32,
    pub w257: i16,
    /// with a comment
    w258: bool,
    pub(crate) w259: String,
    w260: u8,
    pub w261: u64,
    /// with a comment
    w262: i32,
    pub(crate) w263: f32,
    w264: ObjectHandle,
    pub w265: u16,
    /// with a comment
    w266: i16,
    pub(crate) w267: bool,
    w268: String,
    pub w269: u8,
    /// with a comment
    w270: u64,
    pub(crate) w271: i32,
    w272: f32,
    pub w273: ObjectHandle,
    /// with a comment
    w274: u16,
    pub(crate) w275: i8,
    w276: i64,
    pub w277: f64,
    /// with a comment
    w278: ContractDataHandle,
    pub(crate) w279: u32,
    w280: i32,
    pub w281: f32,
    /// with a comment
    w282: ObjectHandle,
    pub(crate) w283: u16,
    w284: i8,
    pub w285: i64,
    /// with a comment
    w286: f64,
    pub(crate) w287: ContractDataHandle,
    w288: u32,
    pub w289: i16,
    /// with a comment
    w290: bool,
    pub(crate) w291: String,
    w292: u8,
    pub w293: u64,
    /// with a comment
    w294: i64,
    pub(crate) w295: f64,
    w296: ContractDataHandle,
    pub w297: u32,
    /// with a comment
    w298: i16,
    pub(crate) w299: bool,
}

#[states]
pub struct SMany {
    /// with a comment
    m00: u8,
    pub(crate) m01: i16,
    m02: f64,
    pub m03: u16,
    /// with a comment
    m04: i32,
    pub(crate) m05: String,
    m06: u32,
    pub m07: i64,
    /// with a comment
    m08: ObjectHandle,
    pub(crate) m09: u64,
    m10: bool,
    pub m11: ContractDataHandle,
    /// with a comment
    m12: i8,
    pub(crate) m13: f32,
    m14: u16,
    pub m15: i32,
    /// with a comment
    m16: String,
    pub(crate) m17: u32,
    m18: i64,
    pub m19: ObjectHandle,
    /// with a comment
    m20: u64,
    pub(crate) m21: bool,
    m22: ContractDataHandle,
    pub m23: i8,
    /// with a comment
    m24: f32,
    pub(crate) m25: u8,
    m26: i16,
    pub m27: f64,
    /// with a comment
    m28: u32,
    pub(crate) m29: i64,
    m30: ObjectHandle,
    pub m31: u64,
    /// with a comment
    m32: bool,
    pub(crate) m33: ContractDataHandle,
    m34: i8,
    pub m35: f32,
    /// with a comment
    m36: u8,
    pub(crate) m37: i16,
    m38: f64,
    pub m39: u16,
    /// with a comment
    m40: i32,
    pub(crate) m41: String,
    m42: u64,
    pub m43: bool,
    /// with a comment
    m44: ContractDataHandle,
    pub(crate) m45: i8,
    m46: f32,
    pub m47: u8,
    /// with a comment
    m48: i16,
    pub(crate) m49: f64,
    m50: u16,
    pub m51: i32,
    /// with a comment
    m52: String,
    pub(crate) m53: u32,
    m54: i64,
    pub m55: ObjectHandle,
    /// with a comment
    m56: i8,
    pub(crate) m57: f32,
    m58: u8,
    pub m59: i16,
    /// with a comment
    m60: f64,
    pub(crate) m61: u16,
    m62: i32,
    pub m63: String,
    /// with a comment
    m64: u32,
    pub(crate) m65: i64,
    m66: ObjectHandle,
    pub m67: u64,
    /// with a comment
    m68: bool,
    pub(crate) m69: ContractDataHandle,
}

#[channels]
pub struct CEmpty {
}

#[channels]
pub struct COne {
    pub only: u64,
}

#[channels]
pub struct CTwo {
    /// with a comment
    b: f64,
    pub(crate) a: u32,
}

#[channels]
pub struct CEach {
    /// with a comment
    u8_field: u8,
    pub(crate) u16_field: u16,
    u32_field: u32,
    pub u64_field: u64,
    /// with a comment
    i8_field: i8,
    pub(crate) i16_field: i16,
    i32_field: i32,
    pub i64_field: i64,
    /// with a comment
    bool_field: bool,
    pub(crate) f32_field: f32,
    f64_field: f64,
    pub string_field: String,
    /// with a comment
    objecthandle_field: ObjectHandle,
    pub(crate) contractdatahandle_field: ContractDataHandle,
}

#[channels]
pub struct CBack {
    /// with a comment
    z0: ContractDataHandle,
    pub(crate) z1: ObjectHandle,
    z2: String,
    pub z3: f64,
    /// with a comment
    z4: f32,
    pub(crate) z5: bool,
    z6: i64,
    pub z7: i32,
    /// with a comment
    z8: i16,
    pub(crate) z9: i8,
    z10: u64,
    pub z11: u32,
    /// with a comment
    z12: u16,
    pub(crate) z13: u8,
}

#[channels]
pub struct CSame {
    pub same0: String,
    /// with a comment
    same1: String,
    pub(crate) same2: String,
    same3: String,
    pub same4: String,
}

#[channels]
pub struct CPairs {
    pub u8_0: u8,
    /// with a comment
    u8_1: u8,
    pub(crate) i8_0: i8,
    i8_1: i8,
    pub f32_0: f32,
    /// with a comment
    f32_1: f32,
    pub(crate) str_0: String,
    oh_0: ObjectHandle,
    pub ch_0: ContractDataHandle,
}

#[channels]
pub struct CNames {
    pub(crate) id: u8,
    idx: bool,
    pub contract: i64,
    /// with a comment
    handle: u8,
    pub(crate) ID: u16,
    _x: i16,
    pub x: i16,
    /// with a comment
    x_: i16,
    pub(crate) XX: f64,
    types: u32,
    pub names: String,
    /// with a comment
    etats: bool,
    pub(crate) value: f32,
    state: u8,
    pub channels: ObjectHandle,
}

#[channels]
pub struct CWide {
    w000: u8,
    pub w001: u64,
    /// with a comment
    w002: i32,
    pub(crate) w003: f32,
    w004: ObjectHandle,
    pub w005: u16,
    /// with a comment
    w006: i8,
    pub(crate) w007: i64,
    w008: f64,
    pub w009: ContractDataHandle,
    /// with a comment
    w010: u32,
    pub(crate) w011: i16,
    w012: bool,
    pub w013: String,
    /// with a comment
    w014: u16,
    pub(crate) w015: i8,
    w016: i64,
    pub w017: f64,
    /// with a comment
    w018: ContractDataHandle,
    pub(crate) w019: u32,
    w020: i16,
    pub w021: bool,
    /// with a comment
    w022: String,
    pub(crate) w023: u8,
    w024: u64,
    pub w025: i32,
    /// with a comment
    w026: f32,
    pub(crate) w027: ObjectHandle,
    w028: u32,
    pub w029: i16,
    /// with a comment
    w030: bool,
    pub(crate) w031: String,
    w032: u8,
    pub w033: u64,
    /// with a comment
    w034: i32,
    pub(crate) w035: f32,
    w036: ObjectHandle,
    pub w037: u16,
    /// with a comment
    w038: i8,
    pub(crate) w039: i64,
    w040: f64,
    pub w041: ContractDataHandle,
    /// with a comment
    w042: u64,
    pub(crate) w043: i32,
    w044: f32,
    pub w045: ObjectHandle,
    /// with a comment
    w046: u16,
    pub(crate) w047: i8,
    w048: i64,
    pub w049: f64,
    /// with a comment
    w050: ContractDataHandle,
    pub(crate) w051: u32,
    w052: i16,
    pub w053: bool,
    /// with a comment
    w054: String,
    pub(crate) w055: u8,
    w056: i8,
    pub w057: i64,
    /// with a comment
    w058: f64,
    pub(crate) w059: ContractDataHandle,
    w060: u32,
    pub w061: i16,
    /// with a comment
    w062: bool,
    pub(crate) w063: String,
    w064: u8,
    pub w065: u64,
    /// with a comment
    w066: i32,
    pub(crate) w067: f32,
    w068: ObjectHandle,
    pub w069: u16,
    /// with a comment
    w070: i16,
    pub(crate) w071: bool,
    w072: String,
    pub w073: u8,
    /// with a comment
    w074: u64,
    pub(crate) w075: i32,
    w076: f32,
    pub w077: ObjectHandle,
    /// with a comment
    w078: u16,
    pub(crate) w079: i8,
    w080: i64,
    pub w081: f64,
    /// with a comment
    w082: ContractDataHandle,
    pub(crate) w083: u32,
    w084: i32,
    pub w085: f32,
    /// with a comment
    w086: ObjectHandle,
    pub(crate) w087: u16,
    w088: i8,
    pub w089: i64,
    /// with a comment
    w090: f64,
    pub(crate) w091: ContractDataHandle,
    w092: u32,
    pub w093: i16,
    /// with a comment
    w094: bool,
    pub(crate) w095: String,
    w096: u8,
    pub w097: u64,
    /// with a comment
    w098: i64,
    pub(crate) w099: f64,
    w100: ContractDataHandle,
    pub w101: u32,
    /// with a comment
    w102: i16,
    pub(crate) w103: bool,
    w104: String,
    pub w105: u8,
    /// with a comment
    w106: u64,
    pub(crate) w107: i32,
    w108: f32,
    pub w109: ObjectHandle,
    /// with a comment
    w110: u16,
    pub(crate) w111: i8,
    w112: bool,
    pub w113: String,
    /// with a comment
    w114: u8,
    pub(crate) w115: u64,
    w116: i32,
    pub w117: f32,
    /// with a comment
    w118: ObjectHandle,
    pub(crate) w119: u16,
    w120: i8,
    pub w121: i64,
    /// with a comment
    w122: f64,
    pub(crate) w123: ContractDataHandle,
    w124: u32,
    pub w125: i16,
    /// with a comment
    w126: f32,
    pub(crate) w127: ObjectHandle,
    w128: u16,
    pub w129: i8,
    /// with a comment
    w130: i64,
    pub(crate) w131: f64,
    w132: ContractDataHandle,
    pub w133: u32,
    /// with a comment
    w134: i16,
    pub(crate) w135: bool,
    w136: String,
    pub w137: u8,
    /// with a comment
    w138: u64,
    pub(crate) w139: i32,
    w140: f64,
    pub w141: ContractDataHandle,
    /// with a comment
    w142: u32,
    pub(crate) w143: i16,
    w144: bool,
    pub w145: String,
    /// with a comment
    w146: u8,
    pub(crate) w147: u64,
    w148: i32,
    pub w149: f32,
    /// with a comment
    w150: ObjectHandle,
    pub(crate) w151: u16,
    w152: i8,
    pub w153: i64,
    /// with a comment
    w154: String,
    pub(crate) w155: u8,
    w156: u64,
    pub w157: i32,
    /// with a comment
    w158: f32,
    pub(crate) w159: ObjectHandle,
    w160: u16,
    pub w161: i8,
    /// with a comment
    w162: i64,
    pub(crate) w163: f64,
    w164: ContractDataHandle,
    pub w165: u32,
    /// with a comment
    w166: i16,
    pub(crate) w167: bool,
    w168: ObjectHandle,
    pub w169: u16,
    /// with a comment
    w170: i8,
    pub(crate) w171: i64,
    w172: f64,
    pub w173: ContractDataHandle,
    /// with a comment
    w174: u32,
    pub(crate) w175: i16,
    w176: bool,
    pub w177: String,
    /// with a comment
    w178: u8,
    pub(crate) w179: u64,
    w180: i32,
    pub w181: f32,
    /// with a comment
    w182: ContractDataHandle,
    pub(crate) w183: u32,
    w184: i16,
    pub w185: bool,
    /// with a comment
    w186: String,
    pub(crate) w187: u8,
    w188: u64,
    pub w189: i32,
    /// with a comment
    w190: f32,
    pub(crate) w191: ObjectHandle,
    w192: u16,
    pub w193: i8,
    /// with a comment
    w194: i64,
    pub(crate) w195: f64,
    w196: u8,
    pub w197: u64,
    /// with a comment
    w198: i32,
    pub(crate) w199: f32,
    w200: ObjectHandle,
    pub w201: u16,
    /// with a comment
    w202: i8,
    pub(crate) w203: i64,
    w204: f64,
    pub w205: ContractDataHandle,
    /// with a comment
    w206: u32,
    pub(crate) w207: i16,
    w208: bool,
    pub w209: String,
    /// with a comment
    w210: u16,
    pub(crate) w211: i8,
    w212: i64,
    pub w213: f64,
    /// with a comment
    w214: ContractDataHandle,
    pub(crate) w215: u32,
    w216: i16,
    pub w217: bool,
    /// with a comment
    w218: String,
    pub(crate) w219: u8,
    w220: u64,
    pub w221: i32,
    /// with a comment
    w222: f32,
    pub(crate) w223: ObjectHandle,
    w224: u32,
    pub w225: i16,
    /// with a comment
    w226: bool,
    pub(crate) w227: String,
    w228: u8,
    pub w229: u64,
    /// with a comment
    w230: i32,
    pub(crate) w231: f32,
    w232: ObjectHandle,
    pub w233: u16,
    /// with a comment
    w234: i8,
    pub(crate) w235: i64,
    w236: f64,
    pub w237: ContractDataHandle,
    /// with a comment
    w238: u64,
    pub(crate) w239: i32,
    w240: f32,
    pub w241: ObjectHandle,
    /// with a comment
    w242: u16,
    pub(crate) w243: i8,
    w244: i64,
    pub w245: f64,
    /// with a comment
    w246: ContractDataHandle,
    pub(crate) w247: u32,
    w248: i16,
    pub w249: bool,
    /// with a comment
    w250: String,
    pub(crate) w251: u8,
    w252: i8,
    pub w253: i64,
    /// with a comment
    w254: f64,
    pub(crate) w255: ContractDataHandle,
    w256: u32,
    pub w257: i16,
    /// with a comment
    w258: bool,
    pub(crate) w259: String,
    w260: u8,
    pub w261: u64,
    /// with a comment
    w262: i32,
    pub(crate) w263: f32,
    w264: ObjectHandle,
    pub w265: u16,
    /// with a comment
    w266: i16,
    pub(crate) w267: bool,
    w268: String,
    pub w269: u8,
    /// with a comment
    w270: u64,
    pub(crate) w271: i32,
    w272: f32,
    pub w273: ObjectHandle,
    /// with a comment
    w274: u16,
    pub(crate) w275: i8,
    w276: i64,
    pub w277: f64,
    /// with a comment
    w278: ContractDataHandle,
    pub(crate) w279: u32,
    w280: i32,
    pub w281: f32,
    /// with a comment
    w282: ObjectHandle,
    pub(crate) w283: u16,
    w284: i8,
    pub w285: i64,
    /// with a comment
    w286: f64,
    pub(crate) w287: ContractDataHandle,
    w288: u32,
    pub w289: i16,
    /// with a comment
    w290: bool,
    pub(crate) w291: String,
    w292: u8,
    pub w293: u64,
    /// with a comment
    w294: i64,
    pub(crate) w295: f64,
    w296: ContractDataHandle,
    pub w297: u32,
    /// with a comment
    w298: i16,
    pub(crate) w299: bool,
}

#[channels]
pub struct CMany {
    /// with a comment
    m00: u8,
    pub(crate) m01: i16,
    m02: f64,
    pub m03: u16,
    /// with a comment
    m04: i32,
    pub(crate) m05: String,
    m06: u32,
    pub m07: i64,
    /// with a comment
    m08: ObjectHandle,
    pub(crate) m09: u64,
    m10: bool,
    pub m11: ContractDataHandle,
    /// with a comment
    m12: i8,
    pub(crate) m13: f32,
    m14: u16,
    pub m15: i32,
    /// with a comment
    m16: String,
    pub(crate) m17: u32,
    m18: i64,
    pub m19: ObjectHandle,
    /// with a comment
    m20: u64,
    pub(crate) m21: bool,
    m22: ContractDataHandle,
    pub m23: i8,
    /// with a comment
    m24: f32,
    pub(crate) m25: u8,
    m26: i16,
    pub m27: f64,
    /// with a comment
    m28: u32,
    pub(crate) m29: i64,
    m30: ObjectHandle,
    pub m31: u64,
    /// with a comment
    m32: bool,
    pub(crate) m33: ContractDataHandle,
    m34: i8,
    pub m35: f32,
    /// with a comment
    m36: u8,
    pub(crate) m37: i16,
    m38: f64,
    pub m39: u16,
    /// with a comment
    m40: i32,
    pub(crate) m41: String,
    m42: u64,
    pub m43: bool,
    /// with a comment
    m44: ContractDataHandle,
    pub(crate) m45: i8,
    m46: f32,
    pub m47: u8,
    /// with a comment
    m48: i16,
    pub(crate) m49: f64,
    m50: u16,
    pub m51: i32,
    /// with a comment
    m52: String,
    pub(crate) m53: u32,
    m54: i64,
    pub m55: ObjectHandle,
    /// with a comment
    m56: i8,
    pub(crate) m57: f32,
    m58: u8,
    pub m59: i16,
    /// with a comment
    m60: f64,
    pub(crate) m61: u16,
    m62: i32,
    pub m63: String,
    /// with a comment
    m64: u32,
    pub(crate) m65: i64,
    m66: ObjectHandle,
    pub m67: u64,
    /// with a comment
    m68: bool,
    pub(crate) m69: ContractDataHandle,
}
