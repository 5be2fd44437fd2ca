// Written by tools/decl.py
//! M01: what the macros make of each declaration.
use tp_client::contract::properties::channels::{ChannelId, IChannels};
use tp_client::contract::properties::dynamic::{TpPrimitiveType as P, TpPropertyType};
use tp_client::contract::properties::states::{IStates, StateId};
use tp_client::contract::ContractDataHandle;
use tp_client::object::ObjectHandle;
use decl::*;

fn c_SEmpty(_h: ContractDataHandle) {
    let _c = SEmpty::new(_h);
    assert_eq!(<SEmpty as IStates>::type_ids(), &[] as &[std::any::TypeId], "types of SEmpty");
    assert_eq!(<SEmpty as IStates>::enumerate_types(), &[] as &[TpPropertyType], "types of SEmpty");
    assert_eq!(<SEmpty as IStates>::field_names(), &[] as &[&str], "names of SEmpty");
}

fn c_SOne(_h: ContractDataHandle) {
    let _c = SOne::new(_h);
    { let id: StateId<u64> = _c.only(); assert!(id == StateId::new(0, _h) && id.contract() == _h, "SOne::only() is {:?}", id); }
    assert_eq!(<SOne as IStates>::type_ids(), &[std::any::TypeId::of::<u64>()] as &[std::any::TypeId], "types of SOne");
    assert_eq!(<SOne as IStates>::enumerate_types(), &[TpPropertyType::Primitive(P::U64)] as &[TpPropertyType], "types of SOne");
    assert_eq!(<SOne as IStates>::field_names(), &["only"] as &[&str], "names of SOne");
}

fn c_STwo(_h: ContractDataHandle) {
    let _c = STwo::new(_h);
    { let id: StateId<f64> = _c.b(); assert!(id == StateId::new(0, _h) && id.contract() == _h, "STwo::b() is {:?}", id); }
    { let id: StateId<u32> = _c.a(); assert!(id == StateId::new(1, _h) && id.contract() == _h, "STwo::a() is {:?}", id); }
    assert_eq!(<STwo as IStates>::type_ids(), &[std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u32>()] as &[std::any::TypeId], "types of STwo");
    assert_eq!(<STwo as IStates>::enumerate_types(), &[TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U32)] as &[TpPropertyType], "types of STwo");
    assert_eq!(<STwo as IStates>::field_names(), &["b", "a"] as &[&str], "names of STwo");
}

fn c_SEach(_h: ContractDataHandle) {
    let _c = SEach::new(_h);
    { let id: StateId<u8> = _c.u8_field(); assert!(id == StateId::new(0, _h) && id.contract() == _h, "SEach::u8_field() is {:?}", id); }
    { let id: StateId<u16> = _c.u16_field(); assert!(id == StateId::new(1, _h) && id.contract() == _h, "SEach::u16_field() is {:?}", id); }
    { let id: StateId<u32> = _c.u32_field(); assert!(id == StateId::new(2, _h) && id.contract() == _h, "SEach::u32_field() is {:?}", id); }
    { let id: StateId<u64> = _c.u64_field(); assert!(id == StateId::new(3, _h) && id.contract() == _h, "SEach::u64_field() is {:?}", id); }
    { let id: StateId<i8> = _c.i8_field(); assert!(id == StateId::new(4, _h) && id.contract() == _h, "SEach::i8_field() is {:?}", id); }
    { let id: StateId<i16> = _c.i16_field(); assert!(id == StateId::new(5, _h) && id.contract() == _h, "SEach::i16_field() is {:?}", id); }
    { let id: StateId<i32> = _c.i32_field(); assert!(id == StateId::new(6, _h) && id.contract() == _h, "SEach::i32_field() is {:?}", id); }
    { let id: StateId<i64> = _c.i64_field(); assert!(id == StateId::new(7, _h) && id.contract() == _h, "SEach::i64_field() is {:?}", id); }
    { let id: StateId<bool> = _c.bool_field(); assert!(id == StateId::new(8, _h) && id.contract() == _h, "SEach::bool_field() is {:?}", id); }
    { let id: StateId<f32> = _c.f32_field(); assert!(id == StateId::new(9, _h) && id.contract() == _h, "SEach::f32_field() is {:?}", id); }
    { let id: StateId<f64> = _c.f64_field(); assert!(id == StateId::new(10, _h) && id.contract() == _h, "SEach::f64_field() is {:?}", id); }
    { let id: StateId<String> = _c.string_field(); assert!(id == StateId::new(11, _h) && id.contract() == _h, "SEach::string_field() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.objecthandle_field(); assert!(id == StateId::new(12, _h) && id.contract() == _h, "SEach::objecthandle_field() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.contractdatahandle_field(); assert!(id == StateId::new(13, _h) && id.contract() == _h, "SEach::contractdatahandle_field() is {:?}", id); }
    assert_eq!(<SEach as IStates>::type_ids(), &[std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<ContractDataHandle>()] as &[std::any::TypeId], "types of SEach");
    assert_eq!(<SEach as IStates>::enumerate_types(), &[TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::ContractDataHandle)] as &[TpPropertyType], "types of SEach");
    assert_eq!(<SEach as IStates>::field_names(), &["u8_field", "u16_field", "u32_field", "u64_field", "i8_field", "i16_field", "i32_field", "i64_field", "bool_field", "f32_field", "f64_field", "string_field", "objecthandle_field", "contractdatahandle_field"] as &[&str], "names of SEach");
}

fn c_SBack(_h: ContractDataHandle) {
    let _c = SBack::new(_h);
    { let id: StateId<ContractDataHandle> = _c.z0(); assert!(id == StateId::new(0, _h) && id.contract() == _h, "SBack::z0() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.z1(); assert!(id == StateId::new(1, _h) && id.contract() == _h, "SBack::z1() is {:?}", id); }
    { let id: StateId<String> = _c.z2(); assert!(id == StateId::new(2, _h) && id.contract() == _h, "SBack::z2() is {:?}", id); }
    { let id: StateId<f64> = _c.z3(); assert!(id == StateId::new(3, _h) && id.contract() == _h, "SBack::z3() is {:?}", id); }
    { let id: StateId<f32> = _c.z4(); assert!(id == StateId::new(4, _h) && id.contract() == _h, "SBack::z4() is {:?}", id); }
    { let id: StateId<bool> = _c.z5(); assert!(id == StateId::new(5, _h) && id.contract() == _h, "SBack::z5() is {:?}", id); }
    { let id: StateId<i64> = _c.z6(); assert!(id == StateId::new(6, _h) && id.contract() == _h, "SBack::z6() is {:?}", id); }
    { let id: StateId<i32> = _c.z7(); assert!(id == StateId::new(7, _h) && id.contract() == _h, "SBack::z7() is {:?}", id); }
    { let id: StateId<i16> = _c.z8(); assert!(id == StateId::new(8, _h) && id.contract() == _h, "SBack::z8() is {:?}", id); }
    { let id: StateId<i8> = _c.z9(); assert!(id == StateId::new(9, _h) && id.contract() == _h, "SBack::z9() is {:?}", id); }
    { let id: StateId<u64> = _c.z10(); assert!(id == StateId::new(10, _h) && id.contract() == _h, "SBack::z10() is {:?}", id); }
    { let id: StateId<u32> = _c.z11(); assert!(id == StateId::new(11, _h) && id.contract() == _h, "SBack::z11() is {:?}", id); }
    { let id: StateId<u16> = _c.z12(); assert!(id == StateId::new(12, _h) && id.contract() == _h, "SBack::z12() is {:?}", id); }
    { let id: StateId<u8> = _c.z13(); assert!(id == StateId::new(13, _h) && id.contract() == _h, "SBack::z13() is {:?}", id); }
    assert_eq!(<SBack as IStates>::type_ids(), &[std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<u8>()] as &[std::any::TypeId], "types of SBack");
    assert_eq!(<SBack as IStates>::enumerate_types(), &[TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::U8)] as &[TpPropertyType], "types of SBack");
    assert_eq!(<SBack as IStates>::field_names(), &["z0", "z1", "z2", "z3", "z4", "z5", "z6", "z7", "z8", "z9", "z10", "z11", "z12", "z13"] as &[&str], "names of SBack");
}

fn c_SSame(_h: ContractDataHandle) {
    let _c = SSame::new(_h);
    { let id: StateId<String> = _c.same0(); assert!(id == StateId::new(0, _h) && id.contract() == _h, "SSame::same0() is {:?}", id); }
    { let id: StateId<String> = _c.same1(); assert!(id == StateId::new(1, _h) && id.contract() == _h, "SSame::same1() is {:?}", id); }
    { let id: StateId<String> = _c.same2(); assert!(id == StateId::new(2, _h) && id.contract() == _h, "SSame::same2() is {:?}", id); }
    { let id: StateId<String> = _c.same3(); assert!(id == StateId::new(3, _h) && id.contract() == _h, "SSame::same3() is {:?}", id); }
    { let id: StateId<String> = _c.same4(); assert!(id == StateId::new(4, _h) && id.contract() == _h, "SSame::same4() is {:?}", id); }
    assert_eq!(<SSame as IStates>::type_ids(), &[std::any::TypeId::of::<String>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<String>()] as &[std::any::TypeId], "types of SSame");
    assert_eq!(<SSame as IStates>::enumerate_types(), &[TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::String)] as &[TpPropertyType], "types of SSame");
    assert_eq!(<SSame as IStates>::field_names(), &["same0", "same1", "same2", "same3", "same4"] as &[&str], "names of SSame");
}

fn c_SPairs(_h: ContractDataHandle) {
    let _c = SPairs::new(_h);
    { let id: StateId<u8> = _c.u8_0(); assert!(id == StateId::new(0, _h) && id.contract() == _h, "SPairs::u8_0() is {:?}", id); }
    { let id: StateId<u8> = _c.u8_1(); assert!(id == StateId::new(1, _h) && id.contract() == _h, "SPairs::u8_1() is {:?}", id); }
    { let id: StateId<i8> = _c.i8_0(); assert!(id == StateId::new(2, _h) && id.contract() == _h, "SPairs::i8_0() is {:?}", id); }
    { let id: StateId<i8> = _c.i8_1(); assert!(id == StateId::new(3, _h) && id.contract() == _h, "SPairs::i8_1() is {:?}", id); }
    { let id: StateId<f32> = _c.f32_0(); assert!(id == StateId::new(4, _h) && id.contract() == _h, "SPairs::f32_0() is {:?}", id); }
    { let id: StateId<f32> = _c.f32_1(); assert!(id == StateId::new(5, _h) && id.contract() == _h, "SPairs::f32_1() is {:?}", id); }
    { let id: StateId<String> = _c.str_0(); assert!(id == StateId::new(6, _h) && id.contract() == _h, "SPairs::str_0() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.oh_0(); assert!(id == StateId::new(7, _h) && id.contract() == _h, "SPairs::oh_0() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.ch_0(); assert!(id == StateId::new(8, _h) && id.contract() == _h, "SPairs::ch_0() is {:?}", id); }
    assert_eq!(<SPairs as IStates>::type_ids(), &[std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<ContractDataHandle>()] as &[std::any::TypeId], "types of SPairs");
    assert_eq!(<SPairs as IStates>::enumerate_types(), &[TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::ContractDataHandle)] as &[TpPropertyType], "types of SPairs");
    assert_eq!(<SPairs as IStates>::field_names(), &["u8_0", "u8_1", "i8_0", "i8_1", "f32_0", "f32_1", "str_0", "oh_0", "ch_0"] as &[&str], "names of SPairs");
}

fn c_SNames(_h: ContractDataHandle) {
    let _c = SNames::new(_h);
    { let id: StateId<u8> = _c.id(); assert!(id == StateId::new(0, _h) && id.contract() == _h, "SNames::id() is {:?}", id); }
    { let id: StateId<bool> = _c.idx(); assert!(id == StateId::new(1, _h) && id.contract() == _h, "SNames::idx() is {:?}", id); }
    { let id: StateId<i64> = _c.contract(); assert!(id == StateId::new(2, _h) && id.contract() == _h, "SNames::contract() is {:?}", id); }
    { let id: StateId<u8> = _c.handle(); assert!(id == StateId::new(3, _h) && id.contract() == _h, "SNames::handle() is {:?}", id); }
    { let id: StateId<u16> = _c.ID(); assert!(id == StateId::new(4, _h) && id.contract() == _h, "SNames::ID() is {:?}", id); }
    { let id: StateId<i16> = _c._x(); assert!(id == StateId::new(5, _h) && id.contract() == _h, "SNames::_x() is {:?}", id); }
    { let id: StateId<i16> = _c.x(); assert!(id == StateId::new(6, _h) && id.contract() == _h, "SNames::x() is {:?}", id); }
    { let id: StateId<i16> = _c.x_(); assert!(id == StateId::new(7, _h) && id.contract() == _h, "SNames::x_() is {:?}", id); }
    { let id: StateId<f64> = _c.XX(); assert!(id == StateId::new(8, _h) && id.contract() == _h, "SNames::XX() is {:?}", id); }
    { let id: StateId<u32> = _c.types(); assert!(id == StateId::new(9, _h) && id.contract() == _h, "SNames::types() is {:?}", id); }
    { let id: StateId<String> = _c.names(); assert!(id == StateId::new(10, _h) && id.contract() == _h, "SNames::names() is {:?}", id); }
    { let id: StateId<bool> = _c.etats(); assert!(id == StateId::new(11, _h) && id.contract() == _h, "SNames::etats() is {:?}", id); }
    { let id: StateId<f32> = _c.value(); assert!(id == StateId::new(12, _h) && id.contract() == _h, "SNames::value() is {:?}", id); }
    { let id: StateId<u8> = _c.state(); assert!(id == StateId::new(13, _h) && id.contract() == _h, "SNames::state() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.channels(); assert!(id == StateId::new(14, _h) && id.contract() == _h, "SNames::channels() is {:?}", id); }
    assert_eq!(<SNames as IStates>::type_ids(), &[std::any::TypeId::of::<u8>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<ObjectHandle>()] as &[std::any::TypeId], "types of SNames");
    assert_eq!(<SNames as IStates>::enumerate_types(), &[TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::ObjectHandle)] as &[TpPropertyType], "types of SNames");
    assert_eq!(<SNames as IStates>::field_names(), &["id", "idx", "contract", "handle", "ID", "_x", "x", "x_", "XX", "types", "names", "etats", "value", "state", "channels"] as &[&str], "names of SNames");
}

fn c_SWide(_h: ContractDataHandle) {
    let _c = SWide::new(_h);
    { let id: StateId<u8> = _c.w000(); assert!(id == StateId::new(0, _h) && id.contract() == _h, "SWide::w000() is {:?}", id); }
    { let id: StateId<u64> = _c.w001(); assert!(id == StateId::new(1, _h) && id.contract() == _h, "SWide::w001() is {:?}", id); }
    { let id: StateId<i32> = _c.w002(); assert!(id == StateId::new(2, _h) && id.contract() == _h, "SWide::w002() is {:?}", id); }
    { let id: StateId<f32> = _c.w003(); assert!(id == StateId::new(3, _h) && id.contract() == _h, "SWide::w003() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w004(); assert!(id == StateId::new(4, _h) && id.contract() == _h, "SWide::w004() is {:?}", id); }
    { let id: StateId<u16> = _c.w005(); assert!(id == StateId::new(5, _h) && id.contract() == _h, "SWide::w005() is {:?}", id); }
    { let id: StateId<i8> = _c.w006(); assert!(id == StateId::new(6, _h) && id.contract() == _h, "SWide::w006() is {:?}", id); }
    { let id: StateId<i64> = _c.w007(); assert!(id == StateId::new(7, _h) && id.contract() == _h, "SWide::w007() is {:?}", id); }
    { let id: StateId<f64> = _c.w008(); assert!(id == StateId::new(8, _h) && id.contract() == _h, "SWide::w008() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w009(); assert!(id == StateId::new(9, _h) && id.contract() == _h, "SWide::w009() is {:?}", id); }
    { let id: StateId<u32> = _c.w010(); assert!(id == StateId::new(10, _h) && id.contract() == _h, "SWide::w010() is {:?}", id); }
    { let id: StateId<i16> = _c.w011(); assert!(id == StateId::new(11, _h) && id.contract() == _h, "SWide::w011() is {:?}", id); }
    { let id: StateId<bool> = _c.w012(); assert!(id == StateId::new(12, _h) && id.contract() == _h, "SWide::w012() is {:?}", id); }
    { let id: StateId<String> = _c.w013(); assert!(id == StateId::new(13, _h) && id.contract() == _h, "SWide::w013() is {:?}", id); }
    { let id: StateId<u16> = _c.w014(); assert!(id == StateId::new(14, _h) && id.contract() == _h, "SWide::w014() is {:?}", id); }
    { let id: StateId<i8> = _c.w015(); assert!(id == StateId::new(15, _h) && id.contract() == _h, "SWide::w015() is {:?}", id); }
    { let id: StateId<i64> = _c.w016(); assert!(id == StateId::new(16, _h) && id.contract() == _h, "SWide::w016() is {:?}", id); }
    { let id: StateId<f64> = _c.w017(); assert!(id == StateId::new(17, _h) && id.contract() == _h, "SWide::w017() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w018(); assert!(id == StateId::new(18, _h) && id.contract() == _h, "SWide::w018() is {:?}", id); }
    { let id: StateId<u32> = _c.w019(); assert!(id == StateId::new(19, _h) && id.contract() == _h, "SWide::w019() is {:?}", id); }
    { let id: StateId<i16> = _c.w020(); assert!(id == StateId::new(20, _h) && id.contract() == _h, "SWide::w020() is {:?}", id); }
    { let id: StateId<bool> = _c.w021(); assert!(id == StateId::new(21, _h) && id.contract() == _h, "SWide::w021() is {:?}", id); }
    { let id: StateId<String> = _c.w022(); assert!(id == StateId::new(22, _h) && id.contract() == _h, "SWide::w022() is {:?}", id); }
    { let id: StateId<u8> = _c.w023(); assert!(id == StateId::new(23, _h) && id.contract() == _h, "SWide::w023() is {:?}", id); }
    { let id: StateId<u64> = _c.w024(); assert!(id == StateId::new(24, _h) && id.contract() == _h, "SWide::w024() is {:?}", id); }
    { let id: StateId<i32> = _c.w025(); assert!(id == StateId::new(25, _h) && id.contract() == _h, "SWide::w025() is {:?}", id); }
    { let id: StateId<f32> = _c.w026(); assert!(id == StateId::new(26, _h) && id.contract() == _h, "SWide::w026() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w027(); assert!(id == StateId::new(27, _h) && id.contract() == _h, "SWide::w027() is {:?}", id); }
    { let id: StateId<u32> = _c.w028(); assert!(id == StateId::new(28, _h) && id.contract() == _h, "SWide::w028() is {:?}", id); }
    { let id: StateId<i16> = _c.w029(); assert!(id == StateId::new(29, _h) && id.contract() == _h, "SWide::w029() is {:?}", id); }
    { let id: StateId<bool> = _c.w030(); assert!(id == StateId::new(30, _h) && id.contract() == _h, "SWide::w030() is {:?}", id); }
    { let id: StateId<String> = _c.w031(); assert!(id == StateId::new(31, _h) && id.contract() == _h, "SWide::w031() is {:?}", id); }
    { let id: StateId<u8> = _c.w032(); assert!(id == StateId::new(32, _h) && id.contract() == _h, "SWide::w032() is {:?}", id); }
    { let id: StateId<u64> = _c.w033(); assert!(id == StateId::new(33, _h) && id.contract() == _h, "SWide::w033() is {:?}", id); }
    { let id: StateId<i32> = _c.w034(); assert!(id == StateId::new(34, _h) && id.contract() == _h, "SWide::w034() is {:?}", id); }
    { let id: StateId<f32> = _c.w035(); assert!(id == StateId::new(35, _h) && id.contract() == _h, "SWide::w035() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w036(); assert!(id == StateId::new(36, _h) && id.contract() == _h, "SWide::w036() is {:?}", id); }
    { let id: StateId<u16> = _c.w037(); assert!(id == StateId::new(37, _h) && id.contract() == _h, "SWide::w037() is {:?}", id); }
    { let id: StateId<i8> = _c.w038(); assert!(id == StateId::new(38, _h) && id.contract() == _h, "SWide::w038() is {:?}", id); }
    { let id: StateId<i64> = _c.w039(); assert!(id == StateId::new(39, _h) && id.contract() == _h, "SWide::w039() is {:?}", id); }
    { let id: StateId<f64> = _c.w040(); assert!(id == StateId::new(40, _h) && id.contract() == _h, "SWide::w040() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w041(); assert!(id == StateId::new(41, _h) && id.contract() == _h, "SWide::w041() is {:?}", id); }
    { let id: StateId<u64> = _c.w042(); assert!(id == StateId::new(42, _h) && id.contract() == _h, "SWide::w042() is {:?}", id); }
    { let id: StateId<i32> = _c.w043(); assert!(id == StateId::new(43, _h) && id.contract() == _h, "SWide::w043() is {:?}", id); }
    { let id: StateId<f32> = _c.w044(); assert!(id == StateId::new(44, _h) && id.contract() == _h, "SWide::w044() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w045(); assert!(id == StateId::new(45, _h) && id.contract() == _h, "SWide::w045() is {:?}", id); }
    { let id: StateId<u16> = _c.w046(); assert!(id == StateId::new(46, _h) && id.contract() == _h, "SWide::w046() is {:?}", id); }
    { let id: StateId<i8> = _c.w047(); assert!(id == StateId::new(47, _h) && id.contract() == _h, "SWide::w047() is {:?}", id); }
    { let id: StateId<i64> = _c.w048(); assert!(id == StateId::new(48, _h) && id.contract() == _h, "SWide::w048() is {:?}", id); }
    { let id: StateId<f64> = _c.w049(); assert!(id == StateId::new(49, _h) && id.contract() == _h, "SWide::w049() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w050(); assert!(id == StateId::new(50, _h) && id.contract() == _h, "SWide::w050() is {:?}", id); }
    { let id: StateId<u32> = _c.w051(); assert!(id == StateId::new(51, _h) && id.contract() == _h, "SWide::w051() is {:?}", id); }
    { let id: StateId<i16> = _c.w052(); assert!(id == StateId::new(52, _h) && id.contract() == _h, "SWide::w052() is {:?}", id); }
    { let id: StateId<bool> = _c.w053(); assert!(id == StateId::new(53, _h) && id.contract() == _h, "SWide::w053() is {:?}", id); }
    { let id: StateId<String> = _c.w054(); assert!(id == StateId::new(54, _h) && id.contract() == _h, "SWide::w054() is {:?}", id); }
    { let id: StateId<u8> = _c.w055(); assert!(id == StateId::new(55, _h) && id.contract() == _h, "SWide::w055() is {:?}", id); }
    { let id: StateId<i8> = _c.w056(); assert!(id == StateId::new(56, _h) && id.contract() == _h, "SWide::w056() is {:?}", id); }
    { let id: StateId<i64> = _c.w057(); assert!(id == StateId::new(57, _h) && id.contract() == _h, "SWide::w057() is {:?}", id); }
    { let id: StateId<f64> = _c.w058(); assert!(id == StateId::new(58, _h) && id.contract() == _h, "SWide::w058() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w059(); assert!(id == StateId::new(59, _h) && id.contract() == _h, "SWide::w059() is {:?}", id); }
    { let id: StateId<u32> = _c.w060(); assert!(id == StateId::new(60, _h) && id.contract() == _h, "SWide::w060() is {:?}", id); }
    { let id: StateId<i16> = _c.w061(); assert!(id == StateId::new(61, _h) && id.contract() == _h, "SWide::w061() is {:?}", id); }
    { let id: StateId<bool> = _c.w062(); assert!(id == StateId::new(62, _h) && id.contract() == _h, "SWide::w062() is {:?}", id); }
    { let id: StateId<String> = _c.w063(); assert!(id == StateId::new(63, _h) && id.contract() == _h, "SWide::w063() is {:?}", id); }
    { let id: StateId<u8> = _c.w064(); assert!(id == StateId::new(64, _h) && id.contract() == _h, "SWide::w064() is {:?}", id); }
    { let id: StateId<u64> = _c.w065(); assert!(id == StateId::new(65, _h) && id.contract() == _h, "SWide::w065() is {:?}", id); }
    { let id: StateId<i32> = _c.w066(); assert!(id == StateId::new(66, _h) && id.contract() == _h, "SWide::w066() is {:?}", id); }
    { let id: StateId<f32> = _c.w067(); assert!(id == StateId::new(67, _h) && id.contract() == _h, "SWide::w067() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w068(); assert!(id == StateId::new(68, _h) && id.contract() == _h, "SWide::w068() is {:?}", id); }
    { let id: StateId<u16> = _c.w069(); assert!(id == StateId::new(69, _h) && id.contract() == _h, "SWide::w069() is {:?}", id); }
    { let id: StateId<i16> = _c.w070(); assert!(id == StateId::new(70, _h) && id.contract() == _h, "SWide::w070() is {:?}", id); }
    { let id: StateId<bool> = _c.w071(); assert!(id == StateId::new(71, _h) && id.contract() == _h, "SWide::w071() is {:?}", id); }
    { let id: StateId<String> = _c.w072(); assert!(id == StateId::new(72, _h) && id.contract() == _h, "SWide::w072() is {:?}", id); }
    { let id: StateId<u8> = _c.w073(); assert!(id == StateId::new(73, _h) && id.contract() == _h, "SWide::w073() is {:?}", id); }
    { let id: StateId<u64> = _c.w074(); assert!(id == StateId::new(74, _h) && id.contract() == _h, "SWide::w074() is {:?}", id); }
    { let id: StateId<i32> = _c.w075(); assert!(id == StateId::new(75, _h) && id.contract() == _h, "SWide::w075() is {:?}", id); }
    { let id: StateId<f32> = _c.w076(); assert!(id == StateId::new(76, _h) && id.contract() == _h, "SWide::w076() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w077(); assert!(id == StateId::new(77, _h) && id.contract() == _h, "SWide::w077() is {:?}", id); }
    { let id: StateId<u16> = _c.w078(); assert!(id == StateId::new(78, _h) && id.contract() == _h, "SWide::w078() is {:?}", id); }
    { let id: StateId<i8> = _c.w079(); assert!(id == StateId::new(79, _h) && id.contract() == _h, "SWide::w079() is {:?}", id); }
    { let id: StateId<i64> = _c.w080(); assert!(id == StateId::new(80, _h) && id.contract() == _h, "SWide::w080() is {:?}", id); }
    { let id: StateId<f64> = _c.w081(); assert!(id == StateId::new(81, _h) && id.contract() == _h, "SWide::w081() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w082(); assert!(id == StateId::new(82, _h) && id.contract() == _h, "SWide::w082() is {:?}", id); }
    { let id: StateId<u32> = _c.w083(); assert!(id == StateId::new(83, _h) && id.contract() == _h, "SWide::w083() is {:?}", id); }
    { let id: StateId<i32> = _c.w084(); assert!(id == StateId::new(84, _h) && id.contract() == _h, "SWide::w084() is {:?}", id); }
    { let id: StateId<f32> = _c.w085(); assert!(id == StateId::new(85, _h) && id.contract() == _h, "SWide::w085() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w086(); assert!(id == StateId::new(86, _h) && id.contract() == _h, "SWide::w086() is {:?}", id); }
    { let id: StateId<u16> = _c.w087(); assert!(id == StateId::new(87, _h) && id.contract() == _h, "SWide::w087() is {:?}", id); }
    { let id: StateId<i8> = _c.w088(); assert!(id == StateId::new(88, _h) && id.contract() == _h, "SWide::w088() is {:?}", id); }
    { let id: StateId<i64> = _c.w089(); assert!(id == StateId::new(89, _h) && id.contract() == _h, "SWide::w089() is {:?}", id); }
    { let id: StateId<f64> = _c.w090(); assert!(id == StateId::new(90, _h) && id.contract() == _h, "SWide::w090() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w091(); assert!(id == StateId::new(91, _h) && id.contract() == _h, "SWide::w091() is {:?}", id); }
    { let id: StateId<u32> = _c.w092(); assert!(id == StateId::new(92, _h) && id.contract() == _h, "SWide::w092() is {:?}", id); }
    { let id: StateId<i16> = _c.w093(); assert!(id == StateId::new(93, _h) && id.contract() == _h, "SWide::w093() is {:?}", id); }
    { let id: StateId<bool> = _c.w094(); assert!(id == StateId::new(94, _h) && id.contract() == _h, "SWide::w094() is {:?}", id); }
    { let id: StateId<String> = _c.w095(); assert!(id == StateId::new(95, _h) && id.contract() == _h, "SWide::w095() is {:?}", id); }
    { let id: StateId<u8> = _c.w096(); assert!(id == StateId::new(96, _h) && id.contract() == _h, "SWide::w096() is {:?}", id); }
    { let id: StateId<u64> = _c.w097(); assert!(id == StateId::new(97, _h) && id.contract() == _h, "SWide::w097() is {:?}", id); }
    { let id: StateId<i64> = _c.w098(); assert!(id == StateId::new(98, _h) && id.contract() == _h, "SWide::w098() is {:?}", id); }
    { let id: StateId<f64> = _c.w099(); assert!(id == StateId::new(99, _h) && id.contract() == _h, "SWide::w099() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w100(); assert!(id == StateId::new(100, _h) && id.contract() == _h, "SWide::w100() is {:?}", id); }
    { let id: StateId<u32> = _c.w101(); assert!(id == StateId::new(101, _h) && id.contract() == _h, "SWide::w101() is {:?}", id); }
    { let id: StateId<i16> = _c.w102(); assert!(id == StateId::new(102, _h) && id.contract() == _h, "SWide::w102() is {:?}", id); }
    { let id: StateId<bool> = _c.w103(); assert!(id == StateId::new(103, _h) && id.contract() == _h, "SWide::w103() is {:?}", id); }
    { let id: StateId<String> = _c.w104(); assert!(id == StateId::new(104, _h) && id.contract() == _h, "SWide::w104() is {:?}", id); }
    { let id: StateId<u8> = _c.w105(); assert!(id == StateId::new(105, _h) && id.contract() == _h, "SWide::w105() is {:?}", id); }
    { let id: StateId<u64> = _c.w106(); assert!(id == StateId::new(106, _h) && id.contract() == _h, "SWide::w106() is {:?}", id); }
    { let id: StateId<i32> = _c.w107(); assert!(id == StateId::new(107, _h) && id.contract() == _h, "SWide::w107() is {:?}", id); }
    { let id: StateId<f32> = _c.w108(); assert!(id == StateId::new(108, _h) && id.contract() == _h, "SWide::w108() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w109(); assert!(id == StateId::new(109, _h) && id.contract() == _h, "SWide::w109() is {:?}", id); }
    { let id: StateId<u16> = _c.w110(); assert!(id == StateId::new(110, _h) && id.contract() == _h, "SWide::w110() is {:?}", id); }
    { let id: StateId<i8> = _c.w111(); assert!(id == StateId::new(111, _h) && id.contract() == _h, "SWide::w111() is {:?}", id); }
    { let id: StateId<bool> = _c.w112(); assert!(id == StateId::new(112, _h) && id.contract() == _h, "SWide::w112() is {:?}", id); }
    { let id: StateId<String> = _c.w113(); assert!(id == StateId::new(113, _h) && id.contract() == _h, "SWide::w113() is {:?}", id); }
    { let id: StateId<u8> = _c.w114(); assert!(id == StateId::new(114, _h) && id.contract() == _h, "SWide::w114() is {:?}", id); }
    { let id: StateId<u64> = _c.w115(); assert!(id == StateId::new(115, _h) && id.contract() == _h, "SWide::w115() is {:?}", id); }
    { let id: StateId<i32> = _c.w116(); assert!(id == StateId::new(116, _h) && id.contract() == _h, "SWide::w116() is {:?}", id); }
    { let id: StateId<f32> = _c.w117(); assert!(id == StateId::new(117, _h) && id.contract() == _h, "SWide::w117() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w118(); assert!(id == StateId::new(118, _h) && id.contract() == _h, "SWide::w118() is {:?}", id); }
    { let id: StateId<u16> = _c.w119(); assert!(id == StateId::new(119, _h) && id.contract() == _h, "SWide::w119() is {:?}", id); }
    { let id: StateId<i8> = _c.w120(); assert!(id == StateId::new(120, _h) && id.contract() == _h, "SWide::w120() is {:?}", id); }
    { let id: StateId<i64> = _c.w121(); assert!(id == StateId::new(121, _h) && id.contract() == _h, "SWide::w121() is {:?}", id); }
    { let id: StateId<f64> = _c.w122(); assert!(id == StateId::new(122, _h) && id.contract() == _h, "SWide::w122() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w123(); assert!(id == StateId::new(123, _h) && id.contract() == _h, "SWide::w123() is {:?}", id); }
    { let id: StateId<u32> = _c.w124(); assert!(id == StateId::new(124, _h) && id.contract() == _h, "SWide::w124() is {:?}", id); }
    { let id: StateId<i16> = _c.w125(); assert!(id == StateId::new(125, _h) && id.contract() == _h, "SWide::w125() is {:?}", id); }
    { let id: StateId<f32> = _c.w126(); assert!(id == StateId::new(126, _h) && id.contract() == _h, "SWide::w126() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w127(); assert!(id == StateId::new(127, _h) && id.contract() == _h, "SWide::w127() is {:?}", id); }
    { let id: StateId<u16> = _c.w128(); assert!(id == StateId::new(128, _h) && id.contract() == _h, "SWide::w128() is {:?}", id); }
    { let id: StateId<i8> = _c.w129(); assert!(id == StateId::new(129, _h) && id.contract() == _h, "SWide::w129() is {:?}", id); }
    { let id: StateId<i64> = _c.w130(); assert!(id == StateId::new(130, _h) && id.contract() == _h, "SWide::w130() is {:?}", id); }
    { let id: StateId<f64> = _c.w131(); assert!(id == StateId::new(131, _h) && id.contract() == _h, "SWide::w131() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w132(); assert!(id == StateId::new(132, _h) && id.contract() == _h, "SWide::w132() is {:?}", id); }
    { let id: StateId<u32> = _c.w133(); assert!(id == StateId::new(133, _h) && id.contract() == _h, "SWide::w133() is {:?}", id); }
    { let id: StateId<i16> = _c.w134(); assert!(id == StateId::new(134, _h) && id.contract() == _h, "SWide::w134() is {:?}", id); }
    { let id: StateId<bool> = _c.w135(); assert!(id == StateId::new(135, _h) && id.contract() == _h, "SWide::w135() is {:?}", id); }
    { let id: StateId<String> = _c.w136(); assert!(id == StateId::new(136, _h) && id.contract() == _h, "SWide::w136() is {:?}", id); }
    { let id: StateId<u8> = _c.w137(); assert!(id == StateId::new(137, _h) && id.contract() == _h, "SWide::w137() is {:?}", id); }
    { let id: StateId<u64> = _c.w138(); assert!(id == StateId::new(138, _h) && id.contract() == _h, "SWide::w138() is {:?}", id); }
    { let id: StateId<i32> = _c.w139(); assert!(id == StateId::new(139, _h) && id.contract() == _h, "SWide::w139() is {:?}", id); }
    { let id: StateId<f64> = _c.w140(); assert!(id == StateId::new(140, _h) && id.contract() == _h, "SWide::w140() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w141(); assert!(id == StateId::new(141, _h) && id.contract() == _h, "SWide::w141() is {:?}", id); }
    { let id: StateId<u32> = _c.w142(); assert!(id == StateId::new(142, _h) && id.contract() == _h, "SWide::w142() is {:?}", id); }
    { let id: StateId<i16> = _c.w143(); assert!(id == StateId::new(143, _h) && id.contract() == _h, "SWide::w143() is {:?}", id); }
    { let id: StateId<bool> = _c.w144(); assert!(id == StateId::new(144, _h) && id.contract() == _h, "SWide::w144() is {:?}", id); }
    { let id: StateId<String> = _c.w145(); assert!(id == StateId::new(145, _h) && id.contract() == _h, "SWide::w145() is {:?}", id); }
    { let id: StateId<u8> = _c.w146(); assert!(id == StateId::new(146, _h) && id.contract() == _h, "SWide::w146() is {:?}", id); }
    { let id: StateId<u64> = _c.w147(); assert!(id == StateId::new(147, _h) && id.contract() == _h, "SWide::w147() is {:?}", id); }
    { let id: StateId<i32> = _c.w148(); assert!(id == StateId::new(148, _h) && id.contract() == _h, "SWide::w148() is {:?}", id); }
    { let id: StateId<f32> = _c.w149(); assert!(id == StateId::new(149, _h) && id.contract() == _h, "SWide::w149() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w150(); assert!(id == StateId::new(150, _h) && id.contract() == _h, "SWide::w150() is {:?}", id); }
    { let id: StateId<u16> = _c.w151(); assert!(id == StateId::new(151, _h) && id.contract() == _h, "SWide::w151() is {:?}", id); }
    { let id: StateId<i8> = _c.w152(); assert!(id == StateId::new(152, _h) && id.contract() == _h, "SWide::w152() is {:?}", id); }
    { let id: StateId<i64> = _c.w153(); assert!(id == StateId::new(153, _h) && id.contract() == _h, "SWide::w153() is {:?}", id); }
    { let id: StateId<String> = _c.w154(); assert!(id == StateId::new(154, _h) && id.contract() == _h, "SWide::w154() is {:?}", id); }
    { let id: StateId<u8> = _c.w155(); assert!(id == StateId::new(155, _h) && id.contract() == _h, "SWide::w155() is {:?}", id); }
    { let id: StateId<u64> = _c.w156(); assert!(id == StateId::new(156, _h) && id.contract() == _h, "SWide::w156() is {:?}", id); }
    { let id: StateId<i32> = _c.w157(); assert!(id == StateId::new(157, _h) && id.contract() == _h, "SWide::w157() is {:?}", id); }
    { let id: StateId<f32> = _c.w158(); assert!(id == StateId::new(158, _h) && id.contract() == _h, "SWide::w158() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w159(); assert!(id == StateId::new(159, _h) && id.contract() == _h, "SWide::w159() is {:?}", id); }
    { let id: StateId<u16> = _c.w160(); assert!(id == StateId::new(160, _h) && id.contract() == _h, "SWide::w160() is {:?}", id); }
    { let id: StateId<i8> = _c.w161(); assert!(id == StateId::new(161, _h) && id.contract() == _h, "SWide::w161() is {:?}", id); }
    { let id: StateId<i64> = _c.w162(); assert!(id == StateId::new(162, _h) && id.contract() == _h, "SWide::w162() is {:?}", id); }
    { let id: StateId<f64> = _c.w163(); assert!(id == StateId::new(163, _h) && id.contract() == _h, "SWide::w163() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w164(); assert!(id == StateId::new(164, _h) && id.contract() == _h, "SWide::w164() is {:?}", id); }
    { let id: StateId<u32> = _c.w165(); assert!(id == StateId::new(165, _h) && id.contract() == _h, "SWide::w165() is {:?}", id); }
    { let id: StateId<i16> = _c.w166(); assert!(id == StateId::new(166, _h) && id.contract() == _h, "SWide::w166() is {:?}", id); }
    { let id: StateId<bool> = _c.w167(); assert!(id == StateId::new(167, _h) && id.contract() == _h, "SWide::w167() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w168(); assert!(id == StateId::new(168, _h) && id.contract() == _h, "SWide::w168() is {:?}", id); }
    { let id: StateId<u16> = _c.w169(); assert!(id == StateId::new(169, _h) && id.contract() == _h, "SWide::w169() is {:?}", id); }
    { let id: StateId<i8> = _c.w170(); assert!(id == StateId::new(170, _h) && id.contract() == _h, "SWide::w170() is {:?}", id); }
    { let id: StateId<i64> = _c.w171(); assert!(id == StateId::new(171, _h) && id.contract() == _h, "SWide::w171() is {:?}", id); }
    { let id: StateId<f64> = _c.w172(); assert!(id == StateId::new(172, _h) && id.contract() == _h, "SWide::w172() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w173(); assert!(id == StateId::new(173, _h) && id.contract() == _h, "SWide::w173() is {:?}", id); }
    { let id: StateId<u32> = _c.w174(); assert!(id == StateId::new(174, _h) && id.contract() == _h, "SWide::w174() is {:?}", id); }
    { let id: StateId<i16> = _c.w175(); assert!(id == StateId::new(175, _h) && id.contract() == _h, "SWide::w175() is {:?}", id); }
    { let id: StateId<bool> = _c.w176(); assert!(id == StateId::new(176, _h) && id.contract() == _h, "SWide::w176() is {:?}", id); }
    { let id: StateId<String> = _c.w177(); assert!(id == StateId::new(177, _h) && id.contract() == _h, "SWide::w177() is {:?}", id); }
    { let id: StateId<u8> = _c.w178(); assert!(id == StateId::new(178, _h) && id.contract() == _h, "SWide::w178() is {:?}", id); }
    { let id: StateId<u64> = _c.w179(); assert!(id == StateId::new(179, _h) && id.contract() == _h, "SWide::w179() is {:?}", id); }
    { let id: StateId<i32> = _c.w180(); assert!(id == StateId::new(180, _h) && id.contract() == _h, "SWide::w180() is {:?}", id); }
    { let id: StateId<f32> = _c.w181(); assert!(id == StateId::new(181, _h) && id.contract() == _h, "SWide::w181() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w182(); assert!(id == StateId::new(182, _h) && id.contract() == _h, "SWide::w182() is {:?}", id); }
    { let id: StateId<u32> = _c.w183(); assert!(id == StateId::new(183, _h) && id.contract() == _h, "SWide::w183() is {:?}", id); }
    { let id: StateId<i16> = _c.w184(); assert!(id == StateId::new(184, _h) && id.contract() == _h, "SWide::w184() is {:?}", id); }
    { let id: StateId<bool> = _c.w185(); assert!(id == StateId::new(185, _h) && id.contract() == _h, "SWide::w185() is {:?}", id); }
    { let id: StateId<String> = _c.w186(); assert!(id == StateId::new(186, _h) && id.contract() == _h, "SWide::w186() is {:?}", id); }
    { let id: StateId<u8> = _c.w187(); assert!(id == StateId::new(187, _h) && id.contract() == _h, "SWide::w187() is {:?}", id); }
    { let id: StateId<u64> = _c.w188(); assert!(id == StateId::new(188, _h) && id.contract() == _h, "SWide::w188() is {:?}", id); }
    { let id: StateId<i32> = _c.w189(); assert!(id == StateId::new(189, _h) && id.contract() == _h, "SWide::w189() is {:?}", id); }
    { let id: StateId<f32> = _c.w190(); assert!(id == StateId::new(190, _h) && id.contract() == _h, "SWide::w190() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w191(); assert!(id == StateId::new(191, _h) && id.contract() == _h, "SWide::w191() is {:?}", id); }
    { let id: StateId<u16> = _c.w192(); assert!(id == StateId::new(192, _h) && id.contract() == _h, "SWide::w192() is {:?}", id); }
    { let id: StateId<i8> = _c.w193(); assert!(id == StateId::new(193, _h) && id.contract() == _h, "SWide::w193() is {:?}", id); }
    { let id: StateId<i64> = _c.w194(); assert!(id == StateId::new(194, _h) && id.contract() == _h, "SWide::w194() is {:?}", id); }
    { let id: StateId<f64> = _c.w195(); assert!(id == StateId::new(195, _h) && id.contract() == _h, "SWide::w195() is {:?}", id); }
    { let id: StateId<u8> = _c.w196(); assert!(id == StateId::new(196, _h) && id.contract() == _h, "SWide::w196() is {:?}", id); }
    { let id: StateId<u64> = _c.w197(); assert!(id == StateId::new(197, _h) && id.contract() == _h, "SWide::w197() is {:?}", id); }
    { let id: StateId<i32> = _c.w198(); assert!(id == StateId::new(198, _h) && id.contract() == _h, "SWide::w198() is {:?}", id); }
    { let id: StateId<f32> = _c.w199(); assert!(id == StateId::new(199, _h) && id.contract() == _h, "SWide::w199() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w200(); assert!(id == StateId::new(200, _h) && id.contract() == _h, "SWide::w200() is {:?}", id); }
    { let id: StateId<u16> = _c.w201(); assert!(id == StateId::new(201, _h) && id.contract() == _h, "SWide::w201() is {:?}", id); }
    { let id: StateId<i8> = _c.w202(); assert!(id == StateId::new(202, _h) && id.contract() == _h, "SWide::w202() is {:?}", id); }
    { let id: StateId<i64> = _c.w203(); assert!(id == StateId::new(203, _h) && id.contract() == _h, "SWide::w203() is {:?}", id); }
    { let id: StateId<f64> = _c.w204(); assert!(id == StateId::new(204, _h) && id.contract() == _h, "SWide::w204() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w205(); assert!(id == StateId::new(205, _h) && id.contract() == _h, "SWide::w205() is {:?}", id); }
    { let id: StateId<u32> = _c.w206(); assert!(id == StateId::new(206, _h) && id.contract() == _h, "SWide::w206() is {:?}", id); }
    { let id: StateId<i16> = _c.w207(); assert!(id == StateId::new(207, _h) && id.contract() == _h, "SWide::w207() is {:?}", id); }
    { let id: StateId<bool> = _c.w208(); assert!(id == StateId::new(208, _h) && id.contract() == _h, "SWide::w208() is {:?}", id); }
    { let id: StateId<String> = _c.w209(); assert!(id == StateId::new(209, _h) && id.contract() == _h, "SWide::w209() is {:?}", id); }
    { let id: StateId<u16> = _c.w210(); assert!(id == StateId::new(210, _h) && id.contract() == _h, "SWide::w210() is {:?}", id); }
    { let id: StateId<i8> = _c.w211(); assert!(id == StateId::new(211, _h) && id.contract() == _h, "SWide::w211() is {:?}", id); }
    { let id: StateId<i64> = _c.w212(); assert!(id == StateId::new(212, _h) && id.contract() == _h, "SWide::w212() is {:?}", id); }
    { let id: StateId<f64> = _c.w213(); assert!(id == StateId::new(213, _h) && id.contract() == _h, "SWide::w213() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w214(); assert!(id == StateId::new(214, _h) && id.contract() == _h, "SWide::w214() is {:?}", id); }
    { let id: StateId<u32> = _c.w215(); assert!(id == StateId::new(215, _h) && id.contract() == _h, "SWide::w215() is {:?}", id); }
    { let id: StateId<i16> = _c.w216(); assert!(id == StateId::new(216, _h) && id.contract() == _h, "SWide::w216() is {:?}", id); }
    { let id: StateId<bool> = _c.w217(); assert!(id == StateId::new(217, _h) && id.contract() == _h, "SWide::w217() is {:?}", id); }
    { let id: StateId<String> = _c.w218(); assert!(id == StateId::new(218, _h) && id.contract() == _h, "SWide::w218() is {:?}", id); }
    { let id: StateId<u8> = _c.w219(); assert!(id == StateId::new(219, _h) && id.contract() == _h, "SWide::w219() is {:?}", id); }
    { let id: StateId<u64> = _c.w220(); assert!(id == StateId::new(220, _h) && id.contract() == _h, "SWide::w220() is {:?}", id); }
    { let id: StateId<i32> = _c.w221(); assert!(id == StateId::new(221, _h) && id.contract() == _h, "SWide::w221() is {:?}", id); }
    { let id: StateId<f32> = _c.w222(); assert!(id == StateId::new(222, _h) && id.contract() == _h, "SWide::w222() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w223(); assert!(id == StateId::new(223, _h) && id.contract() == _h, "SWide::w223() is {:?}", id); }
    { let id: StateId<u32> = _c.w224(); assert!(id == StateId::new(224, _h) && id.contract() == _h, "SWide::w224() is {:?}", id); }
    { let id: StateId<i16> = _c.w225(); assert!(id == StateId::new(225, _h) && id.contract() == _h, "SWide::w225() is {:?}", id); }
    { let id: StateId<bool> = _c.w226(); assert!(id == StateId::new(226, _h) && id.contract() == _h, "SWide::w226() is {:?}", id); }
    { let id: StateId<String> = _c.w227(); assert!(id == StateId::new(227, _h) && id.contract() == _h, "SWide::w227() is {:?}", id); }
    { let id: StateId<u8> = _c.w228(); assert!(id == StateId::new(228, _h) && id.contract() == _h, "SWide::w228() is {:?}", id); }
    { let id: StateId<u64> = _c.w229(); assert!(id == StateId::new(229, _h) && id.contract() == _h, "SWide::w229() is {:?}", id); }
    { let id: StateId<i32> = _c.w230(); assert!(id == StateId::new(230, _h) && id.contract() == _h, "SWide::w230() is {:?}", id); }
    { let id: StateId<f32> = _c.w231(); assert!(id == StateId::new(231, _h) && id.contract() == _h, "SWide::w231() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w232(); assert!(id == StateId::new(232, _h) && id.contract() == _h, "SWide::w232() is {:?}", id); }
    { let id: StateId<u16> = _c.w233(); assert!(id == StateId::new(233, _h) && id.contract() == _h, "SWide::w233() is {:?}", id); }
    { let id: StateId<i8> = _c.w234(); assert!(id == StateId::new(234, _h) && id.contract() == _h, "SWide::w234() is {:?}", id); }
    { let id: StateId<i64> = _c.w235(); assert!(id == StateId::new(235, _h) && id.contract() == _h, "SWide::w235() is {:?}", id); }
    { let id: StateId<f64> = _c.w236(); assert!(id == StateId::new(236, _h) && id.contract() == _h, "SWide::w236() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w237(); assert!(id == StateId::new(237, _h) && id.contract() == _h, "SWide::w237() is {:?}", id); }
    { let id: StateId<u64> = _c.w238(); assert!(id == StateId::new(238, _h) && id.contract() == _h, "SWide::w238() is {:?}", id); }
    { let id: StateId<i32> = _c.w239(); assert!(id == StateId::new(239, _h) && id.contract() == _h, "SWide::w239() is {:?}", id); }
    { let id: StateId<f32> = _c.w240(); assert!(id == StateId::new(240, _h) && id.contract() == _h, "SWide::w240() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w241(); assert!(id == StateId::new(241, _h) && id.contract() == _h, "SWide::w241() is {:?}", id); }
    { let id: StateId<u16> = _c.w242(); assert!(id == StateId::new(242, _h) && id.contract() == _h, "SWide::w242() is {:?}", id); }
    { let id: StateId<i8> = _c.w243(); assert!(id == StateId::new(243, _h) && id.contract() == _h, "SWide::w243() is {:?}", id); }
    { let id: StateId<i64> = _c.w244(); assert!(id == StateId::new(244, _h) && id.contract() == _h, "SWide::w244() is {:?}", id); }
    { let id: StateId<f64> = _c.w245(); assert!(id == StateId::new(245, _h) && id.contract() == _h, "SWide::w245() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w246(); assert!(id == StateId::new(246, _h) && id.contract() == _h, "SWide::w246() is {:?}", id); }
    { let id: StateId<u32> = _c.w247(); assert!(id == StateId::new(247, _h) && id.contract() == _h, "SWide::w247() is {:?}", id); }
    { let id: StateId<i16> = _c.w248(); assert!(id == StateId::new(248, _h) && id.contract() == _h, "SWide::w248() is {:?}", id); }
    { let id: StateId<bool> = _c.w249(); assert!(id == StateId::new(249, _h) && id.contract() == _h, "SWide::w249() is {:?}", id); }
    { let id: StateId<String> = _c.w250(); assert!(id == StateId::new(250, _h) && id.contract() == _h, "SWide::w250() is {:?}", id); }
    { let id: StateId<u8> = _c.w251(); assert!(id == StateId::new(251, _h) && id.contract() == _h, "SWide::w251() is {:?}", id); }
    { let id: StateId<i8> = _c.w252(); assert!(id == StateId::new(252, _h) && id.contract() == _h, "SWide::w252() is {:?}", id); }
    { let id: StateId<i64> = _c.w253(); assert!(id == StateId::new(253, _h) && id.contract() == _h, "SWide::w253() is {:?}", id); }
    { let id: StateId<f64> = _c.w254(); assert!(id == StateId::new(254, _h) && id.contract() == _h, "SWide::w254() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w255(); assert!(id == StateId::new(255, _h) && id.contract() == _h, "SWide::w255() is {:?}", id); }
    { let id: StateId<u32> = _c.w256(); assert!(id == StateId::new(256, _h) && id.contract() == _h, "SWide::w256() is {:?}", id); }
    { let id: StateId<i16> = _c.w257(); assert!(id == StateId::new(257, _h) && id.contract() == _h, "SWide::w257() is {:?}", id); }
    { let id: StateId<bool> = _c.w258(); assert!(id == StateId::new(258, _h) && id.contract() == _h, "SWide::w258() is {:?}", id); }
    { let id: StateId<String> = _c.w259(); assert!(id == StateId::new(259, _h) && id.contract() == _h, "SWide::w259() is {:?}", id); }
    { let id: StateId<u8> = _c.w260(); assert!(id == StateId::new(260, _h) && id.contract() == _h, "SWide::w260() is {:?}", id); }
    { let id: StateId<u64> = _c.w261(); assert!(id == StateId::new(261, _h) && id.contract() == _h, "SWide::w261() is {:?}", id); }
    { let id: StateId<i32> = _c.w262(); assert!(id == StateId::new(262, _h) && id.contract() == _h, "SWide::w262() is {:?}", id); }
    { let id: StateId<f32> = _c.w263(); assert!(id == StateId::new(263, _h) && id.contract() == _h, "SWide::w263() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w264(); assert!(id == StateId::new(264, _h) && id.contract() == _h, "SWide::w264() is {:?}", id); }
    { let id: StateId<u16> = _c.w265(); assert!(id == StateId::new(265, _h) && id.contract() == _h, "SWide::w265() is {:?}", id); }
    { let id: StateId<i16> = _c.w266(); assert!(id == StateId::new(266, _h) && id.contract() == _h, "SWide::w266() is {:?}", id); }
    { let id: StateId<bool> = _c.w267(); assert!(id == StateId::new(267, _h) && id.contract() == _h, "SWide::w267() is {:?}", id); }
    { let id: StateId<String> = _c.w268(); assert!(id == StateId::new(268, _h) && id.contract() == _h, "SWide::w268() is {:?}", id); }
    { let id: StateId<u8> = _c.w269(); assert!(id == StateId::new(269, _h) && id.contract() == _h, "SWide::w269() is {:?}", id); }
    { let id: StateId<u64> = _c.w270(); assert!(id == StateId::new(270, _h) && id.contract() == _h, "SWide::w270() is {:?}", id); }
    { let id: StateId<i32> = _c.w271(); assert!(id == StateId::new(271, _h) && id.contract() == _h, "SWide::w271() is {:?}", id); }
    { let id: StateId<f32> = _c.w272(); assert!(id == StateId::new(272, _h) && id.contract() == _h, "SWide::w272() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w273(); assert!(id == StateId::new(273, _h) && id.contract() == _h, "SWide::w273() is {:?}", id); }
    { let id: StateId<u16> = _c.w274(); assert!(id == StateId::new(274, _h) && id.contract() == _h, "SWide::w274() is {:?}", id); }
    { let id: StateId<i8> = _c.w275(); assert!(id == StateId::new(275, _h) && id.contract() == _h, "SWide::w275() is {:?}", id); }
    { let id: StateId<i64> = _c.w276(); assert!(id == StateId::new(276, _h) && id.contract() == _h, "SWide::w276() is {:?}", id); }
    { let id: StateId<f64> = _c.w277(); assert!(id == StateId::new(277, _h) && id.contract() == _h, "SWide::w277() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w278(); assert!(id == StateId::new(278, _h) && id.contract() == _h, "SWide::w278() is {:?}", id); }
    { let id: StateId<u32> = _c.w279(); assert!(id == StateId::new(279, _h) && id.contract() == _h, "SWide::w279() is {:?}", id); }
    { let id: StateId<i32> = _c.w280(); assert!(id == StateId::new(280, _h) && id.contract() == _h, "SWide::w280() is {:?}", id); }
    { let id: StateId<f32> = _c.w281(); assert!(id == StateId::new(281, _h) && id.contract() == _h, "SWide::w281() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.w282(); assert!(id == StateId::new(282, _h) && id.contract() == _h, "SWide::w282() is {:?}", id); }
    { let id: StateId<u16> = _c.w283(); assert!(id == StateId::new(283, _h) && id.contract() == _h, "SWide::w283() is {:?}", id); }
    { let id: StateId<i8> = _c.w284(); assert!(id == StateId::new(284, _h) && id.contract() == _h, "SWide::w284() is {:?}", id); }
    { let id: StateId<i64> = _c.w285(); assert!(id == StateId::new(285, _h) && id.contract() == _h, "SWide::w285() is {:?}", id); }
    { let id: StateId<f64> = _c.w286(); assert!(id == StateId::new(286, _h) && id.contract() == _h, "SWide::w286() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w287(); assert!(id == StateId::new(287, _h) && id.contract() == _h, "SWide::w287() is {:?}", id); }
    { let id: StateId<u32> = _c.w288(); assert!(id == StateId::new(288, _h) && id.contract() == _h, "SWide::w288() is {:?}", id); }
    { let id: StateId<i16> = _c.w289(); assert!(id == StateId::new(289, _h) && id.contract() == _h, "SWide::w289() is {:?}", id); }
    { let id: StateId<bool> = _c.w290(); assert!(id == StateId::new(290, _h) && id.contract() == _h, "SWide::w290() is {:?}", id); }
    { let id: StateId<String> = _c.w291(); assert!(id == StateId::new(291, _h) && id.contract() == _h, "SWide::w291() is {:?}", id); }
    { let id: StateId<u8> = _c.w292(); assert!(id == StateId::new(292, _h) && id.contract() == _h, "SWide::w292() is {:?}", id); }
    { let id: StateId<u64> = _c.w293(); assert!(id == StateId::new(293, _h) && id.contract() == _h, "SWide::w293() is {:?}", id); }
    { let id: StateId<i64> = _c.w294(); assert!(id == StateId::new(294, _h) && id.contract() == _h, "SWide::w294() is {:?}", id); }
    { let id: StateId<f64> = _c.w295(); assert!(id == StateId::new(295, _h) && id.contract() == _h, "SWide::w295() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.w296(); assert!(id == StateId::new(296, _h) && id.contract() == _h, "SWide::w296() is {:?}", id); }
    { let id: StateId<u32> = _c.w297(); assert!(id == StateId::new(297, _h) && id.contract() == _h, "SWide::w297() is {:?}", id); }
    { let id: StateId<i16> = _c.w298(); assert!(id == StateId::new(298, _h) && id.contract() == _h, "SWide::w298() is {:?}", id); }
    { let id: StateId<bool> = _c.w299(); assert!(id == StateId::new(299, _h) && id.contract() == _h, "SWide::w299() is {:?}", id); }
    assert_eq!(<SWide as IStates>::type_ids(), &[std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>()] as &[std::any::TypeId], "types of SWide");
    assert_eq!(<SWide as IStates>::enumerate_types(), &[TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool)] as &[TpPropertyType], "types of SWide");
    assert_eq!(<SWide as IStates>::field_names(), &["w000", "w001", "w002", "w003", "w004", "w005", "w006", "w007", "w008", "w009", "w010", "w011", "w012", "w013", "w014", "w015", "w016", "w017", "w018", "w019", "w020", "w021", "w022", "w023", "w024", "w025", "w026", "w027", "w028", "w029", "w030", "w031", "w032", "w033", "w034", "w035", "w036", "w037", "w038", "w039", "w040", "w041", "w042", "w043", "w044", "w045", "w046", "w047", "w048", "w049", "w050", "w051", "w052", "w053", "w054", "w055", "w056", "w057", "w058", "w059", "w060", "w061", "w062", "w063", "w064", "w065", "w066", "w067", "w068", "w069", "w070", "w071", "w072", "w073", "w074", "w075", "w076", "w077", "w078", "w079", "w080", "w081", "w082", "w083", "w084", "w085", "w086", "w087", "w088", "w089", "w090", "w091", "w092", "w093", "w094", "w095", "w096", "w097", "w098", "w099", "w100", "w101", "w102", "w103", "w104", "w105", "w106", "w107", "w108", "w109", "w110", "w111", "w112", "w113", "w114", "w115", "w116", "w117", "w118", "w119", "w120", "w121", "w122", "w123", "w124", "w125", "w126", "w127", "w128", "w129", "w130", "w131", "w132", "w133", "w134", "w135", "w136", "w137", "w138", "w139", "w140", "w141", "w142", "w143", "w144", "w145", "w146", "w147", "w148", "w149", "w150", "w151", "w152", "w153", "w154", "w155", "w156", "w157", "w158", "w159", "w160", "w161", "w162", "w163", "w164", "w165", "w166", "w167", "w168", "w169", "w170", "w171", "w172", "w173", "w174", "w175", "w176", "w177", "w178", "w179", "w180", "w181", "w182", "w183", "w184", "w185", "w186", "w187", "w188", "w189", "w190", "w191", "w192", "w193", "w194", "w195", "w196", "w197", "w198", "w199", "w200", "w201", "w202", "w203", "w204", "w205", "w206", "w207", "w208", "w209", "w210", "w211", "w212", "w213", "w214", "w215", "w216", "w217", "w218", "w219", "w220", "w221", "w222", "w223", "w224", "w225", "w226", "w227", "w228", "w229", "w230", "w231", "w232", "w233", "w234", "w235", "w236", "w237", "w238", "w239", "w240", "w241", "w242", "w243", "w244", "w245", "w246", "w247", "w248", "w249", "w250", "w251", "w252", "w253", "w254", "w255", "w256", "w257", "w258", "w259", "w260", "w261", "w262", "w263", "w264", "w265", "w266", "w267", "w268", "w269", "w270", "w271", "w272", "w273", "w274", "w275", "w276", "w277", "w278", "w279", "w280", "w281", "w282", "w283", "w284", "w285", "w286", "w287", "w288", "w289", "w290", "w291", "w292", "w293", "w294", "w295", "w296", "w297", "w298", "w299"] as &[&str], "names of SWide");
}

fn c_SMany(_h: ContractDataHandle) {
    let _c = SMany::new(_h);
    { let id: StateId<u8> = _c.m00(); assert!(id == StateId::new(0, _h) && id.contract() == _h, "SMany::m00() is {:?}", id); }
    { let id: StateId<i16> = _c.m01(); assert!(id == StateId::new(1, _h) && id.contract() == _h, "SMany::m01() is {:?}", id); }
    { let id: StateId<f64> = _c.m02(); assert!(id == StateId::new(2, _h) && id.contract() == _h, "SMany::m02() is {:?}", id); }
    { let id: StateId<u16> = _c.m03(); assert!(id == StateId::new(3, _h) && id.contract() == _h, "SMany::m03() is {:?}", id); }
    { let id: StateId<i32> = _c.m04(); assert!(id == StateId::new(4, _h) && id.contract() == _h, "SMany::m04() is {:?}", id); }
    { let id: StateId<String> = _c.m05(); assert!(id == StateId::new(5, _h) && id.contract() == _h, "SMany::m05() is {:?}", id); }
    { let id: StateId<u32> = _c.m06(); assert!(id == StateId::new(6, _h) && id.contract() == _h, "SMany::m06() is {:?}", id); }
    { let id: StateId<i64> = _c.m07(); assert!(id == StateId::new(7, _h) && id.contract() == _h, "SMany::m07() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.m08(); assert!(id == StateId::new(8, _h) && id.contract() == _h, "SMany::m08() is {:?}", id); }
    { let id: StateId<u64> = _c.m09(); assert!(id == StateId::new(9, _h) && id.contract() == _h, "SMany::m09() is {:?}", id); }
    { let id: StateId<bool> = _c.m10(); assert!(id == StateId::new(10, _h) && id.contract() == _h, "SMany::m10() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.m11(); assert!(id == StateId::new(11, _h) && id.contract() == _h, "SMany::m11() is {:?}", id); }
    { let id: StateId<i8> = _c.m12(); assert!(id == StateId::new(12, _h) && id.contract() == _h, "SMany::m12() is {:?}", id); }
    { let id: StateId<f32> = _c.m13(); assert!(id == StateId::new(13, _h) && id.contract() == _h, "SMany::m13() is {:?}", id); }
    { let id: StateId<u16> = _c.m14(); assert!(id == StateId::new(14, _h) && id.contract() == _h, "SMany::m14() is {:?}", id); }
    { let id: StateId<i32> = _c.m15(); assert!(id == StateId::new(15, _h) && id.contract() == _h, "SMany::m15() is {:?}", id); }
    { let id: StateId<String> = _c.m16(); assert!(id == StateId::new(16, _h) && id.contract() == _h, "SMany::m16() is {:?}", id); }
    { let id: StateId<u32> = _c.m17(); assert!(id == StateId::new(17, _h) && id.contract() == _h, "SMany::m17() is {:?}", id); }
    { let id: StateId<i64> = _c.m18(); assert!(id == StateId::new(18, _h) && id.contract() == _h, "SMany::m18() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.m19(); assert!(id == StateId::new(19, _h) && id.contract() == _h, "SMany::m19() is {:?}", id); }
    { let id: StateId<u64> = _c.m20(); assert!(id == StateId::new(20, _h) && id.contract() == _h, "SMany::m20() is {:?}", id); }
    { let id: StateId<bool> = _c.m21(); assert!(id == StateId::new(21, _h) && id.contract() == _h, "SMany::m21() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.m22(); assert!(id == StateId::new(22, _h) && id.contract() == _h, "SMany::m22() is {:?}", id); }
    { let id: StateId<i8> = _c.m23(); assert!(id == StateId::new(23, _h) && id.contract() == _h, "SMany::m23() is {:?}", id); }
    { let id: StateId<f32> = _c.m24(); assert!(id == StateId::new(24, _h) && id.contract() == _h, "SMany::m24() is {:?}", id); }
    { let id: StateId<u8> = _c.m25(); assert!(id == StateId::new(25, _h) && id.contract() == _h, "SMany::m25() is {:?}", id); }
    { let id: StateId<i16> = _c.m26(); assert!(id == StateId::new(26, _h) && id.contract() == _h, "SMany::m26() is {:?}", id); }
    { let id: StateId<f64> = _c.m27(); assert!(id == StateId::new(27, _h) && id.contract() == _h, "SMany::m27() is {:?}", id); }
    { let id: StateId<u32> = _c.m28(); assert!(id == StateId::new(28, _h) && id.contract() == _h, "SMany::m28() is {:?}", id); }
    { let id: StateId<i64> = _c.m29(); assert!(id == StateId::new(29, _h) && id.contract() == _h, "SMany::m29() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.m30(); assert!(id == StateId::new(30, _h) && id.contract() == _h, "SMany::m30() is {:?}", id); }
    { let id: StateId<u64> = _c.m31(); assert!(id == StateId::new(31, _h) && id.contract() == _h, "SMany::m31() is {:?}", id); }
    { let id: StateId<bool> = _c.m32(); assert!(id == StateId::new(32, _h) && id.contract() == _h, "SMany::m32() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.m33(); assert!(id == StateId::new(33, _h) && id.contract() == _h, "SMany::m33() is {:?}", id); }
    { let id: StateId<i8> = _c.m34(); assert!(id == StateId::new(34, _h) && id.contract() == _h, "SMany::m34() is {:?}", id); }
    { let id: StateId<f32> = _c.m35(); assert!(id == StateId::new(35, _h) && id.contract() == _h, "SMany::m35() is {:?}", id); }
    { let id: StateId<u8> = _c.m36(); assert!(id == StateId::new(36, _h) && id.contract() == _h, "SMany::m36() is {:?}", id); }
    { let id: StateId<i16> = _c.m37(); assert!(id == StateId::new(37, _h) && id.contract() == _h, "SMany::m37() is {:?}", id); }
    { let id: StateId<f64> = _c.m38(); assert!(id == StateId::new(38, _h) && id.contract() == _h, "SMany::m38() is {:?}", id); }
    { let id: StateId<u16> = _c.m39(); assert!(id == StateId::new(39, _h) && id.contract() == _h, "SMany::m39() is {:?}", id); }
    { let id: StateId<i32> = _c.m40(); assert!(id == StateId::new(40, _h) && id.contract() == _h, "SMany::m40() is {:?}", id); }
    { let id: StateId<String> = _c.m41(); assert!(id == StateId::new(41, _h) && id.contract() == _h, "SMany::m41() is {:?}", id); }
    { let id: StateId<u64> = _c.m42(); assert!(id == StateId::new(42, _h) && id.contract() == _h, "SMany::m42() is {:?}", id); }
    { let id: StateId<bool> = _c.m43(); assert!(id == StateId::new(43, _h) && id.contract() == _h, "SMany::m43() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.m44(); assert!(id == StateId::new(44, _h) && id.contract() == _h, "SMany::m44() is {:?}", id); }
    { let id: StateId<i8> = _c.m45(); assert!(id == StateId::new(45, _h) && id.contract() == _h, "SMany::m45() is {:?}", id); }
    { let id: StateId<f32> = _c.m46(); assert!(id == StateId::new(46, _h) && id.contract() == _h, "SMany::m46() is {:?}", id); }
    { let id: StateId<u8> = _c.m47(); assert!(id == StateId::new(47, _h) && id.contract() == _h, "SMany::m47() is {:?}", id); }
    { let id: StateId<i16> = _c.m48(); assert!(id == StateId::new(48, _h) && id.contract() == _h, "SMany::m48() is {:?}", id); }
    { let id: StateId<f64> = _c.m49(); assert!(id == StateId::new(49, _h) && id.contract() == _h, "SMany::m49() is {:?}", id); }
    { let id: StateId<u16> = _c.m50(); assert!(id == StateId::new(50, _h) && id.contract() == _h, "SMany::m50() is {:?}", id); }
    { let id: StateId<i32> = _c.m51(); assert!(id == StateId::new(51, _h) && id.contract() == _h, "SMany::m51() is {:?}", id); }
    { let id: StateId<String> = _c.m52(); assert!(id == StateId::new(52, _h) && id.contract() == _h, "SMany::m52() is {:?}", id); }
    { let id: StateId<u32> = _c.m53(); assert!(id == StateId::new(53, _h) && id.contract() == _h, "SMany::m53() is {:?}", id); }
    { let id: StateId<i64> = _c.m54(); assert!(id == StateId::new(54, _h) && id.contract() == _h, "SMany::m54() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.m55(); assert!(id == StateId::new(55, _h) && id.contract() == _h, "SMany::m55() is {:?}", id); }
    { let id: StateId<i8> = _c.m56(); assert!(id == StateId::new(56, _h) && id.contract() == _h, "SMany::m56() is {:?}", id); }
    { let id: StateId<f32> = _c.m57(); assert!(id == StateId::new(57, _h) && id.contract() == _h, "SMany::m57() is {:?}", id); }
    { let id: StateId<u8> = _c.m58(); assert!(id == StateId::new(58, _h) && id.contract() == _h, "SMany::m58() is {:?}", id); }
    { let id: StateId<i16> = _c.m59(); assert!(id == StateId::new(59, _h) && id.contract() == _h, "SMany::m59() is {:?}", id); }
    { let id: StateId<f64> = _c.m60(); assert!(id == StateId::new(60, _h) && id.contract() == _h, "SMany::m60() is {:?}", id); }
    { let id: StateId<u16> = _c.m61(); assert!(id == StateId::new(61, _h) && id.contract() == _h, "SMany::m61() is {:?}", id); }
    { let id: StateId<i32> = _c.m62(); assert!(id == StateId::new(62, _h) && id.contract() == _h, "SMany::m62() is {:?}", id); }
    { let id: StateId<String> = _c.m63(); assert!(id == StateId::new(63, _h) && id.contract() == _h, "SMany::m63() is {:?}", id); }
    { let id: StateId<u32> = _c.m64(); assert!(id == StateId::new(64, _h) && id.contract() == _h, "SMany::m64() is {:?}", id); }
    { let id: StateId<i64> = _c.m65(); assert!(id == StateId::new(65, _h) && id.contract() == _h, "SMany::m65() is {:?}", id); }
    { let id: StateId<ObjectHandle> = _c.m66(); assert!(id == StateId::new(66, _h) && id.contract() == _h, "SMany::m66() is {:?}", id); }
    { let id: StateId<u64> = _c.m67(); assert!(id == StateId::new(67, _h) && id.contract() == _h, "SMany::m67() is {:?}", id); }
    { let id: StateId<bool> = _c.m68(); assert!(id == StateId::new(68, _h) && id.contract() == _h, "SMany::m68() is {:?}", id); }
    { let id: StateId<ContractDataHandle> = _c.m69(); assert!(id == StateId::new(69, _h) && id.contract() == _h, "SMany::m69() is {:?}", id); }
    assert_eq!(<SMany as IStates>::type_ids(), &[std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<ContractDataHandle>()] as &[std::any::TypeId], "types of SMany");
    assert_eq!(<SMany as IStates>::enumerate_types(), &[TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::ContractDataHandle)] as &[TpPropertyType], "types of SMany");
    assert_eq!(<SMany as IStates>::field_names(), &["m00", "m01", "m02", "m03", "m04", "m05", "m06", "m07", "m08", "m09", "m10", "m11", "m12", "m13", "m14", "m15", "m16", "m17", "m18", "m19", "m20", "m21", "m22", "m23", "m24", "m25", "m26", "m27", "m28", "m29", "m30", "m31", "m32", "m33", "m34", "m35", "m36", "m37", "m38", "m39", "m40", "m41", "m42", "m43", "m44", "m45", "m46", "m47", "m48", "m49", "m50", "m51", "m52", "m53", "m54", "m55", "m56", "m57", "m58", "m59", "m60", "m61", "m62", "m63", "m64", "m65", "m66", "m67", "m68", "m69"] as &[&str], "names of SMany");
}

fn c_CEmpty(_h: ContractDataHandle) {
    let _c = CEmpty::new(_h);
    assert_eq!(<CEmpty as IChannels>::type_ids(), &[] as &[std::any::TypeId], "types of CEmpty");
    assert_eq!(<CEmpty as IChannels>::enumerate_types(), &[] as &[TpPropertyType], "types of CEmpty");
    assert_eq!(<CEmpty as IChannels>::field_names(), &[] as &[&str], "names of CEmpty");
}

fn c_COne(_h: ContractDataHandle) {
    let _c = COne::new(_h);
    { let id: ChannelId<u64> = _c.only(); assert!(id == ChannelId::new(0, _h) && id.contract() == _h, "COne::only() is {:?}", id); }
    assert_eq!(<COne as IChannels>::type_ids(), &[std::any::TypeId::of::<u64>()] as &[std::any::TypeId], "types of COne");
    assert_eq!(<COne as IChannels>::enumerate_types(), &[TpPropertyType::Primitive(P::U64)] as &[TpPropertyType], "types of COne");
    assert_eq!(<COne as IChannels>::field_names(), &["only"] as &[&str], "names of COne");
}

fn c_CTwo(_h: ContractDataHandle) {
    let _c = CTwo::new(_h);
    { let id: ChannelId<f64> = _c.b(); assert!(id == ChannelId::new(0, _h) && id.contract() == _h, "CTwo::b() is {:?}", id); }
    { let id: ChannelId<u32> = _c.a(); assert!(id == ChannelId::new(1, _h) && id.contract() == _h, "CTwo::a() is {:?}", id); }
    assert_eq!(<CTwo as IChannels>::type_ids(), &[std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u32>()] as &[std::any::TypeId], "types of CTwo");
    assert_eq!(<CTwo as IChannels>::enumerate_types(), &[TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U32)] as &[TpPropertyType], "types of CTwo");
    assert_eq!(<CTwo as IChannels>::field_names(), &["b", "a"] as &[&str], "names of CTwo");
}

fn c_CEach(_h: ContractDataHandle) {
    let _c = CEach::new(_h);
    { let id: ChannelId<u8> = _c.u8_field(); assert!(id == ChannelId::new(0, _h) && id.contract() == _h, "CEach::u8_field() is {:?}", id); }
    { let id: ChannelId<u16> = _c.u16_field(); assert!(id == ChannelId::new(1, _h) && id.contract() == _h, "CEach::u16_field() is {:?}", id); }
    { let id: ChannelId<u32> = _c.u32_field(); assert!(id == ChannelId::new(2, _h) && id.contract() == _h, "CEach::u32_field() is {:?}", id); }
    { let id: ChannelId<u64> = _c.u64_field(); assert!(id == ChannelId::new(3, _h) && id.contract() == _h, "CEach::u64_field() is {:?}", id); }
    { let id: ChannelId<i8> = _c.i8_field(); assert!(id == ChannelId::new(4, _h) && id.contract() == _h, "CEach::i8_field() is {:?}", id); }
    { let id: ChannelId<i16> = _c.i16_field(); assert!(id == ChannelId::new(5, _h) && id.contract() == _h, "CEach::i16_field() is {:?}", id); }
    { let id: ChannelId<i32> = _c.i32_field(); assert!(id == ChannelId::new(6, _h) && id.contract() == _h, "CEach::i32_field() is {:?}", id); }
    { let id: ChannelId<i64> = _c.i64_field(); assert!(id == ChannelId::new(7, _h) && id.contract() == _h, "CEach::i64_field() is {:?}", id); }
    { let id: ChannelId<bool> = _c.bool_field(); assert!(id == ChannelId::new(8, _h) && id.contract() == _h, "CEach::bool_field() is {:?}", id); }
    { let id: ChannelId<f32> = _c.f32_field(); assert!(id == ChannelId::new(9, _h) && id.contract() == _h, "CEach::f32_field() is {:?}", id); }
    { let id: ChannelId<f64> = _c.f64_field(); assert!(id == ChannelId::new(10, _h) && id.contract() == _h, "CEach::f64_field() is {:?}", id); }
    { let id: ChannelId<String> = _c.string_field(); assert!(id == ChannelId::new(11, _h) && id.contract() == _h, "CEach::string_field() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.objecthandle_field(); assert!(id == ChannelId::new(12, _h) && id.contract() == _h, "CEach::objecthandle_field() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.contractdatahandle_field(); assert!(id == ChannelId::new(13, _h) && id.contract() == _h, "CEach::contractdatahandle_field() is {:?}", id); }
    assert_eq!(<CEach as IChannels>::type_ids(), &[std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<ContractDataHandle>()] as &[std::any::TypeId], "types of CEach");
    assert_eq!(<CEach as IChannels>::enumerate_types(), &[TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::ContractDataHandle)] as &[TpPropertyType], "types of CEach");
    assert_eq!(<CEach as IChannels>::field_names(), &["u8_field", "u16_field", "u32_field", "u64_field", "i8_field", "i16_field", "i32_field", "i64_field", "bool_field", "f32_field", "f64_field", "string_field", "objecthandle_field", "contractdatahandle_field"] as &[&str], "names of CEach");
}

fn c_CBack(_h: ContractDataHandle) {
    let _c = CBack::new(_h);
    { let id: ChannelId<ContractDataHandle> = _c.z0(); assert!(id == ChannelId::new(0, _h) && id.contract() == _h, "CBack::z0() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.z1(); assert!(id == ChannelId::new(1, _h) && id.contract() == _h, "CBack::z1() is {:?}", id); }
    { let id: ChannelId<String> = _c.z2(); assert!(id == ChannelId::new(2, _h) && id.contract() == _h, "CBack::z2() is {:?}", id); }
    { let id: ChannelId<f64> = _c.z3(); assert!(id == ChannelId::new(3, _h) && id.contract() == _h, "CBack::z3() is {:?}", id); }
    { let id: ChannelId<f32> = _c.z4(); assert!(id == ChannelId::new(4, _h) && id.contract() == _h, "CBack::z4() is {:?}", id); }
    { let id: ChannelId<bool> = _c.z5(); assert!(id == ChannelId::new(5, _h) && id.contract() == _h, "CBack::z5() is {:?}", id); }
    { let id: ChannelId<i64> = _c.z6(); assert!(id == ChannelId::new(6, _h) && id.contract() == _h, "CBack::z6() is {:?}", id); }
    { let id: ChannelId<i32> = _c.z7(); assert!(id == ChannelId::new(7, _h) && id.contract() == _h, "CBack::z7() is {:?}", id); }
    { let id: ChannelId<i16> = _c.z8(); assert!(id == ChannelId::new(8, _h) && id.contract() == _h, "CBack::z8() is {:?}", id); }
    { let id: ChannelId<i8> = _c.z9(); assert!(id == ChannelId::new(9, _h) && id.contract() == _h, "CBack::z9() is {:?}", id); }
    { let id: ChannelId<u64> = _c.z10(); assert!(id == ChannelId::new(10, _h) && id.contract() == _h, "CBack::z10() is {:?}", id); }
    { let id: ChannelId<u32> = _c.z11(); assert!(id == ChannelId::new(11, _h) && id.contract() == _h, "CBack::z11() is {:?}", id); }
    { let id: ChannelId<u16> = _c.z12(); assert!(id == ChannelId::new(12, _h) && id.contract() == _h, "CBack::z12() is {:?}", id); }
    { let id: ChannelId<u8> = _c.z13(); assert!(id == ChannelId::new(13, _h) && id.contract() == _h, "CBack::z13() is {:?}", id); }
    assert_eq!(<CBack as IChannels>::type_ids(), &[std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<u8>()] as &[std::any::TypeId], "types of CBack");
    assert_eq!(<CBack as IChannels>::enumerate_types(), &[TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::U8)] as &[TpPropertyType], "types of CBack");
    assert_eq!(<CBack as IChannels>::field_names(), &["z0", "z1", "z2", "z3", "z4", "z5", "z6", "z7", "z8", "z9", "z10", "z11", "z12", "z13"] as &[&str], "names of CBack");
}

fn c_CSame(_h: ContractDataHandle) {
    let _c = CSame::new(_h);
    { let id: ChannelId<String> = _c.same0(); assert!(id == ChannelId::new(0, _h) && id.contract() == _h, "CSame::same0() is {:?}", id); }
    { let id: ChannelId<String> = _c.same1(); assert!(id == ChannelId::new(1, _h) && id.contract() == _h, "CSame::same1() is {:?}", id); }
    { let id: ChannelId<String> = _c.same2(); assert!(id == ChannelId::new(2, _h) && id.contract() == _h, "CSame::same2() is {:?}", id); }
    { let id: ChannelId<String> = _c.same3(); assert!(id == ChannelId::new(3, _h) && id.contract() == _h, "CSame::same3() is {:?}", id); }
    { let id: ChannelId<String> = _c.same4(); assert!(id == ChannelId::new(4, _h) && id.contract() == _h, "CSame::same4() is {:?}", id); }
    assert_eq!(<CSame as IChannels>::type_ids(), &[std::any::TypeId::of::<String>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<String>()] as &[std::any::TypeId], "types of CSame");
    assert_eq!(<CSame as IChannels>::enumerate_types(), &[TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::String)] as &[TpPropertyType], "types of CSame");
    assert_eq!(<CSame as IChannels>::field_names(), &["same0", "same1", "same2", "same3", "same4"] as &[&str], "names of CSame");
}

fn c_CPairs(_h: ContractDataHandle) {
    let _c = CPairs::new(_h);
    { let id: ChannelId<u8> = _c.u8_0(); assert!(id == ChannelId::new(0, _h) && id.contract() == _h, "CPairs::u8_0() is {:?}", id); }
    { let id: ChannelId<u8> = _c.u8_1(); assert!(id == ChannelId::new(1, _h) && id.contract() == _h, "CPairs::u8_1() is {:?}", id); }
    { let id: ChannelId<i8> = _c.i8_0(); assert!(id == ChannelId::new(2, _h) && id.contract() == _h, "CPairs::i8_0() is {:?}", id); }
    { let id: ChannelId<i8> = _c.i8_1(); assert!(id == ChannelId::new(3, _h) && id.contract() == _h, "CPairs::i8_1() is {:?}", id); }
    { let id: ChannelId<f32> = _c.f32_0(); assert!(id == ChannelId::new(4, _h) && id.contract() == _h, "CPairs::f32_0() is {:?}", id); }
    { let id: ChannelId<f32> = _c.f32_1(); assert!(id == ChannelId::new(5, _h) && id.contract() == _h, "CPairs::f32_1() is {:?}", id); }
    { let id: ChannelId<String> = _c.str_0(); assert!(id == ChannelId::new(6, _h) && id.contract() == _h, "CPairs::str_0() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.oh_0(); assert!(id == ChannelId::new(7, _h) && id.contract() == _h, "CPairs::oh_0() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.ch_0(); assert!(id == ChannelId::new(8, _h) && id.contract() == _h, "CPairs::ch_0() is {:?}", id); }
    assert_eq!(<CPairs as IChannels>::type_ids(), &[std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<ContractDataHandle>()] as &[std::any::TypeId], "types of CPairs");
    assert_eq!(<CPairs as IChannels>::enumerate_types(), &[TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::ContractDataHandle)] as &[TpPropertyType], "types of CPairs");
    assert_eq!(<CPairs as IChannels>::field_names(), &["u8_0", "u8_1", "i8_0", "i8_1", "f32_0", "f32_1", "str_0", "oh_0", "ch_0"] as &[&str], "names of CPairs");
}

fn c_CNames(_h: ContractDataHandle) {
    let _c = CNames::new(_h);
    { let id: ChannelId<u8> = _c.id(); assert!(id == ChannelId::new(0, _h) && id.contract() == _h, "CNames::id() is {:?}", id); }
    { let id: ChannelId<bool> = _c.idx(); assert!(id == ChannelId::new(1, _h) && id.contract() == _h, "CNames::idx() is {:?}", id); }
    { let id: ChannelId<i64> = _c.contract(); assert!(id == ChannelId::new(2, _h) && id.contract() == _h, "CNames::contract() is {:?}", id); }
    { let id: ChannelId<u8> = _c.handle(); assert!(id == ChannelId::new(3, _h) && id.contract() == _h, "CNames::handle() is {:?}", id); }
    { let id: ChannelId<u16> = _c.ID(); assert!(id == ChannelId::new(4, _h) && id.contract() == _h, "CNames::ID() is {:?}", id); }
    { let id: ChannelId<i16> = _c._x(); assert!(id == ChannelId::new(5, _h) && id.contract() == _h, "CNames::_x() is {:?}", id); }
    { let id: ChannelId<i16> = _c.x(); assert!(id == ChannelId::new(6, _h) && id.contract() == _h, "CNames::x() is {:?}", id); }
    { let id: ChannelId<i16> = _c.x_(); assert!(id == ChannelId::new(7, _h) && id.contract() == _h, "CNames::x_() is {:?}", id); }
    { let id: ChannelId<f64> = _c.XX(); assert!(id == ChannelId::new(8, _h) && id.contract() == _h, "CNames::XX() is {:?}", id); }
    { let id: ChannelId<u32> = _c.types(); assert!(id == ChannelId::new(9, _h) && id.contract() == _h, "CNames::types() is {:?}", id); }
    { let id: ChannelId<String> = _c.names(); assert!(id == ChannelId::new(10, _h) && id.contract() == _h, "CNames::names() is {:?}", id); }
    { let id: ChannelId<bool> = _c.etats(); assert!(id == ChannelId::new(11, _h) && id.contract() == _h, "CNames::etats() is {:?}", id); }
    { let id: ChannelId<f32> = _c.value(); assert!(id == ChannelId::new(12, _h) && id.contract() == _h, "CNames::value() is {:?}", id); }
    { let id: ChannelId<u8> = _c.state(); assert!(id == ChannelId::new(13, _h) && id.contract() == _h, "CNames::state() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.channels(); assert!(id == ChannelId::new(14, _h) && id.contract() == _h, "CNames::channels() is {:?}", id); }
    assert_eq!(<CNames as IChannels>::type_ids(), &[std::any::TypeId::of::<u8>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<ObjectHandle>()] as &[std::any::TypeId], "types of CNames");
    assert_eq!(<CNames as IChannels>::enumerate_types(), &[TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::ObjectHandle)] as &[TpPropertyType], "types of CNames");
    assert_eq!(<CNames as IChannels>::field_names(), &["id", "idx", "contract", "handle", "ID", "_x", "x", "x_", "XX", "types", "names", "etats", "value", "state", "channels"] as &[&str], "names of CNames");
}

fn c_CWide(_h: ContractDataHandle) {
    let _c = CWide::new(_h);
    { let id: ChannelId<u8> = _c.w000(); assert!(id == ChannelId::new(0, _h) && id.contract() == _h, "CWide::w000() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w001(); assert!(id == ChannelId::new(1, _h) && id.contract() == _h, "CWide::w001() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w002(); assert!(id == ChannelId::new(2, _h) && id.contract() == _h, "CWide::w002() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w003(); assert!(id == ChannelId::new(3, _h) && id.contract() == _h, "CWide::w003() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w004(); assert!(id == ChannelId::new(4, _h) && id.contract() == _h, "CWide::w004() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w005(); assert!(id == ChannelId::new(5, _h) && id.contract() == _h, "CWide::w005() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w006(); assert!(id == ChannelId::new(6, _h) && id.contract() == _h, "CWide::w006() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w007(); assert!(id == ChannelId::new(7, _h) && id.contract() == _h, "CWide::w007() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w008(); assert!(id == ChannelId::new(8, _h) && id.contract() == _h, "CWide::w008() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w009(); assert!(id == ChannelId::new(9, _h) && id.contract() == _h, "CWide::w009() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w010(); assert!(id == ChannelId::new(10, _h) && id.contract() == _h, "CWide::w010() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w011(); assert!(id == ChannelId::new(11, _h) && id.contract() == _h, "CWide::w011() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w012(); assert!(id == ChannelId::new(12, _h) && id.contract() == _h, "CWide::w012() is {:?}", id); }
    { let id: ChannelId<String> = _c.w013(); assert!(id == ChannelId::new(13, _h) && id.contract() == _h, "CWide::w013() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w014(); assert!(id == ChannelId::new(14, _h) && id.contract() == _h, "CWide::w014() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w015(); assert!(id == ChannelId::new(15, _h) && id.contract() == _h, "CWide::w015() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w016(); assert!(id == ChannelId::new(16, _h) && id.contract() == _h, "CWide::w016() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w017(); assert!(id == ChannelId::new(17, _h) && id.contract() == _h, "CWide::w017() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w018(); assert!(id == ChannelId::new(18, _h) && id.contract() == _h, "CWide::w018() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w019(); assert!(id == ChannelId::new(19, _h) && id.contract() == _h, "CWide::w019() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w020(); assert!(id == ChannelId::new(20, _h) && id.contract() == _h, "CWide::w020() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w021(); assert!(id == ChannelId::new(21, _h) && id.contract() == _h, "CWide::w021() is {:?}", id); }
    { let id: ChannelId<String> = _c.w022(); assert!(id == ChannelId::new(22, _h) && id.contract() == _h, "CWide::w022() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w023(); assert!(id == ChannelId::new(23, _h) && id.contract() == _h, "CWide::w023() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w024(); assert!(id == ChannelId::new(24, _h) && id.contract() == _h, "CWide::w024() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w025(); assert!(id == ChannelId::new(25, _h) && id.contract() == _h, "CWide::w025() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w026(); assert!(id == ChannelId::new(26, _h) && id.contract() == _h, "CWide::w026() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w027(); assert!(id == ChannelId::new(27, _h) && id.contract() == _h, "CWide::w027() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w028(); assert!(id == ChannelId::new(28, _h) && id.contract() == _h, "CWide::w028() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w029(); assert!(id == ChannelId::new(29, _h) && id.contract() == _h, "CWide::w029() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w030(); assert!(id == ChannelId::new(30, _h) && id.contract() == _h, "CWide::w030() is {:?}", id); }
    { let id: ChannelId<String> = _c.w031(); assert!(id == ChannelId::new(31, _h) && id.contract() == _h, "CWide::w031() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w032(); assert!(id == ChannelId::new(32, _h) && id.contract() == _h, "CWide::w032() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w033(); assert!(id == ChannelId::new(33, _h) && id.contract() == _h, "CWide::w033() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w034(); assert!(id == ChannelId::new(34, _h) && id.contract() == _h, "CWide::w034() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w035(); assert!(id == ChannelId::new(35, _h) && id.contract() == _h, "CWide::w035() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w036(); assert!(id == ChannelId::new(36, _h) && id.contract() == _h, "CWide::w036() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w037(); assert!(id == ChannelId::new(37, _h) && id.contract() == _h, "CWide::w037() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w038(); assert!(id == ChannelId::new(38, _h) && id.contract() == _h, "CWide::w038() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w039(); assert!(id == ChannelId::new(39, _h) && id.contract() == _h, "CWide::w039() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w040(); assert!(id == ChannelId::new(40, _h) && id.contract() == _h, "CWide::w040() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w041(); assert!(id == ChannelId::new(41, _h) && id.contract() == _h, "CWide::w041() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w042(); assert!(id == ChannelId::new(42, _h) && id.contract() == _h, "CWide::w042() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w043(); assert!(id == ChannelId::new(43, _h) && id.contract() == _h, "CWide::w043() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w044(); assert!(id == ChannelId::new(44, _h) && id.contract() == _h, "CWide::w044() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w045(); assert!(id == ChannelId::new(45, _h) && id.contract() == _h, "CWide::w045() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w046(); assert!(id == ChannelId::new(46, _h) && id.contract() == _h, "CWide::w046() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w047(); assert!(id == ChannelId::new(47, _h) && id.contract() == _h, "CWide::w047() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w048(); assert!(id == ChannelId::new(48, _h) && id.contract() == _h, "CWide::w048() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w049(); assert!(id == ChannelId::new(49, _h) && id.contract() == _h, "CWide::w049() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w050(); assert!(id == ChannelId::new(50, _h) && id.contract() == _h, "CWide::w050() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w051(); assert!(id == ChannelId::new(51, _h) && id.contract() == _h, "CWide::w051() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w052(); assert!(id == ChannelId::new(52, _h) && id.contract() == _h, "CWide::w052() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w053(); assert!(id == ChannelId::new(53, _h) && id.contract() == _h, "CWide::w053() is {:?}", id); }
    { let id: ChannelId<String> = _c.w054(); assert!(id == ChannelId::new(54, _h) && id.contract() == _h, "CWide::w054() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w055(); assert!(id == ChannelId::new(55, _h) && id.contract() == _h, "CWide::w055() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w056(); assert!(id == ChannelId::new(56, _h) && id.contract() == _h, "CWide::w056() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w057(); assert!(id == ChannelId::new(57, _h) && id.contract() == _h, "CWide::w057() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w058(); assert!(id == ChannelId::new(58, _h) && id.contract() == _h, "CWide::w058() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w059(); assert!(id == ChannelId::new(59, _h) && id.contract() == _h, "CWide::w059() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w060(); assert!(id == ChannelId::new(60, _h) && id.contract() == _h, "CWide::w060() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w061(); assert!(id == ChannelId::new(61, _h) && id.contract() == _h, "CWide::w061() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w062(); assert!(id == ChannelId::new(62, _h) && id.contract() == _h, "CWide::w062() is {:?}", id); }
    { let id: ChannelId<String> = _c.w063(); assert!(id == ChannelId::new(63, _h) && id.contract() == _h, "CWide::w063() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w064(); assert!(id == ChannelId::new(64, _h) && id.contract() == _h, "CWide::w064() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w065(); assert!(id == ChannelId::new(65, _h) && id.contract() == _h, "CWide::w065() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w066(); assert!(id == ChannelId::new(66, _h) && id.contract() == _h, "CWide::w066() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w067(); assert!(id == ChannelId::new(67, _h) && id.contract() == _h, "CWide::w067() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w068(); assert!(id == ChannelId::new(68, _h) && id.contract() == _h, "CWide::w068() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w069(); assert!(id == ChannelId::new(69, _h) && id.contract() == _h, "CWide::w069() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w070(); assert!(id == ChannelId::new(70, _h) && id.contract() == _h, "CWide::w070() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w071(); assert!(id == ChannelId::new(71, _h) && id.contract() == _h, "CWide::w071() is {:?}", id); }
    { let id: ChannelId<String> = _c.w072(); assert!(id == ChannelId::new(72, _h) && id.contract() == _h, "CWide::w072() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w073(); assert!(id == ChannelId::new(73, _h) && id.contract() == _h, "CWide::w073() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w074(); assert!(id == ChannelId::new(74, _h) && id.contract() == _h, "CWide::w074() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w075(); assert!(id == ChannelId::new(75, _h) && id.contract() == _h, "CWide::w075() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w076(); assert!(id == ChannelId::new(76, _h) && id.contract() == _h, "CWide::w076() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w077(); assert!(id == ChannelId::new(77, _h) && id.contract() == _h, "CWide::w077() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w078(); assert!(id == ChannelId::new(78, _h) && id.contract() == _h, "CWide::w078() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w079(); assert!(id == ChannelId::new(79, _h) && id.contract() == _h, "CWide::w079() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w080(); assert!(id == ChannelId::new(80, _h) && id.contract() == _h, "CWide::w080() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w081(); assert!(id == ChannelId::new(81, _h) && id.contract() == _h, "CWide::w081() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w082(); assert!(id == ChannelId::new(82, _h) && id.contract() == _h, "CWide::w082() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w083(); assert!(id == ChannelId::new(83, _h) && id.contract() == _h, "CWide::w083() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w084(); assert!(id == ChannelId::new(84, _h) && id.contract() == _h, "CWide::w084() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w085(); assert!(id == ChannelId::new(85, _h) && id.contract() == _h, "CWide::w085() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w086(); assert!(id == ChannelId::new(86, _h) && id.contract() == _h, "CWide::w086() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w087(); assert!(id == ChannelId::new(87, _h) && id.contract() == _h, "CWide::w087() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w088(); assert!(id == ChannelId::new(88, _h) && id.contract() == _h, "CWide::w088() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w089(); assert!(id == ChannelId::new(89, _h) && id.contract() == _h, "CWide::w089() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w090(); assert!(id == ChannelId::new(90, _h) && id.contract() == _h, "CWide::w090() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w091(); assert!(id == ChannelId::new(91, _h) && id.contract() == _h, "CWide::w091() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w092(); assert!(id == ChannelId::new(92, _h) && id.contract() == _h, "CWide::w092() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w093(); assert!(id == ChannelId::new(93, _h) && id.contract() == _h, "CWide::w093() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w094(); assert!(id == ChannelId::new(94, _h) && id.contract() == _h, "CWide::w094() is {:?}", id); }
    { let id: ChannelId<String> = _c.w095(); assert!(id == ChannelId::new(95, _h) && id.contract() == _h, "CWide::w095() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w096(); assert!(id == ChannelId::new(96, _h) && id.contract() == _h, "CWide::w096() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w097(); assert!(id == ChannelId::new(97, _h) && id.contract() == _h, "CWide::w097() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w098(); assert!(id == ChannelId::new(98, _h) && id.contract() == _h, "CWide::w098() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w099(); assert!(id == ChannelId::new(99, _h) && id.contract() == _h, "CWide::w099() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w100(); assert!(id == ChannelId::new(100, _h) && id.contract() == _h, "CWide::w100() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w101(); assert!(id == ChannelId::new(101, _h) && id.contract() == _h, "CWide::w101() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w102(); assert!(id == ChannelId::new(102, _h) && id.contract() == _h, "CWide::w102() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w103(); assert!(id == ChannelId::new(103, _h) && id.contract() == _h, "CWide::w103() is {:?}", id); }
    { let id: ChannelId<String> = _c.w104(); assert!(id == ChannelId::new(104, _h) && id.contract() == _h, "CWide::w104() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w105(); assert!(id == ChannelId::new(105, _h) && id.contract() == _h, "CWide::w105() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w106(); assert!(id == ChannelId::new(106, _h) && id.contract() == _h, "CWide::w106() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w107(); assert!(id == ChannelId::new(107, _h) && id.contract() == _h, "CWide::w107() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w108(); assert!(id == ChannelId::new(108, _h) && id.contract() == _h, "CWide::w108() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w109(); assert!(id == ChannelId::new(109, _h) && id.contract() == _h, "CWide::w109() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w110(); assert!(id == ChannelId::new(110, _h) && id.contract() == _h, "CWide::w110() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w111(); assert!(id == ChannelId::new(111, _h) && id.contract() == _h, "CWide::w111() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w112(); assert!(id == ChannelId::new(112, _h) && id.contract() == _h, "CWide::w112() is {:?}", id); }
    { let id: ChannelId<String> = _c.w113(); assert!(id == ChannelId::new(113, _h) && id.contract() == _h, "CWide::w113() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w114(); assert!(id == ChannelId::new(114, _h) && id.contract() == _h, "CWide::w114() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w115(); assert!(id == ChannelId::new(115, _h) && id.contract() == _h, "CWide::w115() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w116(); assert!(id == ChannelId::new(116, _h) && id.contract() == _h, "CWide::w116() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w117(); assert!(id == ChannelId::new(117, _h) && id.contract() == _h, "CWide::w117() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w118(); assert!(id == ChannelId::new(118, _h) && id.contract() == _h, "CWide::w118() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w119(); assert!(id == ChannelId::new(119, _h) && id.contract() == _h, "CWide::w119() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w120(); assert!(id == ChannelId::new(120, _h) && id.contract() == _h, "CWide::w120() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w121(); assert!(id == ChannelId::new(121, _h) && id.contract() == _h, "CWide::w121() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w122(); assert!(id == ChannelId::new(122, _h) && id.contract() == _h, "CWide::w122() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w123(); assert!(id == ChannelId::new(123, _h) && id.contract() == _h, "CWide::w123() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w124(); assert!(id == ChannelId::new(124, _h) && id.contract() == _h, "CWide::w124() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w125(); assert!(id == ChannelId::new(125, _h) && id.contract() == _h, "CWide::w125() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w126(); assert!(id == ChannelId::new(126, _h) && id.contract() == _h, "CWide::w126() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w127(); assert!(id == ChannelId::new(127, _h) && id.contract() == _h, "CWide::w127() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w128(); assert!(id == ChannelId::new(128, _h) && id.contract() == _h, "CWide::w128() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w129(); assert!(id == ChannelId::new(129, _h) && id.contract() == _h, "CWide::w129() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w130(); assert!(id == ChannelId::new(130, _h) && id.contract() == _h, "CWide::w130() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w131(); assert!(id == ChannelId::new(131, _h) && id.contract() == _h, "CWide::w131() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w132(); assert!(id == ChannelId::new(132, _h) && id.contract() == _h, "CWide::w132() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w133(); assert!(id == ChannelId::new(133, _h) && id.contract() == _h, "CWide::w133() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w134(); assert!(id == ChannelId::new(134, _h) && id.contract() == _h, "CWide::w134() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w135(); assert!(id == ChannelId::new(135, _h) && id.contract() == _h, "CWide::w135() is {:?}", id); }
    { let id: ChannelId<String> = _c.w136(); assert!(id == ChannelId::new(136, _h) && id.contract() == _h, "CWide::w136() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w137(); assert!(id == ChannelId::new(137, _h) && id.contract() == _h, "CWide::w137() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w138(); assert!(id == ChannelId::new(138, _h) && id.contract() == _h, "CWide::w138() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w139(); assert!(id == ChannelId::new(139, _h) && id.contract() == _h, "CWide::w139() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w140(); assert!(id == ChannelId::new(140, _h) && id.contract() == _h, "CWide::w140() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w141(); assert!(id == ChannelId::new(141, _h) && id.contract() == _h, "CWide::w141() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w142(); assert!(id == ChannelId::new(142, _h) && id.contract() == _h, "CWide::w142() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w143(); assert!(id == ChannelId::new(143, _h) && id.contract() == _h, "CWide::w143() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w144(); assert!(id == ChannelId::new(144, _h) && id.contract() == _h, "CWide::w144() is {:?}", id); }
    { let id: ChannelId<String> = _c.w145(); assert!(id == ChannelId::new(145, _h) && id.contract() == _h, "CWide::w145() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w146(); assert!(id == ChannelId::new(146, _h) && id.contract() == _h, "CWide::w146() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w147(); assert!(id == ChannelId::new(147, _h) && id.contract() == _h, "CWide::w147() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w148(); assert!(id == ChannelId::new(148, _h) && id.contract() == _h, "CWide::w148() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w149(); assert!(id == ChannelId::new(149, _h) && id.contract() == _h, "CWide::w149() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w150(); assert!(id == ChannelId::new(150, _h) && id.contract() == _h, "CWide::w150() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w151(); assert!(id == ChannelId::new(151, _h) && id.contract() == _h, "CWide::w151() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w152(); assert!(id == ChannelId::new(152, _h) && id.contract() == _h, "CWide::w152() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w153(); assert!(id == ChannelId::new(153, _h) && id.contract() == _h, "CWide::w153() is {:?}", id); }
    { let id: ChannelId<String> = _c.w154(); assert!(id == ChannelId::new(154, _h) && id.contract() == _h, "CWide::w154() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w155(); assert!(id == ChannelId::new(155, _h) && id.contract() == _h, "CWide::w155() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w156(); assert!(id == ChannelId::new(156, _h) && id.contract() == _h, "CWide::w156() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w157(); assert!(id == ChannelId::new(157, _h) && id.contract() == _h, "CWide::w157() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w158(); assert!(id == ChannelId::new(158, _h) && id.contract() == _h, "CWide::w158() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w159(); assert!(id == ChannelId::new(159, _h) && id.contract() == _h, "CWide::w159() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w160(); assert!(id == ChannelId::new(160, _h) && id.contract() == _h, "CWide::w160() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w161(); assert!(id == ChannelId::new(161, _h) && id.contract() == _h, "CWide::w161() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w162(); assert!(id == ChannelId::new(162, _h) && id.contract() == _h, "CWide::w162() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w163(); assert!(id == ChannelId::new(163, _h) && id.contract() == _h, "CWide::w163() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w164(); assert!(id == ChannelId::new(164, _h) && id.contract() == _h, "CWide::w164() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w165(); assert!(id == ChannelId::new(165, _h) && id.contract() == _h, "CWide::w165() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w166(); assert!(id == ChannelId::new(166, _h) && id.contract() == _h, "CWide::w166() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w167(); assert!(id == ChannelId::new(167, _h) && id.contract() == _h, "CWide::w167() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w168(); assert!(id == ChannelId::new(168, _h) && id.contract() == _h, "CWide::w168() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w169(); assert!(id == ChannelId::new(169, _h) && id.contract() == _h, "CWide::w169() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w170(); assert!(id == ChannelId::new(170, _h) && id.contract() == _h, "CWide::w170() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w171(); assert!(id == ChannelId::new(171, _h) && id.contract() == _h, "CWide::w171() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w172(); assert!(id == ChannelId::new(172, _h) && id.contract() == _h, "CWide::w172() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w173(); assert!(id == ChannelId::new(173, _h) && id.contract() == _h, "CWide::w173() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w174(); assert!(id == ChannelId::new(174, _h) && id.contract() == _h, "CWide::w174() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w175(); assert!(id == ChannelId::new(175, _h) && id.contract() == _h, "CWide::w175() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w176(); assert!(id == ChannelId::new(176, _h) && id.contract() == _h, "CWide::w176() is {:?}", id); }
    { let id: ChannelId<String> = _c.w177(); assert!(id == ChannelId::new(177, _h) && id.contract() == _h, "CWide::w177() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w178(); assert!(id == ChannelId::new(178, _h) && id.contract() == _h, "CWide::w178() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w179(); assert!(id == ChannelId::new(179, _h) && id.contract() == _h, "CWide::w179() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w180(); assert!(id == ChannelId::new(180, _h) && id.contract() == _h, "CWide::w180() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w181(); assert!(id == ChannelId::new(181, _h) && id.contract() == _h, "CWide::w181() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w182(); assert!(id == ChannelId::new(182, _h) && id.contract() == _h, "CWide::w182() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w183(); assert!(id == ChannelId::new(183, _h) && id.contract() == _h, "CWide::w183() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w184(); assert!(id == ChannelId::new(184, _h) && id.contract() == _h, "CWide::w184() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w185(); assert!(id == ChannelId::new(185, _h) && id.contract() == _h, "CWide::w185() is {:?}", id); }
    { let id: ChannelId<String> = _c.w186(); assert!(id == ChannelId::new(186, _h) && id.contract() == _h, "CWide::w186() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w187(); assert!(id == ChannelId::new(187, _h) && id.contract() == _h, "CWide::w187() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w188(); assert!(id == ChannelId::new(188, _h) && id.contract() == _h, "CWide::w188() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w189(); assert!(id == ChannelId::new(189, _h) && id.contract() == _h, "CWide::w189() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w190(); assert!(id == ChannelId::new(190, _h) && id.contract() == _h, "CWide::w190() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w191(); assert!(id == ChannelId::new(191, _h) && id.contract() == _h, "CWide::w191() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w192(); assert!(id == ChannelId::new(192, _h) && id.contract() == _h, "CWide::w192() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w193(); assert!(id == ChannelId::new(193, _h) && id.contract() == _h, "CWide::w193() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w194(); assert!(id == ChannelId::new(194, _h) && id.contract() == _h, "CWide::w194() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w195(); assert!(id == ChannelId::new(195, _h) && id.contract() == _h, "CWide::w195() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w196(); assert!(id == ChannelId::new(196, _h) && id.contract() == _h, "CWide::w196() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w197(); assert!(id == ChannelId::new(197, _h) && id.contract() == _h, "CWide::w197() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w198(); assert!(id == ChannelId::new(198, _h) && id.contract() == _h, "CWide::w198() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w199(); assert!(id == ChannelId::new(199, _h) && id.contract() == _h, "CWide::w199() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w200(); assert!(id == ChannelId::new(200, _h) && id.contract() == _h, "CWide::w200() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w201(); assert!(id == ChannelId::new(201, _h) && id.contract() == _h, "CWide::w201() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w202(); assert!(id == ChannelId::new(202, _h) && id.contract() == _h, "CWide::w202() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w203(); assert!(id == ChannelId::new(203, _h) && id.contract() == _h, "CWide::w203() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w204(); assert!(id == ChannelId::new(204, _h) && id.contract() == _h, "CWide::w204() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w205(); assert!(id == ChannelId::new(205, _h) && id.contract() == _h, "CWide::w205() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w206(); assert!(id == ChannelId::new(206, _h) && id.contract() == _h, "CWide::w206() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w207(); assert!(id == ChannelId::new(207, _h) && id.contract() == _h, "CWide::w207() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w208(); assert!(id == ChannelId::new(208, _h) && id.contract() == _h, "CWide::w208() is {:?}", id); }
    { let id: ChannelId<String> = _c.w209(); assert!(id == ChannelId::new(209, _h) && id.contract() == _h, "CWide::w209() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w210(); assert!(id == ChannelId::new(210, _h) && id.contract() == _h, "CWide::w210() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w211(); assert!(id == ChannelId::new(211, _h) && id.contract() == _h, "CWide::w211() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w212(); assert!(id == ChannelId::new(212, _h) && id.contract() == _h, "CWide::w212() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w213(); assert!(id == ChannelId::new(213, _h) && id.contract() == _h, "CWide::w213() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w214(); assert!(id == ChannelId::new(214, _h) && id.contract() == _h, "CWide::w214() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w215(); assert!(id == ChannelId::new(215, _h) && id.contract() == _h, "CWide::w215() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w216(); assert!(id == ChannelId::new(216, _h) && id.contract() == _h, "CWide::w216() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w217(); assert!(id == ChannelId::new(217, _h) && id.contract() == _h, "CWide::w217() is {:?}", id); }
    { let id: ChannelId<String> = _c.w218(); assert!(id == ChannelId::new(218, _h) && id.contract() == _h, "CWide::w218() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w219(); assert!(id == ChannelId::new(219, _h) && id.contract() == _h, "CWide::w219() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w220(); assert!(id == ChannelId::new(220, _h) && id.contract() == _h, "CWide::w220() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w221(); assert!(id == ChannelId::new(221, _h) && id.contract() == _h, "CWide::w221() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w222(); assert!(id == ChannelId::new(222, _h) && id.contract() == _h, "CWide::w222() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w223(); assert!(id == ChannelId::new(223, _h) && id.contract() == _h, "CWide::w223() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w224(); assert!(id == ChannelId::new(224, _h) && id.contract() == _h, "CWide::w224() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w225(); assert!(id == ChannelId::new(225, _h) && id.contract() == _h, "CWide::w225() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w226(); assert!(id == ChannelId::new(226, _h) && id.contract() == _h, "CWide::w226() is {:?}", id); }
    { let id: ChannelId<String> = _c.w227(); assert!(id == ChannelId::new(227, _h) && id.contract() == _h, "CWide::w227() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w228(); assert!(id == ChannelId::new(228, _h) && id.contract() == _h, "CWide::w228() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w229(); assert!(id == ChannelId::new(229, _h) && id.contract() == _h, "CWide::w229() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w230(); assert!(id == ChannelId::new(230, _h) && id.contract() == _h, "CWide::w230() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w231(); assert!(id == ChannelId::new(231, _h) && id.contract() == _h, "CWide::w231() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w232(); assert!(id == ChannelId::new(232, _h) && id.contract() == _h, "CWide::w232() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w233(); assert!(id == ChannelId::new(233, _h) && id.contract() == _h, "CWide::w233() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w234(); assert!(id == ChannelId::new(234, _h) && id.contract() == _h, "CWide::w234() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w235(); assert!(id == ChannelId::new(235, _h) && id.contract() == _h, "CWide::w235() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w236(); assert!(id == ChannelId::new(236, _h) && id.contract() == _h, "CWide::w236() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w237(); assert!(id == ChannelId::new(237, _h) && id.contract() == _h, "CWide::w237() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w238(); assert!(id == ChannelId::new(238, _h) && id.contract() == _h, "CWide::w238() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w239(); assert!(id == ChannelId::new(239, _h) && id.contract() == _h, "CWide::w239() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w240(); assert!(id == ChannelId::new(240, _h) && id.contract() == _h, "CWide::w240() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w241(); assert!(id == ChannelId::new(241, _h) && id.contract() == _h, "CWide::w241() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w242(); assert!(id == ChannelId::new(242, _h) && id.contract() == _h, "CWide::w242() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w243(); assert!(id == ChannelId::new(243, _h) && id.contract() == _h, "CWide::w243() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w244(); assert!(id == ChannelId::new(244, _h) && id.contract() == _h, "CWide::w244() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w245(); assert!(id == ChannelId::new(245, _h) && id.contract() == _h, "CWide::w245() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w246(); assert!(id == ChannelId::new(246, _h) && id.contract() == _h, "CWide::w246() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w247(); assert!(id == ChannelId::new(247, _h) && id.contract() == _h, "CWide::w247() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w248(); assert!(id == ChannelId::new(248, _h) && id.contract() == _h, "CWide::w248() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w249(); assert!(id == ChannelId::new(249, _h) && id.contract() == _h, "CWide::w249() is {:?}", id); }
    { let id: ChannelId<String> = _c.w250(); assert!(id == ChannelId::new(250, _h) && id.contract() == _h, "CWide::w250() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w251(); assert!(id == ChannelId::new(251, _h) && id.contract() == _h, "CWide::w251() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w252(); assert!(id == ChannelId::new(252, _h) && id.contract() == _h, "CWide::w252() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w253(); assert!(id == ChannelId::new(253, _h) && id.contract() == _h, "CWide::w253() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w254(); assert!(id == ChannelId::new(254, _h) && id.contract() == _h, "CWide::w254() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w255(); assert!(id == ChannelId::new(255, _h) && id.contract() == _h, "CWide::w255() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w256(); assert!(id == ChannelId::new(256, _h) && id.contract() == _h, "CWide::w256() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w257(); assert!(id == ChannelId::new(257, _h) && id.contract() == _h, "CWide::w257() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w258(); assert!(id == ChannelId::new(258, _h) && id.contract() == _h, "CWide::w258() is {:?}", id); }
    { let id: ChannelId<String> = _c.w259(); assert!(id == ChannelId::new(259, _h) && id.contract() == _h, "CWide::w259() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w260(); assert!(id == ChannelId::new(260, _h) && id.contract() == _h, "CWide::w260() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w261(); assert!(id == ChannelId::new(261, _h) && id.contract() == _h, "CWide::w261() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w262(); assert!(id == ChannelId::new(262, _h) && id.contract() == _h, "CWide::w262() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w263(); assert!(id == ChannelId::new(263, _h) && id.contract() == _h, "CWide::w263() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w264(); assert!(id == ChannelId::new(264, _h) && id.contract() == _h, "CWide::w264() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w265(); assert!(id == ChannelId::new(265, _h) && id.contract() == _h, "CWide::w265() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w266(); assert!(id == ChannelId::new(266, _h) && id.contract() == _h, "CWide::w266() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w267(); assert!(id == ChannelId::new(267, _h) && id.contract() == _h, "CWide::w267() is {:?}", id); }
    { let id: ChannelId<String> = _c.w268(); assert!(id == ChannelId::new(268, _h) && id.contract() == _h, "CWide::w268() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w269(); assert!(id == ChannelId::new(269, _h) && id.contract() == _h, "CWide::w269() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w270(); assert!(id == ChannelId::new(270, _h) && id.contract() == _h, "CWide::w270() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w271(); assert!(id == ChannelId::new(271, _h) && id.contract() == _h, "CWide::w271() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w272(); assert!(id == ChannelId::new(272, _h) && id.contract() == _h, "CWide::w272() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w273(); assert!(id == ChannelId::new(273, _h) && id.contract() == _h, "CWide::w273() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w274(); assert!(id == ChannelId::new(274, _h) && id.contract() == _h, "CWide::w274() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w275(); assert!(id == ChannelId::new(275, _h) && id.contract() == _h, "CWide::w275() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w276(); assert!(id == ChannelId::new(276, _h) && id.contract() == _h, "CWide::w276() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w277(); assert!(id == ChannelId::new(277, _h) && id.contract() == _h, "CWide::w277() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w278(); assert!(id == ChannelId::new(278, _h) && id.contract() == _h, "CWide::w278() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w279(); assert!(id == ChannelId::new(279, _h) && id.contract() == _h, "CWide::w279() is {:?}", id); }
    { let id: ChannelId<i32> = _c.w280(); assert!(id == ChannelId::new(280, _h) && id.contract() == _h, "CWide::w280() is {:?}", id); }
    { let id: ChannelId<f32> = _c.w281(); assert!(id == ChannelId::new(281, _h) && id.contract() == _h, "CWide::w281() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.w282(); assert!(id == ChannelId::new(282, _h) && id.contract() == _h, "CWide::w282() is {:?}", id); }
    { let id: ChannelId<u16> = _c.w283(); assert!(id == ChannelId::new(283, _h) && id.contract() == _h, "CWide::w283() is {:?}", id); }
    { let id: ChannelId<i8> = _c.w284(); assert!(id == ChannelId::new(284, _h) && id.contract() == _h, "CWide::w284() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w285(); assert!(id == ChannelId::new(285, _h) && id.contract() == _h, "CWide::w285() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w286(); assert!(id == ChannelId::new(286, _h) && id.contract() == _h, "CWide::w286() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w287(); assert!(id == ChannelId::new(287, _h) && id.contract() == _h, "CWide::w287() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w288(); assert!(id == ChannelId::new(288, _h) && id.contract() == _h, "CWide::w288() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w289(); assert!(id == ChannelId::new(289, _h) && id.contract() == _h, "CWide::w289() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w290(); assert!(id == ChannelId::new(290, _h) && id.contract() == _h, "CWide::w290() is {:?}", id); }
    { let id: ChannelId<String> = _c.w291(); assert!(id == ChannelId::new(291, _h) && id.contract() == _h, "CWide::w291() is {:?}", id); }
    { let id: ChannelId<u8> = _c.w292(); assert!(id == ChannelId::new(292, _h) && id.contract() == _h, "CWide::w292() is {:?}", id); }
    { let id: ChannelId<u64> = _c.w293(); assert!(id == ChannelId::new(293, _h) && id.contract() == _h, "CWide::w293() is {:?}", id); }
    { let id: ChannelId<i64> = _c.w294(); assert!(id == ChannelId::new(294, _h) && id.contract() == _h, "CWide::w294() is {:?}", id); }
    { let id: ChannelId<f64> = _c.w295(); assert!(id == ChannelId::new(295, _h) && id.contract() == _h, "CWide::w295() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.w296(); assert!(id == ChannelId::new(296, _h) && id.contract() == _h, "CWide::w296() is {:?}", id); }
    { let id: ChannelId<u32> = _c.w297(); assert!(id == ChannelId::new(297, _h) && id.contract() == _h, "CWide::w297() is {:?}", id); }
    { let id: ChannelId<i16> = _c.w298(); assert!(id == ChannelId::new(298, _h) && id.contract() == _h, "CWide::w298() is {:?}", id); }
    { let id: ChannelId<bool> = _c.w299(); assert!(id == ChannelId::new(299, _h) && id.contract() == _h, "CWide::w299() is {:?}", id); }
    assert_eq!(<CWide as IChannels>::type_ids(), &[std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<bool>()] as &[std::any::TypeId], "types of CWide");
    assert_eq!(<CWide as IChannels>::enumerate_types(), &[TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::Bool)] as &[TpPropertyType], "types of CWide");
    assert_eq!(<CWide as IChannels>::field_names(), &["w000", "w001", "w002", "w003", "w004", "w005", "w006", "w007", "w008", "w009", "w010", "w011", "w012", "w013", "w014", "w015", "w016", "w017", "w018", "w019", "w020", "w021", "w022", "w023", "w024", "w025", "w026", "w027", "w028", "w029", "w030", "w031", "w032", "w033", "w034", "w035", "w036", "w037", "w038", "w039", "w040", "w041", "w042", "w043", "w044", "w045", "w046", "w047", "w048", "w049", "w050", "w051", "w052", "w053", "w054", "w055", "w056", "w057", "w058", "w059", "w060", "w061", "w062", "w063", "w064", "w065", "w066", "w067", "w068", "w069", "w070", "w071", "w072", "w073", "w074", "w075", "w076", "w077", "w078", "w079", "w080", "w081", "w082", "w083", "w084", "w085", "w086", "w087", "w088", "w089", "w090", "w091", "w092", "w093", "w094", "w095", "w096", "w097", "w098", "w099", "w100", "w101", "w102", "w103", "w104", "w105", "w106", "w107", "w108", "w109", "w110", "w111", "w112", "w113", "w114", "w115", "w116", "w117", "w118", "w119", "w120", "w121", "w122", "w123", "w124", "w125", "w126", "w127", "w128", "w129", "w130", "w131", "w132", "w133", "w134", "w135", "w136", "w137", "w138", "w139", "w140", "w141", "w142", "w143", "w144", "w145", "w146", "w147", "w148", "w149", "w150", "w151", "w152", "w153", "w154", "w155", "w156", "w157", "w158", "w159", "w160", "w161", "w162", "w163", "w164", "w165", "w166", "w167", "w168", "w169", "w170", "w171", "w172", "w173", "w174", "w175", "w176", "w177", "w178", "w179", "w180", "w181", "w182", "w183", "w184", "w185", "w186", "w187", "w188", "w189", "w190", "w191", "w192", "w193", "w194", "w195", "w196", "w197", "w198", "w199", "w200", "w201", "w202", "w203", "w204", "w205", "w206", "w207", "w208", "w209", "w210", "w211", "w212", "w213", "w214", "w215", "w216", "w217", "w218", "w219", "w220", "w221", "w222", "w223", "w224", "w225", "w226", "w227", "w228", "w229", "w230", "w231", "w232", "w233", "w234", "w235", "w236", "w237", "w238", "w239", "w240", "w241", "w242", "w243", "w244", "w245", "w246", "w247", "w248", "w249", "w250", "w251", "w252", "w253", "w254", "w255", "w256", "w257", "w258", "w259", "w260", "w261", "w262", "w263", "w264", "w265", "w266", "w267", "w268", "w269", "w270", "w271", "w272", "w273", "w274", "w275", "w276", "w277", "w278", "w279", "w280", "w281", "w282", "w283", "w284", "w285", "w286", "w287", "w288", "w289", "w290", "w291", "w292", "w293", "w294", "w295", "w296", "w297", "w298", "w299"] as &[&str], "names of CWide");
}

fn c_CMany(_h: ContractDataHandle) {
    let _c = CMany::new(_h);
    { let id: ChannelId<u8> = _c.m00(); assert!(id == ChannelId::new(0, _h) && id.contract() == _h, "CMany::m00() is {:?}", id); }
    { let id: ChannelId<i16> = _c.m01(); assert!(id == ChannelId::new(1, _h) && id.contract() == _h, "CMany::m01() is {:?}", id); }
    { let id: ChannelId<f64> = _c.m02(); assert!(id == ChannelId::new(2, _h) && id.contract() == _h, "CMany::m02() is {:?}", id); }
    { let id: ChannelId<u16> = _c.m03(); assert!(id == ChannelId::new(3, _h) && id.contract() == _h, "CMany::m03() is {:?}", id); }
    { let id: ChannelId<i32> = _c.m04(); assert!(id == ChannelId::new(4, _h) && id.contract() == _h, "CMany::m04() is {:?}", id); }
    { let id: ChannelId<String> = _c.m05(); assert!(id == ChannelId::new(5, _h) && id.contract() == _h, "CMany::m05() is {:?}", id); }
    { let id: ChannelId<u32> = _c.m06(); assert!(id == ChannelId::new(6, _h) && id.contract() == _h, "CMany::m06() is {:?}", id); }
    { let id: ChannelId<i64> = _c.m07(); assert!(id == ChannelId::new(7, _h) && id.contract() == _h, "CMany::m07() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.m08(); assert!(id == ChannelId::new(8, _h) && id.contract() == _h, "CMany::m08() is {:?}", id); }
    { let id: ChannelId<u64> = _c.m09(); assert!(id == ChannelId::new(9, _h) && id.contract() == _h, "CMany::m09() is {:?}", id); }
    { let id: ChannelId<bool> = _c.m10(); assert!(id == ChannelId::new(10, _h) && id.contract() == _h, "CMany::m10() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.m11(); assert!(id == ChannelId::new(11, _h) && id.contract() == _h, "CMany::m11() is {:?}", id); }
    { let id: ChannelId<i8> = _c.m12(); assert!(id == ChannelId::new(12, _h) && id.contract() == _h, "CMany::m12() is {:?}", id); }
    { let id: ChannelId<f32> = _c.m13(); assert!(id == ChannelId::new(13, _h) && id.contract() == _h, "CMany::m13() is {:?}", id); }
    { let id: ChannelId<u16> = _c.m14(); assert!(id == ChannelId::new(14, _h) && id.contract() == _h, "CMany::m14() is {:?}", id); }
    { let id: ChannelId<i32> = _c.m15(); assert!(id == ChannelId::new(15, _h) && id.contract() == _h, "CMany::m15() is {:?}", id); }
    { let id: ChannelId<String> = _c.m16(); assert!(id == ChannelId::new(16, _h) && id.contract() == _h, "CMany::m16() is {:?}", id); }
    { let id: ChannelId<u32> = _c.m17(); assert!(id == ChannelId::new(17, _h) && id.contract() == _h, "CMany::m17() is {:?}", id); }
    { let id: ChannelId<i64> = _c.m18(); assert!(id == ChannelId::new(18, _h) && id.contract() == _h, "CMany::m18() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.m19(); assert!(id == ChannelId::new(19, _h) && id.contract() == _h, "CMany::m19() is {:?}", id); }
    { let id: ChannelId<u64> = _c.m20(); assert!(id == ChannelId::new(20, _h) && id.contract() == _h, "CMany::m20() is {:?}", id); }
    { let id: ChannelId<bool> = _c.m21(); assert!(id == ChannelId::new(21, _h) && id.contract() == _h, "CMany::m21() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.m22(); assert!(id == ChannelId::new(22, _h) && id.contract() == _h, "CMany::m22() is {:?}", id); }
    { let id: ChannelId<i8> = _c.m23(); assert!(id == ChannelId::new(23, _h) && id.contract() == _h, "CMany::m23() is {:?}", id); }
    { let id: ChannelId<f32> = _c.m24(); assert!(id == ChannelId::new(24, _h) && id.contract() == _h, "CMany::m24() is {:?}", id); }
    { let id: ChannelId<u8> = _c.m25(); assert!(id == ChannelId::new(25, _h) && id.contract() == _h, "CMany::m25() is {:?}", id); }
    { let id: ChannelId<i16> = _c.m26(); assert!(id == ChannelId::new(26, _h) && id.contract() == _h, "CMany::m26() is {:?}", id); }
    { let id: ChannelId<f64> = _c.m27(); assert!(id == ChannelId::new(27, _h) && id.contract() == _h, "CMany::m27() is {:?}", id); }
    { let id: ChannelId<u32> = _c.m28(); assert!(id == ChannelId::new(28, _h) && id.contract() == _h, "CMany::m28() is {:?}", id); }
    { let id: ChannelId<i64> = _c.m29(); assert!(id == ChannelId::new(29, _h) && id.contract() == _h, "CMany::m29() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.m30(); assert!(id == ChannelId::new(30, _h) && id.contract() == _h, "CMany::m30() is {:?}", id); }
    { let id: ChannelId<u64> = _c.m31(); assert!(id == ChannelId::new(31, _h) && id.contract() == _h, "CMany::m31() is {:?}", id); }
    { let id: ChannelId<bool> = _c.m32(); assert!(id == ChannelId::new(32, _h) && id.contract() == _h, "CMany::m32() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.m33(); assert!(id == ChannelId::new(33, _h) && id.contract() == _h, "CMany::m33() is {:?}", id); }
    { let id: ChannelId<i8> = _c.m34(); assert!(id == ChannelId::new(34, _h) && id.contract() == _h, "CMany::m34() is {:?}", id); }
    { let id: ChannelId<f32> = _c.m35(); assert!(id == ChannelId::new(35, _h) && id.contract() == _h, "CMany::m35() is {:?}", id); }
    { let id: ChannelId<u8> = _c.m36(); assert!(id == ChannelId::new(36, _h) && id.contract() == _h, "CMany::m36() is {:?}", id); }
    { let id: ChannelId<i16> = _c.m37(); assert!(id == ChannelId::new(37, _h) && id.contract() == _h, "CMany::m37() is {:?}", id); }
    { let id: ChannelId<f64> = _c.m38(); assert!(id == ChannelId::new(38, _h) && id.contract() == _h, "CMany::m38() is {:?}", id); }
    { let id: ChannelId<u16> = _c.m39(); assert!(id == ChannelId::new(39, _h) && id.contract() == _h, "CMany::m39() is {:?}", id); }
    { let id: ChannelId<i32> = _c.m40(); assert!(id == ChannelId::new(40, _h) && id.contract() == _h, "CMany::m40() is {:?}", id); }
    { let id: ChannelId<String> = _c.m41(); assert!(id == ChannelId::new(41, _h) && id.contract() == _h, "CMany::m41() is {:?}", id); }
    { let id: ChannelId<u64> = _c.m42(); assert!(id == ChannelId::new(42, _h) && id.contract() == _h, "CMany::m42() is {:?}", id); }
    { let id: ChannelId<bool> = _c.m43(); assert!(id == ChannelId::new(43, _h) && id.contract() == _h, "CMany::m43() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.m44(); assert!(id == ChannelId::new(44, _h) && id.contract() == _h, "CMany::m44() is {:?}", id); }
    { let id: ChannelId<i8> = _c.m45(); assert!(id == ChannelId::new(45, _h) && id.contract() == _h, "CMany::m45() is {:?}", id); }
    { let id: ChannelId<f32> = _c.m46(); assert!(id == ChannelId::new(46, _h) && id.contract() == _h, "CMany::m46() is {:?}", id); }
    { let id: ChannelId<u8> = _c.m47(); assert!(id == ChannelId::new(47, _h) && id.contract() == _h, "CMany::m47() is {:?}", id); }
    { let id: ChannelId<i16> = _c.m48(); assert!(id == ChannelId::new(48, _h) && id.contract() == _h, "CMany::m48() is {:?}", id); }
    { let id: ChannelId<f64> = _c.m49(); assert!(id == ChannelId::new(49, _h) && id.contract() == _h, "CMany::m49() is {:?}", id); }
    { let id: ChannelId<u16> = _c.m50(); assert!(id == ChannelId::new(50, _h) && id.contract() == _h, "CMany::m50() is {:?}", id); }
    { let id: ChannelId<i32> = _c.m51(); assert!(id == ChannelId::new(51, _h) && id.contract() == _h, "CMany::m51() is {:?}", id); }
    { let id: ChannelId<String> = _c.m52(); assert!(id == ChannelId::new(52, _h) && id.contract() == _h, "CMany::m52() is {:?}", id); }
    { let id: ChannelId<u32> = _c.m53(); assert!(id == ChannelId::new(53, _h) && id.contract() == _h, "CMany::m53() is {:?}", id); }
    { let id: ChannelId<i64> = _c.m54(); assert!(id == ChannelId::new(54, _h) && id.contract() == _h, "CMany::m54() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.m55(); assert!(id == ChannelId::new(55, _h) && id.contract() == _h, "CMany::m55() is {:?}", id); }
    { let id: ChannelId<i8> = _c.m56(); assert!(id == ChannelId::new(56, _h) && id.contract() == _h, "CMany::m56() is {:?}", id); }
    { let id: ChannelId<f32> = _c.m57(); assert!(id == ChannelId::new(57, _h) && id.contract() == _h, "CMany::m57() is {:?}", id); }
    { let id: ChannelId<u8> = _c.m58(); assert!(id == ChannelId::new(58, _h) && id.contract() == _h, "CMany::m58() is {:?}", id); }
    { let id: ChannelId<i16> = _c.m59(); assert!(id == ChannelId::new(59, _h) && id.contract() == _h, "CMany::m59() is {:?}", id); }
    { let id: ChannelId<f64> = _c.m60(); assert!(id == ChannelId::new(60, _h) && id.contract() == _h, "CMany::m60() is {:?}", id); }
    { let id: ChannelId<u16> = _c.m61(); assert!(id == ChannelId::new(61, _h) && id.contract() == _h, "CMany::m61() is {:?}", id); }
    { let id: ChannelId<i32> = _c.m62(); assert!(id == ChannelId::new(62, _h) && id.contract() == _h, "CMany::m62() is {:?}", id); }
    { let id: ChannelId<String> = _c.m63(); assert!(id == ChannelId::new(63, _h) && id.contract() == _h, "CMany::m63() is {:?}", id); }
    { let id: ChannelId<u32> = _c.m64(); assert!(id == ChannelId::new(64, _h) && id.contract() == _h, "CMany::m64() is {:?}", id); }
    { let id: ChannelId<i64> = _c.m65(); assert!(id == ChannelId::new(65, _h) && id.contract() == _h, "CMany::m65() is {:?}", id); }
    { let id: ChannelId<ObjectHandle> = _c.m66(); assert!(id == ChannelId::new(66, _h) && id.contract() == _h, "CMany::m66() is {:?}", id); }
    { let id: ChannelId<u64> = _c.m67(); assert!(id == ChannelId::new(67, _h) && id.contract() == _h, "CMany::m67() is {:?}", id); }
    { let id: ChannelId<bool> = _c.m68(); assert!(id == ChannelId::new(68, _h) && id.contract() == _h, "CMany::m68() is {:?}", id); }
    { let id: ChannelId<ContractDataHandle> = _c.m69(); assert!(id == ChannelId::new(69, _h) && id.contract() == _h, "CMany::m69() is {:?}", id); }
    assert_eq!(<CMany as IChannels>::type_ids(), &[std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<ContractDataHandle>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<i8>(), std::any::TypeId::of::<f32>(), std::any::TypeId::of::<u8>(), std::any::TypeId::of::<i16>(), std::any::TypeId::of::<f64>(), std::any::TypeId::of::<u16>(), std::any::TypeId::of::<i32>(), std::any::TypeId::of::<String>(), std::any::TypeId::of::<u32>(), std::any::TypeId::of::<i64>(), std::any::TypeId::of::<ObjectHandle>(), std::any::TypeId::of::<u64>(), std::any::TypeId::of::<bool>(), std::any::TypeId::of::<ContractDataHandle>()] as &[std::any::TypeId], "types of CMany");
    assert_eq!(<CMany as IChannels>::enumerate_types(), &[TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::ContractDataHandle), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::I8), TpPropertyType::Primitive(P::F32), TpPropertyType::Primitive(P::U8), TpPropertyType::Primitive(P::I16), TpPropertyType::Primitive(P::F64), TpPropertyType::Primitive(P::U16), TpPropertyType::Primitive(P::I32), TpPropertyType::Primitive(P::String), TpPropertyType::Primitive(P::U32), TpPropertyType::Primitive(P::I64), TpPropertyType::Primitive(P::ObjectHandle), TpPropertyType::Primitive(P::U64), TpPropertyType::Primitive(P::Bool), TpPropertyType::Primitive(P::ContractDataHandle)] as &[TpPropertyType], "types of CMany");
    assert_eq!(<CMany as IChannels>::field_names(), &["m00", "m01", "m02", "m03", "m04", "m05", "m06", "m07", "m08", "m09", "m10", "m11", "m12", "m13", "m14", "m15", "m16", "m17", "m18", "m19", "m20", "m21", "m22", "m23", "m24", "m25", "m26", "m27", "m28", "m29", "m30", "m31", "m32", "m33", "m34", "m35", "m36", "m37", "m38", "m39", "m40", "m41", "m42", "m43", "m44", "m45", "m46", "m47", "m48", "m49", "m50", "m51", "m52", "m53", "m54", "m55", "m56", "m57", "m58", "m59", "m60", "m61", "m62", "m63", "m64", "m65", "m66", "m67", "m68", "m69"] as &[&str], "names of CMany");
}

pub const N: usize = 20;
pub fn check(n: usize, h: ContractDataHandle) {
    match n {
        0 => c_SEmpty(h),
        1 => c_SOne(h),
        2 => c_STwo(h),
        3 => c_SEach(h),
        4 => c_SBack(h),
        5 => c_SSame(h),
        6 => c_SPairs(h),
        7 => c_SNames(h),
        8 => c_SWide(h),
        9 => c_SMany(h),
        10 => c_CEmpty(h),
        11 => c_COne(h),
        12 => c_CTwo(h),
        13 => c_CEach(h),
        14 => c_CBack(h),
        15 => c_CSame(h),
        16 => c_CPairs(h),
        17 => c_CNames(h),
        18 => c_CWide(h),
        _ => c_CMany(h),
    }
}

pub fn m01_decl<S: crate::src::Src>(s: &mut S) {
    let n = s.below(N as u32) as usize;
    check(n, ContractDataHandle::new(arena::generational_arena::Index::from_raw_parts(s.usize(), s.u64())));
}
