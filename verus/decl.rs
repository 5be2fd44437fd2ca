// Written by tools/decl.py
// Contracts on what the macros of /repo/client/contract_macro make of a contract's declaration. The declarations
// are those of decl/src/lib.rs; their expansion is extracted as in core.rs.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, unused_parens, non_snake_case)]
use vstd::prelude::*;

verus! {
pub mod stub {
    use vstd::prelude::*;
    /// `std::any::TypeId`: one value per type
    #[verifier::external_body]
    pub struct TypeId { _p: () }
    pub uninterp spec fn tid<T: ?Sized>() -> TypeId;
    impl TypeId {
        #[verifier::external_body]
        pub fn of<T: ?Sized + 'static>() -> (r: TypeId) ensures r == tid::<T>() { unimplemented!() }
    }
    /// `vec![..]`
    #[verifier::external_body]
    pub fn vec_of<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
    /// crate `lazy_static`: the value of the initialiser, the same each time
    #[verifier::external_body]
    pub fn lazy_slice<T: 'static>(v: Vec<T>) -> (r: &'static [T]) ensures r@ == v@ { unimplemented!() }
}
pub mod tp_client {
    pub mod contract {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct ContractDataHandle { _p: () }
        pub mod properties {
            pub mod dynamic {
                use vstd::prelude::*;
                //@enum tp_client::contract::properties::dynamic::primitive::TpPrimitiveType #[derive(Clone, Copy)]
                //@enum tp_client::contract::properties::dynamic::TpPropertyType #[derive(Clone, Copy)]
            }
            pub mod traits {
                use vstd::prelude::*;
                use super::dynamic::{TpPrimitiveType, TpPropertyType};
                pub trait ITpProperty {}
                pub trait ITpData: ITpProperty {}
                // the values are proved in dynamic.rs (D01)
                pub trait ITpPropertyStatic: Sized { const PROPERTY_TYPE: TpPropertyType; }
                use crate::tp_client::contract::ContractDataHandle;
                use crate::tp_client::object::ObjectHandle;
                //@foreach
                pub const PT_$V: TpPropertyType = TpPropertyType::Primitive(TpPrimitiveType::$V);
                impl ITpProperty for $T {}
                impl ITpData for $T {}
                impl ITpPropertyStatic for $T { const PROPERTY_TYPE: TpPropertyType = PT_$V; }
                //@endfor
                pub proof fn types()
                    ensures
                        //@foreach
                        <$T as ITpPropertyStatic>::PROPERTY_TYPE == TpPropertyType::Primitive(TpPrimitiveType::$V),
                        //@endfor
                {}
            }
            pub mod states {
                use vstd::prelude::*;
                use super::traits::*;
                use super::super::ContractDataHandle;
                use core::marker::PhantomData;
                //@struct tp_client::contract::properties::states::id::StateId
                impl<T: ITpData> Copy for StateId<T> {}
                impl<T: ITpProperty> Clone for StateId<T> {
                    #[verifier::external_body]
                    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
                }
                impl<T: ITpProperty> StateId<T> {
                    //@fn tp_client::contract::properties::states::id::StateId::new
                    //@spec
                        ensures ret.idx == $A0, ret.contract == $A1
                    //@end
                }
            }
            pub mod channels {
                use vstd::prelude::*;
                use super::traits::*;
                use super::super::ContractDataHandle;
                use core::marker::PhantomData;
                //@struct tp_client::contract::properties::channels::ChannelId
                impl<T: ITpData> Copy for ChannelId<T> {}
                impl<T: ITpProperty> Clone for ChannelId<T> {
                    #[verifier::external_body]
                    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
                }
                impl<T: ITpProperty> ChannelId<T> {
                    //@fn tp_client::contract::properties::channels::ChannelId::new
                    //@spec
                        ensures ret.idx == $A0, ret.contract == $A1
                    //@end
                }
            }
        }
    }
    pub mod object {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct ObjectHandle { _p: () }
    }
}
use crate::tp_client::contract::properties::dynamic::{TpPrimitiveType, TpPropertyType};
use crate::tp_client::contract::properties::states::StateId;
use crate::tp_client::contract::properties::channels::ChannelId;
use crate::tp_client::contract::ContractDataHandle;
use crate::tp_client::object::ObjectHandle;

//@struct decl::SEmpty
impl SEmpty {
    //@fn decl::SEmpty::new
    //@spec
        ensures true
    //@end
}
impl SEmpty {
    //@fn decl::IStates@SEmpty::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 0
    //@end
    //@fn decl::IStates@SEmpty::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 0
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IStates@SEmpty::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 0
    //@end
}

//@struct decl::SOne
impl SOne {
    //@fn decl::SOne::new
    //@spec
        ensures true,
            ret.only.idx == 0, ret.only.contract == $A0
    //@end
    //@fn decl::SOne::only
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.only })
    //@end
}
impl SOne {
    //@fn decl::IStates@SOne::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 1,
            ret@[0] == crate::stub::tid::<u64>()
    //@end
    //@fn decl::IStates@SOne::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 1,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::U64)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IStates@SOne::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 1,
            ret@[0] == "only"
    //@end
}

//@struct decl::STwo
impl STwo {
    //@fn decl::STwo::new
    //@spec
        ensures true,
            ret.b.idx == 0, ret.b.contract == $A0,
            ret.a.idx == 1, ret.a.contract == $A0
    //@end
    //@fn decl::STwo::b
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.b })
    //@end
    //@fn decl::STwo::a
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.a })
    //@end
}
impl STwo {
    //@fn decl::IStates@STwo::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 2,
            ret@[0] == crate::stub::tid::<f64>(),
            ret@[1] == crate::stub::tid::<u32>()
    //@end
    //@fn decl::IStates@STwo::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 2,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::U32)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IStates@STwo::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 2,
            ret@[0] == "b",
            ret@[1] == "a"
    //@end
}

//@struct decl::SEach
impl SEach {
    //@fn decl::SEach::new
    //@spec
        ensures true,
            ret.u8_field.idx == 0, ret.u8_field.contract == $A0,
            ret.u16_field.idx == 1, ret.u16_field.contract == $A0,
            ret.u32_field.idx == 2, ret.u32_field.contract == $A0,
            ret.u64_field.idx == 3, ret.u64_field.contract == $A0,
            ret.i8_field.idx == 4, ret.i8_field.contract == $A0,
            ret.i16_field.idx == 5, ret.i16_field.contract == $A0,
            ret.i32_field.idx == 6, ret.i32_field.contract == $A0,
            ret.i64_field.idx == 7, ret.i64_field.contract == $A0,
            ret.bool_field.idx == 8, ret.bool_field.contract == $A0,
            ret.f32_field.idx == 9, ret.f32_field.contract == $A0,
            ret.f64_field.idx == 10, ret.f64_field.contract == $A0,
            ret.string_field.idx == 11, ret.string_field.contract == $A0,
            ret.objecthandle_field.idx == 12, ret.objecthandle_field.contract == $A0,
            ret.contractdatahandle_field.idx == 13, ret.contractdatahandle_field.contract == $A0
    //@end
    //@fn decl::SEach::u8_field
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.u8_field })
    //@end
    //@fn decl::SEach::u16_field
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.u16_field })
    //@end
    //@fn decl::SEach::u32_field
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.u32_field })
    //@end
    //@fn decl::SEach::u64_field
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.u64_field })
    //@end
    //@fn decl::SEach::i8_field
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.i8_field })
    //@end
    //@fn decl::SEach::i16_field
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.i16_field })
    //@end
    //@fn decl::SEach::i32_field
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.i32_field })
    //@end
    //@fn decl::SEach::i64_field
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.i64_field })
    //@end
    //@fn decl::SEach::bool_field
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.bool_field })
    //@end
    //@fn decl::SEach::f32_field
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.f32_field })
    //@end
    //@fn decl::SEach::f64_field
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.f64_field })
    //@end
    //@fn decl::SEach::string_field
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.string_field })
    //@end
    //@fn decl::SEach::objecthandle_field
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.objecthandle_field })
    //@end
    //@fn decl::SEach::contractdatahandle_field
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.contractdatahandle_field })
    //@end
}
impl SEach {
    //@fn decl::IStates@SEach::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 14,
            ret@[0] == crate::stub::tid::<u8>(),
            ret@[1] == crate::stub::tid::<u16>(),
            ret@[2] == crate::stub::tid::<u32>(),
            ret@[3] == crate::stub::tid::<u64>(),
            ret@[4] == crate::stub::tid::<i8>(),
            ret@[5] == crate::stub::tid::<i16>(),
            ret@[6] == crate::stub::tid::<i32>(),
            ret@[7] == crate::stub::tid::<i64>(),
            ret@[8] == crate::stub::tid::<bool>(),
            ret@[9] == crate::stub::tid::<f32>(),
            ret@[10] == crate::stub::tid::<f64>(),
            ret@[11] == crate::stub::tid::<String>(),
            ret@[12] == crate::stub::tid::<ObjectHandle>(),
            ret@[13] == crate::stub::tid::<ContractDataHandle>()
    //@end
    //@fn decl::IStates@SEach::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 14,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[2] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[3] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[4] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[5] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[6] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[7] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[8] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[9] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[10] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[11] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[12] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[13] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IStates@SEach::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 14,
            ret@[0] == "u8_field",
            ret@[1] == "u16_field",
            ret@[2] == "u32_field",
            ret@[3] == "u64_field",
            ret@[4] == "i8_field",
            ret@[5] == "i16_field",
            ret@[6] == "i32_field",
            ret@[7] == "i64_field",
            ret@[8] == "bool_field",
            ret@[9] == "f32_field",
            ret@[10] == "f64_field",
            ret@[11] == "string_field",
            ret@[12] == "objecthandle_field",
            ret@[13] == "contractdatahandle_field"
    //@end
}

//@struct decl::SBack
impl SBack {
    //@fn decl::SBack::new
    //@spec
        ensures true,
            ret.z0.idx == 0, ret.z0.contract == $A0,
            ret.z1.idx == 1, ret.z1.contract == $A0,
            ret.z2.idx == 2, ret.z2.contract == $A0,
            ret.z3.idx == 3, ret.z3.contract == $A0,
            ret.z4.idx == 4, ret.z4.contract == $A0,
            ret.z5.idx == 5, ret.z5.contract == $A0,
            ret.z6.idx == 6, ret.z6.contract == $A0,
            ret.z7.idx == 7, ret.z7.contract == $A0,
            ret.z8.idx == 8, ret.z8.contract == $A0,
            ret.z9.idx == 9, ret.z9.contract == $A0,
            ret.z10.idx == 10, ret.z10.contract == $A0,
            ret.z11.idx == 11, ret.z11.contract == $A0,
            ret.z12.idx == 12, ret.z12.contract == $A0,
            ret.z13.idx == 13, ret.z13.contract == $A0
    //@end
    //@fn decl::SBack::z0
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.z0 })
    //@end
    //@fn decl::SBack::z1
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.z1 })
    //@end
    //@fn decl::SBack::z2
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.z2 })
    //@end
    //@fn decl::SBack::z3
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.z3 })
    //@end
    //@fn decl::SBack::z4
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.z4 })
    //@end
    //@fn decl::SBack::z5
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.z5 })
    //@end
    //@fn decl::SBack::z6
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.z6 })
    //@end
    //@fn decl::SBack::z7
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.z7 })
    //@end
    //@fn decl::SBack::z8
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.z8 })
    //@end
    //@fn decl::SBack::z9
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.z9 })
    //@end
    //@fn decl::SBack::z10
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.z10 })
    //@end
    //@fn decl::SBack::z11
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.z11 })
    //@end
    //@fn decl::SBack::z12
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.z12 })
    //@end
    //@fn decl::SBack::z13
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.z13 })
    //@end
}
impl SBack {
    //@fn decl::IStates@SBack::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 14,
            ret@[0] == crate::stub::tid::<ContractDataHandle>(),
            ret@[1] == crate::stub::tid::<ObjectHandle>(),
            ret@[2] == crate::stub::tid::<String>(),
            ret@[3] == crate::stub::tid::<f64>(),
            ret@[4] == crate::stub::tid::<f32>(),
            ret@[5] == crate::stub::tid::<bool>(),
            ret@[6] == crate::stub::tid::<i64>(),
            ret@[7] == crate::stub::tid::<i32>(),
            ret@[8] == crate::stub::tid::<i16>(),
            ret@[9] == crate::stub::tid::<i8>(),
            ret@[10] == crate::stub::tid::<u64>(),
            ret@[11] == crate::stub::tid::<u32>(),
            ret@[12] == crate::stub::tid::<u16>(),
            ret@[13] == crate::stub::tid::<u8>()
    //@end
    //@fn decl::IStates@SBack::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 14,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[2] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[3] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[4] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[5] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[6] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[7] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[8] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[9] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[10] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[11] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[12] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[13] == TpPropertyType::Primitive(TpPrimitiveType::U8)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IStates@SBack::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 14,
            ret@[0] == "z0",
            ret@[1] == "z1",
            ret@[2] == "z2",
            ret@[3] == "z3",
            ret@[4] == "z4",
            ret@[5] == "z5",
            ret@[6] == "z6",
            ret@[7] == "z7",
            ret@[8] == "z8",
            ret@[9] == "z9",
            ret@[10] == "z10",
            ret@[11] == "z11",
            ret@[12] == "z12",
            ret@[13] == "z13"
    //@end
}

//@struct decl::SSame
impl SSame {
    //@fn decl::SSame::new
    //@spec
        ensures true,
            ret.same0.idx == 0, ret.same0.contract == $A0,
            ret.same1.idx == 1, ret.same1.contract == $A0,
            ret.same2.idx == 2, ret.same2.contract == $A0,
            ret.same3.idx == 3, ret.same3.contract == $A0,
            ret.same4.idx == 4, ret.same4.contract == $A0
    //@end
    //@fn decl::SSame::same0
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.same0 })
    //@end
    //@fn decl::SSame::same1
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.same1 })
    //@end
    //@fn decl::SSame::same2
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.same2 })
    //@end
    //@fn decl::SSame::same3
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.same3 })
    //@end
    //@fn decl::SSame::same4
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.same4 })
    //@end
}
impl SSame {
    //@fn decl::IStates@SSame::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 5,
            ret@[0] == crate::stub::tid::<String>(),
            ret@[1] == crate::stub::tid::<String>(),
            ret@[2] == crate::stub::tid::<String>(),
            ret@[3] == crate::stub::tid::<String>(),
            ret@[4] == crate::stub::tid::<String>()
    //@end
    //@fn decl::IStates@SSame::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 5,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[2] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[3] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[4] == TpPropertyType::Primitive(TpPrimitiveType::String)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IStates@SSame::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 5,
            ret@[0] == "same0",
            ret@[1] == "same1",
            ret@[2] == "same2",
            ret@[3] == "same3",
            ret@[4] == "same4"
    //@end
}

//@struct decl::SPairs
impl SPairs {
    //@fn decl::SPairs::new
    //@spec
        ensures true,
            ret.u8_0.idx == 0, ret.u8_0.contract == $A0,
            ret.u8_1.idx == 1, ret.u8_1.contract == $A0,
            ret.i8_0.idx == 2, ret.i8_0.contract == $A0,
            ret.i8_1.idx == 3, ret.i8_1.contract == $A0,
            ret.f32_0.idx == 4, ret.f32_0.contract == $A0,
            ret.f32_1.idx == 5, ret.f32_1.contract == $A0,
            ret.str_0.idx == 6, ret.str_0.contract == $A0,
            ret.oh_0.idx == 7, ret.oh_0.contract == $A0,
            ret.ch_0.idx == 8, ret.ch_0.contract == $A0
    //@end
    //@fn decl::SPairs::u8_0
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.u8_0 })
    //@end
    //@fn decl::SPairs::u8_1
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.u8_1 })
    //@end
    //@fn decl::SPairs::i8_0
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.i8_0 })
    //@end
    //@fn decl::SPairs::i8_1
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.i8_1 })
    //@end
    //@fn decl::SPairs::f32_0
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.f32_0 })
    //@end
    //@fn decl::SPairs::f32_1
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.f32_1 })
    //@end
    //@fn decl::SPairs::str_0
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.str_0 })
    //@end
    //@fn decl::SPairs::oh_0
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.oh_0 })
    //@end
    //@fn decl::SPairs::ch_0
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.ch_0 })
    //@end
}
impl SPairs {
    //@fn decl::IStates@SPairs::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 9,
            ret@[0] == crate::stub::tid::<u8>(),
            ret@[1] == crate::stub::tid::<u8>(),
            ret@[2] == crate::stub::tid::<i8>(),
            ret@[3] == crate::stub::tid::<i8>(),
            ret@[4] == crate::stub::tid::<f32>(),
            ret@[5] == crate::stub::tid::<f32>(),
            ret@[6] == crate::stub::tid::<String>(),
            ret@[7] == crate::stub::tid::<ObjectHandle>(),
            ret@[8] == crate::stub::tid::<ContractDataHandle>()
    //@end
    //@fn decl::IStates@SPairs::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 9,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[2] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[3] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[4] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[5] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[6] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[7] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[8] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IStates@SPairs::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 9,
            ret@[0] == "u8_0",
            ret@[1] == "u8_1",
            ret@[2] == "i8_0",
            ret@[3] == "i8_1",
            ret@[4] == "f32_0",
            ret@[5] == "f32_1",
            ret@[6] == "str_0",
            ret@[7] == "oh_0",
            ret@[8] == "ch_0"
    //@end
}

//@struct decl::SNames
impl SNames {
    //@fn decl::SNames::new
    //@spec
        ensures true,
            ret.id.idx == 0, ret.id.contract == $A0,
            ret.idx.idx == 1, ret.idx.contract == $A0,
            ret.contract.idx == 2, ret.contract.contract == $A0,
            ret.handle.idx == 3, ret.handle.contract == $A0,
            ret.ID.idx == 4, ret.ID.contract == $A0,
            ret._x.idx == 5, ret._x.contract == $A0,
            ret.x.idx == 6, ret.x.contract == $A0,
            ret.x_.idx == 7, ret.x_.contract == $A0,
            ret.XX.idx == 8, ret.XX.contract == $A0,
            ret.types.idx == 9, ret.types.contract == $A0,
            ret.names.idx == 10, ret.names.contract == $A0,
            ret.etats.idx == 11, ret.etats.contract == $A0,
            ret.value.idx == 12, ret.value.contract == $A0,
            ret.state.idx == 13, ret.state.contract == $A0,
            ret.channels.idx == 14, ret.channels.contract == $A0
    //@end
    //@fn decl::SNames::id
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.id })
    //@end
    //@fn decl::SNames::idx
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.idx })
    //@end
    //@fn decl::SNames::contract
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.contract })
    //@end
    //@fn decl::SNames::handle
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.handle })
    //@end
    //@fn decl::SNames::ID
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.ID })
    //@end
    //@fn decl::SNames::_x
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self._x })
    //@end
    //@fn decl::SNames::x
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.x })
    //@end
    //@fn decl::SNames::x_
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.x_ })
    //@end
    //@fn decl::SNames::XX
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.XX })
    //@end
    //@fn decl::SNames::types
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.types })
    //@end
    //@fn decl::SNames::names
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.names })
    //@end
    //@fn decl::SNames::etats
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.etats })
    //@end
    //@fn decl::SNames::value
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.value })
    //@end
    //@fn decl::SNames::state
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.state })
    //@end
    //@fn decl::SNames::channels
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.channels })
    //@end
}
impl SNames {
    //@fn decl::IStates@SNames::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 15,
            ret@[0] == crate::stub::tid::<u8>(),
            ret@[1] == crate::stub::tid::<bool>(),
            ret@[2] == crate::stub::tid::<i64>(),
            ret@[3] == crate::stub::tid::<u8>(),
            ret@[4] == crate::stub::tid::<u16>(),
            ret@[5] == crate::stub::tid::<i16>(),
            ret@[6] == crate::stub::tid::<i16>(),
            ret@[7] == crate::stub::tid::<i16>(),
            ret@[8] == crate::stub::tid::<f64>(),
            ret@[9] == crate::stub::tid::<u32>(),
            ret@[10] == crate::stub::tid::<String>(),
            ret@[11] == crate::stub::tid::<bool>(),
            ret@[12] == crate::stub::tid::<f32>(),
            ret@[13] == crate::stub::tid::<u8>(),
            ret@[14] == crate::stub::tid::<ObjectHandle>()
    //@end
    //@fn decl::IStates@SNames::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 15,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[2] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[3] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[4] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[5] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[6] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[7] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[8] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[9] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[10] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[11] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[12] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[13] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[14] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IStates@SNames::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 15,
            ret@[0] == "id",
            ret@[1] == "idx",
            ret@[2] == "contract",
            ret@[3] == "handle",
            ret@[4] == "ID",
            ret@[5] == "_x",
            ret@[6] == "x",
            ret@[7] == "x_",
            ret@[8] == "XX",
            ret@[9] == "types",
            ret@[10] == "names",
            ret@[11] == "etats",
            ret@[12] == "value",
            ret@[13] == "state",
            ret@[14] == "channels"
    //@end
}

//@struct decl::SWide
impl SWide {
    //@fn decl::SWide::new
    //@spec
        ensures true,
            ret.w000.idx == 0, ret.w000.contract == $A0,
            ret.w001.idx == 1, ret.w001.contract == $A0,
            ret.w002.idx == 2, ret.w002.contract == $A0,
            ret.w003.idx == 3, ret.w003.contract == $A0,
            ret.w004.idx == 4, ret.w004.contract == $A0,
            ret.w005.idx == 5, ret.w005.contract == $A0,
            ret.w006.idx == 6, ret.w006.contract == $A0,
            ret.w007.idx == 7, ret.w007.contract == $A0,
            ret.w008.idx == 8, ret.w008.contract == $A0,
            ret.w009.idx == 9, ret.w009.contract == $A0,
            ret.w010.idx == 10, ret.w010.contract == $A0,
            ret.w011.idx == 11, ret.w011.contract == $A0,
            ret.w012.idx == 12, ret.w012.contract == $A0,
            ret.w013.idx == 13, ret.w013.contract == $A0,
            ret.w014.idx == 14, ret.w014.contract == $A0,
            ret.w015.idx == 15, ret.w015.contract == $A0,
            ret.w016.idx == 16, ret.w016.contract == $A0,
            ret.w017.idx == 17, ret.w017.contract == $A0,
            ret.w018.idx == 18, ret.w018.contract == $A0,
            ret.w019.idx == 19, ret.w019.contract == $A0,
            ret.w020.idx == 20, ret.w020.contract == $A0,
            ret.w021.idx == 21, ret.w021.contract == $A0,
            ret.w022.idx == 22, ret.w022.contract == $A0,
            ret.w023.idx == 23, ret.w023.contract == $A0,
            ret.w024.idx == 24, ret.w024.contract == $A0,
            ret.w025.idx == 25, ret.w025.contract == $A0,
            ret.w026.idx == 26, ret.w026.contract == $A0,
            ret.w027.idx == 27, ret.w027.contract == $A0,
            ret.w028.idx == 28, ret.w028.contract == $A0,
            ret.w029.idx == 29, ret.w029.contract == $A0,
            ret.w030.idx == 30, ret.w030.contract == $A0,
            ret.w031.idx == 31, ret.w031.contract == $A0,
            ret.w032.idx == 32, ret.w032.contract == $A0,
            ret.w033.idx == 33, ret.w033.contract == $A0,
            ret.w034.idx == 34, ret.w034.contract == $A0,
            ret.w035.idx == 35, ret.w035.contract == $A0,
            ret.w036.idx == 36, ret.w036.contract == $A0,
            ret.w037.idx == 37, ret.w037.contract == $A0,
            ret.w038.idx == 38, ret.w038.contract == $A0,
            ret.w039.idx == 39, ret.w039.contract == $A0,
            ret.w040.idx == 40, ret.w040.contract == $A0,
            ret.w041.idx == 41, ret.w041.contract == $A0,
            ret.w042.idx == 42, ret.w042.contract == $A0,
            ret.w043.idx == 43, ret.w043.contract == $A0,
            ret.w044.idx == 44, ret.w044.contract == $A0,
            ret.w045.idx == 45, ret.w045.contract == $A0,
            ret.w046.idx == 46, ret.w046.contract == $A0,
            ret.w047.idx == 47, ret.w047.contract == $A0,
            ret.w048.idx == 48, ret.w048.contract == $A0,
            ret.w049.idx == 49, ret.w049.contract == $A0,
            ret.w050.idx == 50, ret.w050.contract == $A0,
            ret.w051.idx == 51, ret.w051.contract == $A0,
            ret.w052.idx == 52, ret.w052.contract == $A0,
            ret.w053.idx == 53, ret.w053.contract == $A0,
            ret.w054.idx == 54, ret.w054.contract == $A0,
            ret.w055.idx == 55, ret.w055.contract == $A0,
            ret.w056.idx == 56, ret.w056.contract == $A0,
            ret.w057.idx == 57, ret.w057.contract == $A0,
            ret.w058.idx == 58, ret.w058.contract == $A0,
            ret.w059.idx == 59, ret.w059.contract == $A0,
            ret.w060.idx == 60, ret.w060.contract == $A0,
            ret.w061.idx == 61, ret.w061.contract == $A0,
            ret.w062.idx == 62, ret.w062.contract == $A0,
            ret.w063.idx == 63, ret.w063.contract == $A0,
            ret.w064.idx == 64, ret.w064.contract == $A0,
            ret.w065.idx == 65, ret.w065.contract == $A0,
            ret.w066.idx == 66, ret.w066.contract == $A0,
            ret.w067.idx == 67, ret.w067.contract == $A0,
            ret.w068.idx == 68, ret.w068.contract == $A0,
            ret.w069.idx == 69, ret.w069.contract == $A0,
            ret.w070.idx == 70, ret.w070.contract == $A0,
            ret.w071.idx == 71, ret.w071.contract == $A0,
            ret.w072.idx == 72, ret.w072.contract == $A0,
            ret.w073.idx == 73, ret.w073.contract == $A0,
            ret.w074.idx == 74, ret.w074.contract == $A0,
            ret.w075.idx == 75, ret.w075.contract == $A0,
            ret.w076.idx == 76, ret.w076.contract == $A0,
            ret.w077.idx == 77, ret.w077.contract == $A0,
            ret.w078.idx == 78, ret.w078.contract == $A0,
            ret.w079.idx == 79, ret.w079.contract == $A0,
            ret.w080.idx == 80, ret.w080.contract == $A0,
            ret.w081.idx == 81, ret.w081.contract == $A0,
            ret.w082.idx == 82, ret.w082.contract == $A0,
            ret.w083.idx == 83, ret.w083.contract == $A0,
            ret.w084.idx == 84, ret.w084.contract == $A0,
            ret.w085.idx == 85, ret.w085.contract == $A0,
            ret.w086.idx == 86, ret.w086.contract == $A0,
            ret.w087.idx == 87, ret.w087.contract == $A0,
            ret.w088.idx == 88, ret.w088.contract == $A0,
            ret.w089.idx == 89, ret.w089.contract == $A0,
            ret.w090.idx == 90, ret.w090.contract == $A0,
            ret.w091.idx == 91, ret.w091.contract == $A0,
            ret.w092.idx == 92, ret.w092.contract == $A0,
            ret.w093.idx == 93, ret.w093.contract == $A0,
            ret.w094.idx == 94, ret.w094.contract == $A0,
            ret.w095.idx == 95, ret.w095.contract == $A0,
            ret.w096.idx == 96, ret.w096.contract == $A0,
            ret.w097.idx == 97, ret.w097.contract == $A0,
            ret.w098.idx == 98, ret.w098.contract == $A0,
            ret.w099.idx == 99, ret.w099.contract == $A0,
            ret.w100.idx == 100, ret.w100.contract == $A0,
            ret.w101.idx == 101, ret.w101.contract == $A0,
            ret.w102.idx == 102, ret.w102.contract == $A0,
            ret.w103.idx == 103, ret.w103.contract == $A0,
            ret.w104.idx == 104, ret.w104.contract == $A0,
            ret.w105.idx == 105, ret.w105.contract == $A0,
            ret.w106.idx == 106, ret.w106.contract == $A0,
            ret.w107.idx == 107, ret.w107.contract == $A0,
            ret.w108.idx == 108, ret.w108.contract == $A0,
            ret.w109.idx == 109, ret.w109.contract == $A0,
            ret.w110.idx == 110, ret.w110.contract == $A0,
            ret.w111.idx == 111, ret.w111.contract == $A0,
            ret.w112.idx == 112, ret.w112.contract == $A0,
            ret.w113.idx == 113, ret.w113.contract == $A0,
            ret.w114.idx == 114, ret.w114.contract == $A0,
            ret.w115.idx == 115, ret.w115.contract == $A0,
            ret.w116.idx == 116, ret.w116.contract == $A0,
            ret.w117.idx == 117, ret.w117.contract == $A0,
            ret.w118.idx == 118, ret.w118.contract == $A0,
            ret.w119.idx == 119, ret.w119.contract == $A0,
            ret.w120.idx == 120, ret.w120.contract == $A0,
            ret.w121.idx == 121, ret.w121.contract == $A0,
            ret.w122.idx == 122, ret.w122.contract == $A0,
            ret.w123.idx == 123, ret.w123.contract == $A0,
            ret.w124.idx == 124, ret.w124.contract == $A0,
            ret.w125.idx == 125, ret.w125.contract == $A0,
            ret.w126.idx == 126, ret.w126.contract == $A0,
            ret.w127.idx == 127, ret.w127.contract == $A0,
            ret.w128.idx == 128, ret.w128.contract == $A0,
            ret.w129.idx == 129, ret.w129.contract == $A0,
            ret.w130.idx == 130, ret.w130.contract == $A0,
            ret.w131.idx == 131, ret.w131.contract == $A0,
            ret.w132.idx == 132, ret.w132.contract == $A0,
            ret.w133.idx == 133, ret.w133.contract == $A0,
            ret.w134.idx == 134, ret.w134.contract == $A0,
            ret.w135.idx == 135, ret.w135.contract == $A0,
            ret.w136.idx == 136, ret.w136.contract == $A0,
            ret.w137.idx == 137, ret.w137.contract == $A0,
            ret.w138.idx == 138, ret.w138.contract == $A0,
            ret.w139.idx == 139, ret.w139.contract == $A0,
            ret.w140.idx == 140, ret.w140.contract == $A0,
            ret.w141.idx == 141, ret.w141.contract == $A0,
            ret.w142.idx == 142, ret.w142.contract == $A0,
            ret.w143.idx == 143, ret.w143.contract == $A0,
            ret.w144.idx == 144, ret.w144.contract == $A0,
            ret.w145.idx == 145, ret.w145.contract == $A0,
            ret.w146.idx == 146, ret.w146.contract == $A0,
            ret.w147.idx == 147, ret.w147.contract == $A0,
            ret.w148.idx == 148, ret.w148.contract == $A0,
            ret.w149.idx == 149, ret.w149.contract == $A0,
            ret.w150.idx == 150, ret.w150.contract == $A0,
            ret.w151.idx == 151, ret.w151.contract == $A0,
            ret.w152.idx == 152, ret.w152.contract == $A0,
            ret.w153.idx == 153, ret.w153.contract == $A0,
            ret.w154.idx == 154, ret.w154.contract == $A0,
            ret.w155.idx == 155, ret.w155.contract == $A0,
            ret.w156.idx == 156, ret.w156.contract == $A0,
            ret.w157.idx == 157, ret.w157.contract == $A0,
            ret.w158.idx == 158, ret.w158.contract == $A0,
            ret.w159.idx == 159, ret.w159.contract == $A0,
            ret.w160.idx == 160, ret.w160.contract == $A0,
            ret.w161.idx == 161, ret.w161.contract == $A0,
            ret.w162.idx == 162, ret.w162.contract == $A0,
            ret.w163.idx == 163, ret.w163.contract == $A0,
            ret.w164.idx == 164, ret.w164.contract == $A0,
            ret.w165.idx == 165, ret.w165.contract == $A0,
            ret.w166.idx == 166, ret.w166.contract == $A0,
            ret.w167.idx == 167, ret.w167.contract == $A0,
            ret.w168.idx == 168, ret.w168.contract == $A0,
            ret.w169.idx == 169, ret.w169.contract == $A0,
            ret.w170.idx == 170, ret.w170.contract == $A0,
            ret.w171.idx == 171, ret.w171.contract == $A0,
            ret.w172.idx == 172, ret.w172.contract == $A0,
            ret.w173.idx == 173, ret.w173.contract == $A0,
            ret.w174.idx == 174, ret.w174.contract == $A0,
            ret.w175.idx == 175, ret.w175.contract == $A0,
            ret.w176.idx == 176, ret.w176.contract == $A0,
            ret.w177.idx == 177, ret.w177.contract == $A0,
            ret.w178.idx == 178, ret.w178.contract == $A0,
            ret.w179.idx == 179, ret.w179.contract == $A0,
            ret.w180.idx == 180, ret.w180.contract == $A0,
            ret.w181.idx == 181, ret.w181.contract == $A0,
            ret.w182.idx == 182, ret.w182.contract == $A0,
            ret.w183.idx == 183, ret.w183.contract == $A0,
            ret.w184.idx == 184, ret.w184.contract == $A0,
            ret.w185.idx == 185, ret.w185.contract == $A0,
            ret.w186.idx == 186, ret.w186.contract == $A0,
            ret.w187.idx == 187, ret.w187.contract == $A0,
            ret.w188.idx == 188, ret.w188.contract == $A0,
            ret.w189.idx == 189, ret.w189.contract == $A0,
            ret.w190.idx == 190, ret.w190.contract == $A0,
            ret.w191.idx == 191, ret.w191.contract == $A0,
            ret.w192.idx == 192, ret.w192.contract == $A0,
            ret.w193.idx == 193, ret.w193.contract == $A0,
            ret.w194.idx == 194, ret.w194.contract == $A0,
            ret.w195.idx == 195, ret.w195.contract == $A0,
            ret.w196.idx == 196, ret.w196.contract == $A0,
            ret.w197.idx == 197, ret.w197.contract == $A0,
            ret.w198.idx == 198, ret.w198.contract == $A0,
            ret.w199.idx == 199, ret.w199.contract == $A0,
            ret.w200.idx == 200, ret.w200.contract == $A0,
            ret.w201.idx == 201, ret.w201.contract == $A0,
            ret.w202.idx == 202, ret.w202.contract == $A0,
            ret.w203.idx == 203, ret.w203.contract == $A0,
            ret.w204.idx == 204, ret.w204.contract == $A0,
            ret.w205.idx == 205, ret.w205.contract == $A0,
            ret.w206.idx == 206, ret.w206.contract == $A0,
            ret.w207.idx == 207, ret.w207.contract == $A0,
            ret.w208.idx == 208, ret.w208.contract == $A0,
            ret.w209.idx == 209, ret.w209.contract == $A0,
            ret.w210.idx == 210, ret.w210.contract == $A0,
            ret.w211.idx == 211, ret.w211.contract == $A0,
            ret.w212.idx == 212, ret.w212.contract == $A0,
            ret.w213.idx == 213, ret.w213.contract == $A0,
            ret.w214.idx == 214, ret.w214.contract == $A0,
            ret.w215.idx == 215, ret.w215.contract == $A0,
            ret.w216.idx == 216, ret.w216.contract == $A0,
            ret.w217.idx == 217, ret.w217.contract == $A0,
            ret.w218.idx == 218, ret.w218.contract == $A0,
            ret.w219.idx == 219, ret.w219.contract == $A0,
            ret.w220.idx == 220, ret.w220.contract == $A0,
            ret.w221.idx == 221, ret.w221.contract == $A0,
            ret.w222.idx == 222, ret.w222.contract == $A0,
            ret.w223.idx == 223, ret.w223.contract == $A0,
            ret.w224.idx == 224, ret.w224.contract == $A0,
            ret.w225.idx == 225, ret.w225.contract == $A0,
            ret.w226.idx == 226, ret.w226.contract == $A0,
            ret.w227.idx == 227, ret.w227.contract == $A0,
            ret.w228.idx == 228, ret.w228.contract == $A0,
            ret.w229.idx == 229, ret.w229.contract == $A0,
            ret.w230.idx == 230, ret.w230.contract == $A0,
            ret.w231.idx == 231, ret.w231.contract == $A0,
            ret.w232.idx == 232, ret.w232.contract == $A0,
            ret.w233.idx == 233, ret.w233.contract == $A0,
            ret.w234.idx == 234, ret.w234.contract == $A0,
            ret.w235.idx == 235, ret.w235.contract == $A0,
            ret.w236.idx == 236, ret.w236.contract == $A0,
            ret.w237.idx == 237, ret.w237.contract == $A0,
            ret.w238.idx == 238, ret.w238.contract == $A0,
            ret.w239.idx == 239, ret.w239.contract == $A0,
            ret.w240.idx == 240, ret.w240.contract == $A0,
            ret.w241.idx == 241, ret.w241.contract == $A0,
            ret.w242.idx == 242, ret.w242.contract == $A0,
            ret.w243.idx == 243, ret.w243.contract == $A0,
            ret.w244.idx == 244, ret.w244.contract == $A0,
            ret.w245.idx == 245, ret.w245.contract == $A0,
            ret.w246.idx == 246, ret.w246.contract == $A0,
            ret.w247.idx == 247, ret.w247.contract == $A0,
            ret.w248.idx == 248, ret.w248.contract == $A0,
            ret.w249.idx == 249, ret.w249.contract == $A0,
            ret.w250.idx == 250, ret.w250.contract == $A0,
            ret.w251.idx == 251, ret.w251.contract == $A0,
            ret.w252.idx == 252, ret.w252.contract == $A0,
            ret.w253.idx == 253, ret.w253.contract == $A0,
            ret.w254.idx == 254, ret.w254.contract == $A0,
            ret.w255.idx == 255, ret.w255.contract == $A0,
            ret.w256.idx == 256, ret.w256.contract == $A0,
            ret.w257.idx == 257, ret.w257.contract == $A0,
            ret.w258.idx == 258, ret.w258.contract == $A0,
            ret.w259.idx == 259, ret.w259.contract == $A0,
            ret.w260.idx == 260, ret.w260.contract == $A0,
            ret.w261.idx == 261, ret.w261.contract == $A0,
            ret.w262.idx == 262, ret.w262.contract == $A0,
            ret.w263.idx == 263, ret.w263.contract == $A0,
            ret.w264.idx == 264, ret.w264.contract == $A0,
            ret.w265.idx == 265, ret.w265.contract == $A0,
            ret.w266.idx == 266, ret.w266.contract == $A0,
            ret.w267.idx == 267, ret.w267.contract == $A0,
            ret.w268.idx == 268, ret.w268.contract == $A0,
            ret.w269.idx == 269, ret.w269.contract == $A0,
            ret.w270.idx == 270, ret.w270.contract == $A0,
            ret.w271.idx == 271, ret.w271.contract == $A0,
            ret.w272.idx == 272, ret.w272.contract == $A0,
            ret.w273.idx == 273, ret.w273.contract == $A0,
            ret.w274.idx == 274, ret.w274.contract == $A0,
            ret.w275.idx == 275, ret.w275.contract == $A0,
            ret.w276.idx == 276, ret.w276.contract == $A0,
            ret.w277.idx == 277, ret.w277.contract == $A0,
            ret.w278.idx == 278, ret.w278.contract == $A0,
            ret.w279.idx == 279, ret.w279.contract == $A0,
            ret.w280.idx == 280, ret.w280.contract == $A0,
            ret.w281.idx == 281, ret.w281.contract == $A0,
            ret.w282.idx == 282, ret.w282.contract == $A0,
            ret.w283.idx == 283, ret.w283.contract == $A0,
            ret.w284.idx == 284, ret.w284.contract == $A0,
            ret.w285.idx == 285, ret.w285.contract == $A0,
            ret.w286.idx == 286, ret.w286.contract == $A0,
            ret.w287.idx == 287, ret.w287.contract == $A0,
            ret.w288.idx == 288, ret.w288.contract == $A0,
            ret.w289.idx == 289, ret.w289.contract == $A0,
            ret.w290.idx == 290, ret.w290.contract == $A0,
            ret.w291.idx == 291, ret.w291.contract == $A0,
            ret.w292.idx == 292, ret.w292.contract == $A0,
            ret.w293.idx == 293, ret.w293.contract == $A0,
            ret.w294.idx == 294, ret.w294.contract == $A0,
            ret.w295.idx == 295, ret.w295.contract == $A0,
            ret.w296.idx == 296, ret.w296.contract == $A0,
            ret.w297.idx == 297, ret.w297.contract == $A0,
            ret.w298.idx == 298, ret.w298.contract == $A0,
            ret.w299.idx == 299, ret.w299.contract == $A0
    //@end
    //@fn decl::SWide::w000
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w000 })
    //@end
    //@fn decl::SWide::w001
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w001 })
    //@end
    //@fn decl::SWide::w002
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w002 })
    //@end
    //@fn decl::SWide::w003
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w003 })
    //@end
    //@fn decl::SWide::w004
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w004 })
    //@end
    //@fn decl::SWide::w005
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w005 })
    //@end
    //@fn decl::SWide::w006
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w006 })
    //@end
    //@fn decl::SWide::w007
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w007 })
    //@end
    //@fn decl::SWide::w008
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w008 })
    //@end
    //@fn decl::SWide::w009
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w009 })
    //@end
    //@fn decl::SWide::w010
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w010 })
    //@end
    //@fn decl::SWide::w011
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w011 })
    //@end
    //@fn decl::SWide::w012
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w012 })
    //@end
    //@fn decl::SWide::w013
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w013 })
    //@end
    //@fn decl::SWide::w014
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w014 })
    //@end
    //@fn decl::SWide::w015
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w015 })
    //@end
    //@fn decl::SWide::w016
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w016 })
    //@end
    //@fn decl::SWide::w017
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w017 })
    //@end
    //@fn decl::SWide::w018
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w018 })
    //@end
    //@fn decl::SWide::w019
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w019 })
    //@end
    //@fn decl::SWide::w020
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w020 })
    //@end
    //@fn decl::SWide::w021
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w021 })
    //@end
    //@fn decl::SWide::w022
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w022 })
    //@end
    //@fn decl::SWide::w023
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w023 })
    //@end
    //@fn decl::SWide::w024
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w024 })
    //@end
    //@fn decl::SWide::w025
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w025 })
    //@end
    //@fn decl::SWide::w026
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w026 })
    //@end
    //@fn decl::SWide::w027
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w027 })
    //@end
    //@fn decl::SWide::w028
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w028 })
    //@end
    //@fn decl::SWide::w029
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w029 })
    //@end
    //@fn decl::SWide::w030
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w030 })
    //@end
    //@fn decl::SWide::w031
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w031 })
    //@end
    //@fn decl::SWide::w032
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w032 })
    //@end
    //@fn decl::SWide::w033
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w033 })
    //@end
    //@fn decl::SWide::w034
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w034 })
    //@end
    //@fn decl::SWide::w035
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w035 })
    //@end
    //@fn decl::SWide::w036
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w036 })
    //@end
    //@fn decl::SWide::w037
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w037 })
    //@end
    //@fn decl::SWide::w038
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w038 })
    //@end
    //@fn decl::SWide::w039
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w039 })
    //@end
    //@fn decl::SWide::w040
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w040 })
    //@end
    //@fn decl::SWide::w041
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w041 })
    //@end
    //@fn decl::SWide::w042
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w042 })
    //@end
    //@fn decl::SWide::w043
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w043 })
    //@end
    //@fn decl::SWide::w044
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w044 })
    //@end
    //@fn decl::SWide::w045
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w045 })
    //@end
    //@fn decl::SWide::w046
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w046 })
    //@end
    //@fn decl::SWide::w047
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w047 })
    //@end
    //@fn decl::SWide::w048
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w048 })
    //@end
    //@fn decl::SWide::w049
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w049 })
    //@end
    //@fn decl::SWide::w050
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w050 })
    //@end
    //@fn decl::SWide::w051
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w051 })
    //@end
    //@fn decl::SWide::w052
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w052 })
    //@end
    //@fn decl::SWide::w053
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w053 })
    //@end
    //@fn decl::SWide::w054
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w054 })
    //@end
    //@fn decl::SWide::w055
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w055 })
    //@end
    //@fn decl::SWide::w056
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w056 })
    //@end
    //@fn decl::SWide::w057
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w057 })
    //@end
    //@fn decl::SWide::w058
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w058 })
    //@end
    //@fn decl::SWide::w059
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w059 })
    //@end
    //@fn decl::SWide::w060
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w060 })
    //@end
    //@fn decl::SWide::w061
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w061 })
    //@end
    //@fn decl::SWide::w062
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w062 })
    //@end
    //@fn decl::SWide::w063
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w063 })
    //@end
    //@fn decl::SWide::w064
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w064 })
    //@end
    //@fn decl::SWide::w065
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w065 })
    //@end
    //@fn decl::SWide::w066
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w066 })
    //@end
    //@fn decl::SWide::w067
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w067 })
    //@end
    //@fn decl::SWide::w068
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w068 })
    //@end
    //@fn decl::SWide::w069
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w069 })
    //@end
    //@fn decl::SWide::w070
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w070 })
    //@end
    //@fn decl::SWide::w071
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w071 })
    //@end
    //@fn decl::SWide::w072
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w072 })
    //@end
    //@fn decl::SWide::w073
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w073 })
    //@end
    //@fn decl::SWide::w074
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w074 })
    //@end
    //@fn decl::SWide::w075
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w075 })
    //@end
    //@fn decl::SWide::w076
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w076 })
    //@end
    //@fn decl::SWide::w077
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w077 })
    //@end
    //@fn decl::SWide::w078
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w078 })
    //@end
    //@fn decl::SWide::w079
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w079 })
    //@end
    //@fn decl::SWide::w080
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w080 })
    //@end
    //@fn decl::SWide::w081
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w081 })
    //@end
    //@fn decl::SWide::w082
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w082 })
    //@end
    //@fn decl::SWide::w083
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w083 })
    //@end
    //@fn decl::SWide::w084
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w084 })
    //@end
    //@fn decl::SWide::w085
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w085 })
    //@end
    //@fn decl::SWide::w086
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w086 })
    //@end
    //@fn decl::SWide::w087
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w087 })
    //@end
    //@fn decl::SWide::w088
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w088 })
    //@end
    //@fn decl::SWide::w089
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w089 })
    //@end
    //@fn decl::SWide::w090
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w090 })
    //@end
    //@fn decl::SWide::w091
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w091 })
    //@end
    //@fn decl::SWide::w092
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w092 })
    //@end
    //@fn decl::SWide::w093
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w093 })
    //@end
    //@fn decl::SWide::w094
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w094 })
    //@end
    //@fn decl::SWide::w095
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w095 })
    //@end
    //@fn decl::SWide::w096
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w096 })
    //@end
    //@fn decl::SWide::w097
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w097 })
    //@end
    //@fn decl::SWide::w098
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w098 })
    //@end
    //@fn decl::SWide::w099
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w099 })
    //@end
    //@fn decl::SWide::w100
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w100 })
    //@end
    //@fn decl::SWide::w101
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w101 })
    //@end
    //@fn decl::SWide::w102
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w102 })
    //@end
    //@fn decl::SWide::w103
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w103 })
    //@end
    //@fn decl::SWide::w104
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w104 })
    //@end
    //@fn decl::SWide::w105
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w105 })
    //@end
    //@fn decl::SWide::w106
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w106 })
    //@end
    //@fn decl::SWide::w107
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w107 })
    //@end
    //@fn decl::SWide::w108
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w108 })
    //@end
    //@fn decl::SWide::w109
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w109 })
    //@end
    //@fn decl::SWide::w110
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w110 })
    //@end
    //@fn decl::SWide::w111
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w111 })
    //@end
    //@fn decl::SWide::w112
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w112 })
    //@end
    //@fn decl::SWide::w113
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w113 })
    //@end
    //@fn decl::SWide::w114
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w114 })
    //@end
    //@fn decl::SWide::w115
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w115 })
    //@end
    //@fn decl::SWide::w116
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w116 })
    //@end
    //@fn decl::SWide::w117
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w117 })
    //@end
    //@fn decl::SWide::w118
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w118 })
    //@end
    //@fn decl::SWide::w119
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w119 })
    //@end
    //@fn decl::SWide::w120
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w120 })
    //@end
    //@fn decl::SWide::w121
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w121 })
    //@end
    //@fn decl::SWide::w122
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w122 })
    //@end
    //@fn decl::SWide::w123
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w123 })
    //@end
    //@fn decl::SWide::w124
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w124 })
    //@end
    //@fn decl::SWide::w125
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w125 })
    //@end
    //@fn decl::SWide::w126
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w126 })
    //@end
    //@fn decl::SWide::w127
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w127 })
    //@end
    //@fn decl::SWide::w128
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w128 })
    //@end
    //@fn decl::SWide::w129
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w129 })
    //@end
    //@fn decl::SWide::w130
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w130 })
    //@end
    //@fn decl::SWide::w131
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w131 })
    //@end
    //@fn decl::SWide::w132
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w132 })
    //@end
    //@fn decl::SWide::w133
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w133 })
    //@end
    //@fn decl::SWide::w134
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w134 })
    //@end
    //@fn decl::SWide::w135
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w135 })
    //@end
    //@fn decl::SWide::w136
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w136 })
    //@end
    //@fn decl::SWide::w137
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w137 })
    //@end
    //@fn decl::SWide::w138
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w138 })
    //@end
    //@fn decl::SWide::w139
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w139 })
    //@end
    //@fn decl::SWide::w140
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w140 })
    //@end
    //@fn decl::SWide::w141
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w141 })
    //@end
    //@fn decl::SWide::w142
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w142 })
    //@end
    //@fn decl::SWide::w143
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w143 })
    //@end
    //@fn decl::SWide::w144
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w144 })
    //@end
    //@fn decl::SWide::w145
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w145 })
    //@end
    //@fn decl::SWide::w146
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w146 })
    //@end
    //@fn decl::SWide::w147
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w147 })
    //@end
    //@fn decl::SWide::w148
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w148 })
    //@end
    //@fn decl::SWide::w149
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w149 })
    //@end
    //@fn decl::SWide::w150
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w150 })
    //@end
    //@fn decl::SWide::w151
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w151 })
    //@end
    //@fn decl::SWide::w152
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w152 })
    //@end
    //@fn decl::SWide::w153
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w153 })
    //@end
    //@fn decl::SWide::w154
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w154 })
    //@end
    //@fn decl::SWide::w155
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w155 })
    //@end
    //@fn decl::SWide::w156
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w156 })
    //@end
    //@fn decl::SWide::w157
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w157 })
    //@end
    //@fn decl::SWide::w158
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w158 })
    //@end
    //@fn decl::SWide::w159
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w159 })
    //@end
    //@fn decl::SWide::w160
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w160 })
    //@end
    //@fn decl::SWide::w161
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w161 })
    //@end
    //@fn decl::SWide::w162
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w162 })
    //@end
    //@fn decl::SWide::w163
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w163 })
    //@end
    //@fn decl::SWide::w164
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w164 })
    //@end
    //@fn decl::SWide::w165
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w165 })
    //@end
    //@fn decl::SWide::w166
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w166 })
    //@end
    //@fn decl::SWide::w167
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w167 })
    //@end
    //@fn decl::SWide::w168
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w168 })
    //@end
    //@fn decl::SWide::w169
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w169 })
    //@end
    //@fn decl::SWide::w170
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w170 })
    //@end
    //@fn decl::SWide::w171
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w171 })
    //@end
    //@fn decl::SWide::w172
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w172 })
    //@end
    //@fn decl::SWide::w173
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w173 })
    //@end
    //@fn decl::SWide::w174
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w174 })
    //@end
    //@fn decl::SWide::w175
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w175 })
    //@end
    //@fn decl::SWide::w176
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w176 })
    //@end
    //@fn decl::SWide::w177
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w177 })
    //@end
    //@fn decl::SWide::w178
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w178 })
    //@end
    //@fn decl::SWide::w179
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w179 })
    //@end
    //@fn decl::SWide::w180
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w180 })
    //@end
    //@fn decl::SWide::w181
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w181 })
    //@end
    //@fn decl::SWide::w182
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w182 })
    //@end
    //@fn decl::SWide::w183
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w183 })
    //@end
    //@fn decl::SWide::w184
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w184 })
    //@end
    //@fn decl::SWide::w185
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w185 })
    //@end
    //@fn decl::SWide::w186
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w186 })
    //@end
    //@fn decl::SWide::w187
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w187 })
    //@end
    //@fn decl::SWide::w188
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w188 })
    //@end
    //@fn decl::SWide::w189
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w189 })
    //@end
    //@fn decl::SWide::w190
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w190 })
    //@end
    //@fn decl::SWide::w191
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w191 })
    //@end
    //@fn decl::SWide::w192
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w192 })
    //@end
    //@fn decl::SWide::w193
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w193 })
    //@end
    //@fn decl::SWide::w194
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w194 })
    //@end
    //@fn decl::SWide::w195
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w195 })
    //@end
    //@fn decl::SWide::w196
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w196 })
    //@end
    //@fn decl::SWide::w197
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w197 })
    //@end
    //@fn decl::SWide::w198
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w198 })
    //@end
    //@fn decl::SWide::w199
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w199 })
    //@end
    //@fn decl::SWide::w200
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w200 })
    //@end
    //@fn decl::SWide::w201
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w201 })
    //@end
    //@fn decl::SWide::w202
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w202 })
    //@end
    //@fn decl::SWide::w203
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w203 })
    //@end
    //@fn decl::SWide::w204
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w204 })
    //@end
    //@fn decl::SWide::w205
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w205 })
    //@end
    //@fn decl::SWide::w206
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w206 })
    //@end
    //@fn decl::SWide::w207
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w207 })
    //@end
    //@fn decl::SWide::w208
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w208 })
    //@end
    //@fn decl::SWide::w209
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w209 })
    //@end
    //@fn decl::SWide::w210
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w210 })
    //@end
    //@fn decl::SWide::w211
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w211 })
    //@end
    //@fn decl::SWide::w212
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w212 })
    //@end
    //@fn decl::SWide::w213
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w213 })
    //@end
    //@fn decl::SWide::w214
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w214 })
    //@end
    //@fn decl::SWide::w215
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w215 })
    //@end
    //@fn decl::SWide::w216
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w216 })
    //@end
    //@fn decl::SWide::w217
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w217 })
    //@end
    //@fn decl::SWide::w218
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w218 })
    //@end
    //@fn decl::SWide::w219
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w219 })
    //@end
    //@fn decl::SWide::w220
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w220 })
    //@end
    //@fn decl::SWide::w221
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w221 })
    //@end
    //@fn decl::SWide::w222
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w222 })
    //@end
    //@fn decl::SWide::w223
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w223 })
    //@end
    //@fn decl::SWide::w224
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w224 })
    //@end
    //@fn decl::SWide::w225
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w225 })
    //@end
    //@fn decl::SWide::w226
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w226 })
    //@end
    //@fn decl::SWide::w227
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w227 })
    //@end
    //@fn decl::SWide::w228
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w228 })
    //@end
    //@fn decl::SWide::w229
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w229 })
    //@end
    //@fn decl::SWide::w230
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w230 })
    //@end
    //@fn decl::SWide::w231
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w231 })
    //@end
    //@fn decl::SWide::w232
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w232 })
    //@end
    //@fn decl::SWide::w233
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w233 })
    //@end
    //@fn decl::SWide::w234
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w234 })
    //@end
    //@fn decl::SWide::w235
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w235 })
    //@end
    //@fn decl::SWide::w236
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w236 })
    //@end
    //@fn decl::SWide::w237
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w237 })
    //@end
    //@fn decl::SWide::w238
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w238 })
    //@end
    //@fn decl::SWide::w239
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w239 })
    //@end
    //@fn decl::SWide::w240
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w240 })
    //@end
    //@fn decl::SWide::w241
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w241 })
    //@end
    //@fn decl::SWide::w242
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w242 })
    //@end
    //@fn decl::SWide::w243
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w243 })
    //@end
    //@fn decl::SWide::w244
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w244 })
    //@end
    //@fn decl::SWide::w245
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w245 })
    //@end
    //@fn decl::SWide::w246
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w246 })
    //@end
    //@fn decl::SWide::w247
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w247 })
    //@end
    //@fn decl::SWide::w248
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w248 })
    //@end
    //@fn decl::SWide::w249
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w249 })
    //@end
    //@fn decl::SWide::w250
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w250 })
    //@end
    //@fn decl::SWide::w251
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w251 })
    //@end
    //@fn decl::SWide::w252
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w252 })
    //@end
    //@fn decl::SWide::w253
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w253 })
    //@end
    //@fn decl::SWide::w254
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w254 })
    //@end
    //@fn decl::SWide::w255
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w255 })
    //@end
    //@fn decl::SWide::w256
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w256 })
    //@end
    //@fn decl::SWide::w257
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w257 })
    //@end
    //@fn decl::SWide::w258
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w258 })
    //@end
    //@fn decl::SWide::w259
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w259 })
    //@end
    //@fn decl::SWide::w260
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w260 })
    //@end
    //@fn decl::SWide::w261
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w261 })
    //@end
    //@fn decl::SWide::w262
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w262 })
    //@end
    //@fn decl::SWide::w263
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w263 })
    //@end
    //@fn decl::SWide::w264
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w264 })
    //@end
    //@fn decl::SWide::w265
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w265 })
    //@end
    //@fn decl::SWide::w266
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w266 })
    //@end
    //@fn decl::SWide::w267
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w267 })
    //@end
    //@fn decl::SWide::w268
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w268 })
    //@end
    //@fn decl::SWide::w269
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w269 })
    //@end
    //@fn decl::SWide::w270
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w270 })
    //@end
    //@fn decl::SWide::w271
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w271 })
    //@end
    //@fn decl::SWide::w272
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w272 })
    //@end
    //@fn decl::SWide::w273
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w273 })
    //@end
    //@fn decl::SWide::w274
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w274 })
    //@end
    //@fn decl::SWide::w275
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w275 })
    //@end
    //@fn decl::SWide::w276
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w276 })
    //@end
    //@fn decl::SWide::w277
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w277 })
    //@end
    //@fn decl::SWide::w278
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w278 })
    //@end
    //@fn decl::SWide::w279
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w279 })
    //@end
    //@fn decl::SWide::w280
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.w280 })
    //@end
    //@fn decl::SWide::w281
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.w281 })
    //@end
    //@fn decl::SWide::w282
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.w282 })
    //@end
    //@fn decl::SWide::w283
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.w283 })
    //@end
    //@fn decl::SWide::w284
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.w284 })
    //@end
    //@fn decl::SWide::w285
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w285 })
    //@end
    //@fn decl::SWide::w286
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w286 })
    //@end
    //@fn decl::SWide::w287
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w287 })
    //@end
    //@fn decl::SWide::w288
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w288 })
    //@end
    //@fn decl::SWide::w289
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w289 })
    //@end
    //@fn decl::SWide::w290
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w290 })
    //@end
    //@fn decl::SWide::w291
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.w291 })
    //@end
    //@fn decl::SWide::w292
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.w292 })
    //@end
    //@fn decl::SWide::w293
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.w293 })
    //@end
    //@fn decl::SWide::w294
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.w294 })
    //@end
    //@fn decl::SWide::w295
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.w295 })
    //@end
    //@fn decl::SWide::w296
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.w296 })
    //@end
    //@fn decl::SWide::w297
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.w297 })
    //@end
    //@fn decl::SWide::w298
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.w298 })
    //@end
    //@fn decl::SWide::w299
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.w299 })
    //@end
}
impl SWide {
    //@fn decl::IStates@SWide::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 300,
            ret@[0] == crate::stub::tid::<u8>(),
            ret@[1] == crate::stub::tid::<u64>(),
            ret@[2] == crate::stub::tid::<i32>(),
            ret@[3] == crate::stub::tid::<f32>(),
            ret@[4] == crate::stub::tid::<ObjectHandle>(),
            ret@[5] == crate::stub::tid::<u16>(),
            ret@[6] == crate::stub::tid::<i8>(),
            ret@[7] == crate::stub::tid::<i64>(),
            ret@[8] == crate::stub::tid::<f64>(),
            ret@[9] == crate::stub::tid::<ContractDataHandle>(),
            ret@[10] == crate::stub::tid::<u32>(),
            ret@[11] == crate::stub::tid::<i16>(),
            ret@[12] == crate::stub::tid::<bool>(),
            ret@[13] == crate::stub::tid::<String>(),
            ret@[14] == crate::stub::tid::<u16>(),
            ret@[15] == crate::stub::tid::<i8>(),
            ret@[16] == crate::stub::tid::<i64>(),
            ret@[17] == crate::stub::tid::<f64>(),
            ret@[18] == crate::stub::tid::<ContractDataHandle>(),
            ret@[19] == crate::stub::tid::<u32>(),
            ret@[20] == crate::stub::tid::<i16>(),
            ret@[21] == crate::stub::tid::<bool>(),
            ret@[22] == crate::stub::tid::<String>(),
            ret@[23] == crate::stub::tid::<u8>(),
            ret@[24] == crate::stub::tid::<u64>(),
            ret@[25] == crate::stub::tid::<i32>(),
            ret@[26] == crate::stub::tid::<f32>(),
            ret@[27] == crate::stub::tid::<ObjectHandle>(),
            ret@[28] == crate::stub::tid::<u32>(),
            ret@[29] == crate::stub::tid::<i16>(),
            ret@[30] == crate::stub::tid::<bool>(),
            ret@[31] == crate::stub::tid::<String>(),
            ret@[32] == crate::stub::tid::<u8>(),
            ret@[33] == crate::stub::tid::<u64>(),
            ret@[34] == crate::stub::tid::<i32>(),
            ret@[35] == crate::stub::tid::<f32>(),
            ret@[36] == crate::stub::tid::<ObjectHandle>(),
            ret@[37] == crate::stub::tid::<u16>(),
            ret@[38] == crate::stub::tid::<i8>(),
            ret@[39] == crate::stub::tid::<i64>(),
            ret@[40] == crate::stub::tid::<f64>(),
            ret@[41] == crate::stub::tid::<ContractDataHandle>(),
            ret@[42] == crate::stub::tid::<u64>(),
            ret@[43] == crate::stub::tid::<i32>(),
            ret@[44] == crate::stub::tid::<f32>(),
            ret@[45] == crate::stub::tid::<ObjectHandle>(),
            ret@[46] == crate::stub::tid::<u16>(),
            ret@[47] == crate::stub::tid::<i8>(),
            ret@[48] == crate::stub::tid::<i64>(),
            ret@[49] == crate::stub::tid::<f64>(),
            ret@[50] == crate::stub::tid::<ContractDataHandle>(),
            ret@[51] == crate::stub::tid::<u32>(),
            ret@[52] == crate::stub::tid::<i16>(),
            ret@[53] == crate::stub::tid::<bool>(),
            ret@[54] == crate::stub::tid::<String>(),
            ret@[55] == crate::stub::tid::<u8>(),
            ret@[56] == crate::stub::tid::<i8>(),
            ret@[57] == crate::stub::tid::<i64>(),
            ret@[58] == crate::stub::tid::<f64>(),
            ret@[59] == crate::stub::tid::<ContractDataHandle>(),
            ret@[60] == crate::stub::tid::<u32>(),
            ret@[61] == crate::stub::tid::<i16>(),
            ret@[62] == crate::stub::tid::<bool>(),
            ret@[63] == crate::stub::tid::<String>(),
            ret@[64] == crate::stub::tid::<u8>(),
            ret@[65] == crate::stub::tid::<u64>(),
            ret@[66] == crate::stub::tid::<i32>(),
            ret@[67] == crate::stub::tid::<f32>(),
            ret@[68] == crate::stub::tid::<ObjectHandle>(),
            ret@[69] == crate::stub::tid::<u16>(),
            ret@[70] == crate::stub::tid::<i16>(),
            ret@[71] == crate::stub::tid::<bool>(),
            ret@[72] == crate::stub::tid::<String>(),
            ret@[73] == crate::stub::tid::<u8>(),
            ret@[74] == crate::stub::tid::<u64>(),
            ret@[75] == crate::stub::tid::<i32>(),
            ret@[76] == crate::stub::tid::<f32>(),
            ret@[77] == crate::stub::tid::<ObjectHandle>(),
            ret@[78] == crate::stub::tid::<u16>(),
            ret@[79] == crate::stub::tid::<i8>(),
            ret@[80] == crate::stub::tid::<i64>(),
            ret@[81] == crate::stub::tid::<f64>(),
            ret@[82] == crate::stub::tid::<ContractDataHandle>(),
            ret@[83] == crate::stub::tid::<u32>(),
            ret@[84] == crate::stub::tid::<i32>(),
            ret@[85] == crate::stub::tid::<f32>(),
            ret@[86] == crate::stub::tid::<ObjectHandle>(),
            ret@[87] == crate::stub::tid::<u16>(),
            ret@[88] == crate::stub::tid::<i8>(),
            ret@[89] == crate::stub::tid::<i64>(),
            ret@[90] == crate::stub::tid::<f64>(),
            ret@[91] == crate::stub::tid::<ContractDataHandle>(),
            ret@[92] == crate::stub::tid::<u32>(),
            ret@[93] == crate::stub::tid::<i16>(),
            ret@[94] == crate::stub::tid::<bool>(),
            ret@[95] == crate::stub::tid::<String>(),
            ret@[96] == crate::stub::tid::<u8>(),
            ret@[97] == crate::stub::tid::<u64>(),
            ret@[98] == crate::stub::tid::<i64>(),
            ret@[99] == crate::stub::tid::<f64>(),
            ret@[100] == crate::stub::tid::<ContractDataHandle>(),
            ret@[101] == crate::stub::tid::<u32>(),
            ret@[102] == crate::stub::tid::<i16>(),
            ret@[103] == crate::stub::tid::<bool>(),
            ret@[104] == crate::stub::tid::<String>(),
            ret@[105] == crate::stub::tid::<u8>(),
            ret@[106] == crate::stub::tid::<u64>(),
            ret@[107] == crate::stub::tid::<i32>(),
            ret@[108] == crate::stub::tid::<f32>(),
            ret@[109] == crate::stub::tid::<ObjectHandle>(),
            ret@[110] == crate::stub::tid::<u16>(),
            ret@[111] == crate::stub::tid::<i8>(),
            ret@[112] == crate::stub::tid::<bool>(),
            ret@[113] == crate::stub::tid::<String>(),
            ret@[114] == crate::stub::tid::<u8>(),
            ret@[115] == crate::stub::tid::<u64>(),
            ret@[116] == crate::stub::tid::<i32>(),
            ret@[117] == crate::stub::tid::<f32>(),
            ret@[118] == crate::stub::tid::<ObjectHandle>(),
            ret@[119] == crate::stub::tid::<u16>(),
            ret@[120] == crate::stub::tid::<i8>(),
            ret@[121] == crate::stub::tid::<i64>(),
            ret@[122] == crate::stub::tid::<f64>(),
            ret@[123] == crate::stub::tid::<ContractDataHandle>(),
            ret@[124] == crate::stub::tid::<u32>(),
            ret@[125] == crate::stub::tid::<i16>(),
            ret@[126] == crate::stub::tid::<f32>(),
            ret@[127] == crate::stub::tid::<ObjectHandle>(),
            ret@[128] == crate::stub::tid::<u16>(),
            ret@[129] == crate::stub::tid::<i8>(),
            ret@[130] == crate::stub::tid::<i64>(),
            ret@[131] == crate::stub::tid::<f64>(),
            ret@[132] == crate::stub::tid::<ContractDataHandle>(),
            ret@[133] == crate::stub::tid::<u32>(),
            ret@[134] == crate::stub::tid::<i16>(),
            ret@[135] == crate::stub::tid::<bool>(),
            ret@[136] == crate::stub::tid::<String>(),
            ret@[137] == crate::stub::tid::<u8>(),
            ret@[138] == crate::stub::tid::<u64>(),
            ret@[139] == crate::stub::tid::<i32>(),
            ret@[140] == crate::stub::tid::<f64>(),
            ret@[141] == crate::stub::tid::<ContractDataHandle>(),
            ret@[142] == crate::stub::tid::<u32>(),
            ret@[143] == crate::stub::tid::<i16>(),
            ret@[144] == crate::stub::tid::<bool>(),
            ret@[145] == crate::stub::tid::<String>(),
            ret@[146] == crate::stub::tid::<u8>(),
            ret@[147] == crate::stub::tid::<u64>(),
            ret@[148] == crate::stub::tid::<i32>(),
            ret@[149] == crate::stub::tid::<f32>(),
            ret@[150] == crate::stub::tid::<ObjectHandle>(),
            ret@[151] == crate::stub::tid::<u16>(),
            ret@[152] == crate::stub::tid::<i8>(),
            ret@[153] == crate::stub::tid::<i64>(),
            ret@[154] == crate::stub::tid::<String>(),
            ret@[155] == crate::stub::tid::<u8>(),
            ret@[156] == crate::stub::tid::<u64>(),
            ret@[157] == crate::stub::tid::<i32>(),
            ret@[158] == crate::stub::tid::<f32>(),
            ret@[159] == crate::stub::tid::<ObjectHandle>(),
            ret@[160] == crate::stub::tid::<u16>(),
            ret@[161] == crate::stub::tid::<i8>(),
            ret@[162] == crate::stub::tid::<i64>(),
            ret@[163] == crate::stub::tid::<f64>(),
            ret@[164] == crate::stub::tid::<ContractDataHandle>(),
            ret@[165] == crate::stub::tid::<u32>(),
            ret@[166] == crate::stub::tid::<i16>(),
            ret@[167] == crate::stub::tid::<bool>(),
            ret@[168] == crate::stub::tid::<ObjectHandle>(),
            ret@[169] == crate::stub::tid::<u16>(),
            ret@[170] == crate::stub::tid::<i8>(),
            ret@[171] == crate::stub::tid::<i64>(),
            ret@[172] == crate::stub::tid::<f64>(),
            ret@[173] == crate::stub::tid::<ContractDataHandle>(),
            ret@[174] == crate::stub::tid::<u32>(),
            ret@[175] == crate::stub::tid::<i16>(),
            ret@[176] == crate::stub::tid::<bool>(),
            ret@[177] == crate::stub::tid::<String>(),
            ret@[178] == crate::stub::tid::<u8>(),
            ret@[179] == crate::stub::tid::<u64>(),
            ret@[180] == crate::stub::tid::<i32>(),
            ret@[181] == crate::stub::tid::<f32>(),
            ret@[182] == crate::stub::tid::<ContractDataHandle>(),
            ret@[183] == crate::stub::tid::<u32>(),
            ret@[184] == crate::stub::tid::<i16>(),
            ret@[185] == crate::stub::tid::<bool>(),
            ret@[186] == crate::stub::tid::<String>(),
            ret@[187] == crate::stub::tid::<u8>(),
            ret@[188] == crate::stub::tid::<u64>(),
            ret@[189] == crate::stub::tid::<i32>(),
            ret@[190] == crate::stub::tid::<f32>(),
            ret@[191] == crate::stub::tid::<ObjectHandle>(),
            ret@[192] == crate::stub::tid::<u16>(),
            ret@[193] == crate::stub::tid::<i8>(),
            ret@[194] == crate::stub::tid::<i64>(),
            ret@[195] == crate::stub::tid::<f64>(),
            ret@[196] == crate::stub::tid::<u8>(),
            ret@[197] == crate::stub::tid::<u64>(),
            ret@[198] == crate::stub::tid::<i32>(),
            ret@[199] == crate::stub::tid::<f32>(),
            ret@[200] == crate::stub::tid::<ObjectHandle>(),
            ret@[201] == crate::stub::tid::<u16>(),
            ret@[202] == crate::stub::tid::<i8>(),
            ret@[203] == crate::stub::tid::<i64>(),
            ret@[204] == crate::stub::tid::<f64>(),
            ret@[205] == crate::stub::tid::<ContractDataHandle>(),
            ret@[206] == crate::stub::tid::<u32>(),
            ret@[207] == crate::stub::tid::<i16>(),
            ret@[208] == crate::stub::tid::<bool>(),
            ret@[209] == crate::stub::tid::<String>(),
            ret@[210] == crate::stub::tid::<u16>(),
            ret@[211] == crate::stub::tid::<i8>(),
            ret@[212] == crate::stub::tid::<i64>(),
            ret@[213] == crate::stub::tid::<f64>(),
            ret@[214] == crate::stub::tid::<ContractDataHandle>(),
            ret@[215] == crate::stub::tid::<u32>(),
            ret@[216] == crate::stub::tid::<i16>(),
            ret@[217] == crate::stub::tid::<bool>(),
            ret@[218] == crate::stub::tid::<String>(),
            ret@[219] == crate::stub::tid::<u8>(),
            ret@[220] == crate::stub::tid::<u64>(),
            ret@[221] == crate::stub::tid::<i32>(),
            ret@[222] == crate::stub::tid::<f32>(),
            ret@[223] == crate::stub::tid::<ObjectHandle>(),
            ret@[224] == crate::stub::tid::<u32>(),
            ret@[225] == crate::stub::tid::<i16>(),
            ret@[226] == crate::stub::tid::<bool>(),
            ret@[227] == crate::stub::tid::<String>(),
            ret@[228] == crate::stub::tid::<u8>(),
            ret@[229] == crate::stub::tid::<u64>(),
            ret@[230] == crate::stub::tid::<i32>(),
            ret@[231] == crate::stub::tid::<f32>(),
            ret@[232] == crate::stub::tid::<ObjectHandle>(),
            ret@[233] == crate::stub::tid::<u16>(),
            ret@[234] == crate::stub::tid::<i8>(),
            ret@[235] == crate::stub::tid::<i64>(),
            ret@[236] == crate::stub::tid::<f64>(),
            ret@[237] == crate::stub::tid::<ContractDataHandle>(),
            ret@[238] == crate::stub::tid::<u64>(),
            ret@[239] == crate::stub::tid::<i32>(),
            ret@[240] == crate::stub::tid::<f32>(),
            ret@[241] == crate::stub::tid::<ObjectHandle>(),
            ret@[242] == crate::stub::tid::<u16>(),
            ret@[243] == crate::stub::tid::<i8>(),
            ret@[244] == crate::stub::tid::<i64>(),
            ret@[245] == crate::stub::tid::<f64>(),
            ret@[246] == crate::stub::tid::<ContractDataHandle>(),
            ret@[247] == crate::stub::tid::<u32>(),
            ret@[248] == crate::stub::tid::<i16>(),
            ret@[249] == crate::stub::tid::<bool>(),
            ret@[250] == crate::stub::tid::<String>(),
            ret@[251] == crate::stub::tid::<u8>(),
            ret@[252] == crate::stub::tid::<i8>(),
            ret@[253] == crate::stub::tid::<i64>(),
            ret@[254] == crate::stub::tid::<f64>(),
            ret@[255] == crate::stub::tid::<ContractDataHandle>(),
            ret@[256] == crate::stub::tid::<u32>(),
            ret@[257] == crate::stub::tid::<i16>(),
            ret@[258] == crate::stub::tid::<bool>(),
            ret@[259] == crate::stub::tid::<String>(),
            ret@[260] == crate::stub::tid::<u8>(),
            ret@[261] == crate::stub::tid::<u64>(),
            ret@[262] == crate::stub::tid::<i32>(),
            ret@[263] == crate::stub::tid::<f32>(),
            ret@[264] == crate::stub::tid::<ObjectHandle>(),
            ret@[265] == crate::stub::tid::<u16>(),
            ret@[266] == crate::stub::tid::<i16>(),
            ret@[267] == crate::stub::tid::<bool>(),
            ret@[268] == crate::stub::tid::<String>(),
            ret@[269] == crate::stub::tid::<u8>(),
            ret@[270] == crate::stub::tid::<u64>(),
            ret@[271] == crate::stub::tid::<i32>(),
            ret@[272] == crate::stub::tid::<f32>(),
            ret@[273] == crate::stub::tid::<ObjectHandle>(),
            ret@[274] == crate::stub::tid::<u16>(),
            ret@[275] == crate::stub::tid::<i8>(),
            ret@[276] == crate::stub::tid::<i64>(),
            ret@[277] == crate::stub::tid::<f64>(),
            ret@[278] == crate::stub::tid::<ContractDataHandle>(),
            ret@[279] == crate::stub::tid::<u32>(),
            ret@[280] == crate::stub::tid::<i32>(),
            ret@[281] == crate::stub::tid::<f32>(),
            ret@[282] == crate::stub::tid::<ObjectHandle>(),
            ret@[283] == crate::stub::tid::<u16>(),
            ret@[284] == crate::stub::tid::<i8>(),
            ret@[285] == crate::stub::tid::<i64>(),
            ret@[286] == crate::stub::tid::<f64>(),
            ret@[287] == crate::stub::tid::<ContractDataHandle>(),
            ret@[288] == crate::stub::tid::<u32>(),
            ret@[289] == crate::stub::tid::<i16>(),
            ret@[290] == crate::stub::tid::<bool>(),
            ret@[291] == crate::stub::tid::<String>(),
            ret@[292] == crate::stub::tid::<u8>(),
            ret@[293] == crate::stub::tid::<u64>(),
            ret@[294] == crate::stub::tid::<i64>(),
            ret@[295] == crate::stub::tid::<f64>(),
            ret@[296] == crate::stub::tid::<ContractDataHandle>(),
            ret@[297] == crate::stub::tid::<u32>(),
            ret@[298] == crate::stub::tid::<i16>(),
            ret@[299] == crate::stub::tid::<bool>()
    //@end
    //@fn decl::IStates@SWide::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 300,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[2] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[3] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[4] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[5] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[6] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[7] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[8] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[9] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[10] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[11] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[12] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[13] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[14] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[15] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[16] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[17] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[18] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[19] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[20] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[21] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[22] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[23] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[24] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[25] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[26] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[27] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[28] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[29] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[30] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[31] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[32] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[33] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[34] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[35] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[36] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[37] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[38] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[39] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[40] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[41] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[42] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[43] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[44] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[45] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[46] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[47] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[48] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[49] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[50] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[51] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[52] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[53] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[54] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[55] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[56] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[57] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[58] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[59] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[60] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[61] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[62] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[63] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[64] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[65] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[66] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[67] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[68] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[69] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[70] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[71] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[72] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[73] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[74] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[75] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[76] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[77] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[78] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[79] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[80] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[81] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[82] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[83] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[84] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[85] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[86] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[87] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[88] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[89] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[90] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[91] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[92] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[93] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[94] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[95] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[96] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[97] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[98] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[99] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[100] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[101] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[102] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[103] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[104] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[105] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[106] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[107] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[108] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[109] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[110] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[111] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[112] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[113] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[114] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[115] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[116] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[117] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[118] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[119] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[120] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[121] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[122] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[123] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[124] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[125] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[126] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[127] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[128] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[129] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[130] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[131] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[132] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[133] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[134] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[135] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[136] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[137] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[138] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[139] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[140] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[141] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[142] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[143] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[144] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[145] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[146] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[147] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[148] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[149] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[150] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[151] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[152] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[153] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[154] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[155] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[156] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[157] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[158] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[159] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[160] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[161] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[162] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[163] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[164] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[165] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[166] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[167] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[168] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[169] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[170] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[171] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[172] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[173] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[174] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[175] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[176] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[177] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[178] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[179] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[180] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[181] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[182] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[183] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[184] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[185] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[186] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[187] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[188] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[189] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[190] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[191] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[192] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[193] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[194] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[195] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[196] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[197] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[198] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[199] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[200] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[201] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[202] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[203] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[204] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[205] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[206] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[207] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[208] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[209] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[210] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[211] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[212] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[213] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[214] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[215] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[216] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[217] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[218] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[219] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[220] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[221] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[222] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[223] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[224] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[225] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[226] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[227] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[228] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[229] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[230] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[231] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[232] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[233] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[234] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[235] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[236] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[237] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[238] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[239] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[240] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[241] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[242] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[243] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[244] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[245] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[246] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[247] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[248] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[249] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[250] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[251] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[252] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[253] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[254] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[255] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[256] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[257] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[258] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[259] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[260] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[261] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[262] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[263] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[264] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[265] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[266] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[267] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[268] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[269] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[270] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[271] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[272] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[273] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[274] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[275] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[276] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[277] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[278] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[279] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[280] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[281] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[282] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[283] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[284] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[285] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[286] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[287] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[288] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[289] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[290] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[291] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[292] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[293] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[294] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[295] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[296] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[297] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[298] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[299] == TpPropertyType::Primitive(TpPrimitiveType::Bool)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IStates@SWide::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 300,
            ret@[0] == "w000",
            ret@[1] == "w001",
            ret@[2] == "w002",
            ret@[3] == "w003",
            ret@[4] == "w004",
            ret@[5] == "w005",
            ret@[6] == "w006",
            ret@[7] == "w007",
            ret@[8] == "w008",
            ret@[9] == "w009",
            ret@[10] == "w010",
            ret@[11] == "w011",
            ret@[12] == "w012",
            ret@[13] == "w013",
            ret@[14] == "w014",
            ret@[15] == "w015",
            ret@[16] == "w016",
            ret@[17] == "w017",
            ret@[18] == "w018",
            ret@[19] == "w019",
            ret@[20] == "w020",
            ret@[21] == "w021",
            ret@[22] == "w022",
            ret@[23] == "w023",
            ret@[24] == "w024",
            ret@[25] == "w025",
            ret@[26] == "w026",
            ret@[27] == "w027",
            ret@[28] == "w028",
            ret@[29] == "w029",
            ret@[30] == "w030",
            ret@[31] == "w031",
            ret@[32] == "w032",
            ret@[33] == "w033",
            ret@[34] == "w034",
            ret@[35] == "w035",
            ret@[36] == "w036",
            ret@[37] == "w037",
            ret@[38] == "w038",
            ret@[39] == "w039",
            ret@[40] == "w040",
            ret@[41] == "w041",
            ret@[42] == "w042",
            ret@[43] == "w043",
            ret@[44] == "w044",
            ret@[45] == "w045",
            ret@[46] == "w046",
            ret@[47] == "w047",
            ret@[48] == "w048",
            ret@[49] == "w049",
            ret@[50] == "w050",
            ret@[51] == "w051",
            ret@[52] == "w052",
            ret@[53] == "w053",
            ret@[54] == "w054",
            ret@[55] == "w055",
            ret@[56] == "w056",
            ret@[57] == "w057",
            ret@[58] == "w058",
            ret@[59] == "w059",
            ret@[60] == "w060",
            ret@[61] == "w061",
            ret@[62] == "w062",
            ret@[63] == "w063",
            ret@[64] == "w064",
            ret@[65] == "w065",
            ret@[66] == "w066",
            ret@[67] == "w067",
            ret@[68] == "w068",
            ret@[69] == "w069",
            ret@[70] == "w070",
            ret@[71] == "w071",
            ret@[72] == "w072",
            ret@[73] == "w073",
            ret@[74] == "w074",
            ret@[75] == "w075",
            ret@[76] == "w076",
            ret@[77] == "w077",
            ret@[78] == "w078",
            ret@[79] == "w079",
            ret@[80] == "w080",
            ret@[81] == "w081",
            ret@[82] == "w082",
            ret@[83] == "w083",
            ret@[84] == "w084",
            ret@[85] == "w085",
            ret@[86] == "w086",
            ret@[87] == "w087",
            ret@[88] == "w088",
            ret@[89] == "w089",
            ret@[90] == "w090",
            ret@[91] == "w091",
            ret@[92] == "w092",
            ret@[93] == "w093",
            ret@[94] == "w094",
            ret@[95] == "w095",
            ret@[96] == "w096",
            ret@[97] == "w097",
            ret@[98] == "w098",
            ret@[99] == "w099",
            ret@[100] == "w100",
            ret@[101] == "w101",
            ret@[102] == "w102",
            ret@[103] == "w103",
            ret@[104] == "w104",
            ret@[105] == "w105",
            ret@[106] == "w106",
            ret@[107] == "w107",
            ret@[108] == "w108",
            ret@[109] == "w109",
            ret@[110] == "w110",
            ret@[111] == "w111",
            ret@[112] == "w112",
            ret@[113] == "w113",
            ret@[114] == "w114",
            ret@[115] == "w115",
            ret@[116] == "w116",
            ret@[117] == "w117",
            ret@[118] == "w118",
            ret@[119] == "w119",
            ret@[120] == "w120",
            ret@[121] == "w121",
            ret@[122] == "w122",
            ret@[123] == "w123",
            ret@[124] == "w124",
            ret@[125] == "w125",
            ret@[126] == "w126",
            ret@[127] == "w127",
            ret@[128] == "w128",
            ret@[129] == "w129",
            ret@[130] == "w130",
            ret@[131] == "w131",
            ret@[132] == "w132",
            ret@[133] == "w133",
            ret@[134] == "w134",
            ret@[135] == "w135",
            ret@[136] == "w136",
            ret@[137] == "w137",
            ret@[138] == "w138",
            ret@[139] == "w139",
            ret@[140] == "w140",
            ret@[141] == "w141",
            ret@[142] == "w142",
            ret@[143] == "w143",
            ret@[144] == "w144",
            ret@[145] == "w145",
            ret@[146] == "w146",
            ret@[147] == "w147",
            ret@[148] == "w148",
            ret@[149] == "w149",
            ret@[150] == "w150",
            ret@[151] == "w151",
            ret@[152] == "w152",
            ret@[153] == "w153",
            ret@[154] == "w154",
            ret@[155] == "w155",
            ret@[156] == "w156",
            ret@[157] == "w157",
            ret@[158] == "w158",
            ret@[159] == "w159",
            ret@[160] == "w160",
            ret@[161] == "w161",
            ret@[162] == "w162",
            ret@[163] == "w163",
            ret@[164] == "w164",
            ret@[165] == "w165",
            ret@[166] == "w166",
            ret@[167] == "w167",
            ret@[168] == "w168",
            ret@[169] == "w169",
            ret@[170] == "w170",
            ret@[171] == "w171",
            ret@[172] == "w172",
            ret@[173] == "w173",
            ret@[174] == "w174",
            ret@[175] == "w175",
            ret@[176] == "w176",
            ret@[177] == "w177",
            ret@[178] == "w178",
            ret@[179] == "w179",
            ret@[180] == "w180",
            ret@[181] == "w181",
            ret@[182] == "w182",
            ret@[183] == "w183",
            ret@[184] == "w184",
            ret@[185] == "w185",
            ret@[186] == "w186",
            ret@[187] == "w187",
            ret@[188] == "w188",
            ret@[189] == "w189",
            ret@[190] == "w190",
            ret@[191] == "w191",
            ret@[192] == "w192",
            ret@[193] == "w193",
            ret@[194] == "w194",
            ret@[195] == "w195",
            ret@[196] == "w196",
            ret@[197] == "w197",
            ret@[198] == "w198",
            ret@[199] == "w199",
            ret@[200] == "w200",
            ret@[201] == "w201",
            ret@[202] == "w202",
            ret@[203] == "w203",
            ret@[204] == "w204",
            ret@[205] == "w205",
            ret@[206] == "w206",
            ret@[207] == "w207",
            ret@[208] == "w208",
            ret@[209] == "w209",
            ret@[210] == "w210",
            ret@[211] == "w211",
            ret@[212] == "w212",
            ret@[213] == "w213",
            ret@[214] == "w214",
            ret@[215] == "w215",
            ret@[216] == "w216",
            ret@[217] == "w217",
            ret@[218] == "w218",
            ret@[219] == "w219",
            ret@[220] == "w220",
            ret@[221] == "w221",
            ret@[222] == "w222",
            ret@[223] == "w223",
            ret@[224] == "w224",
            ret@[225] == "w225",
            ret@[226] == "w226",
            ret@[227] == "w227",
            ret@[228] == "w228",
            ret@[229] == "w229",
            ret@[230] == "w230",
            ret@[231] == "w231",
            ret@[232] == "w232",
            ret@[233] == "w233",
            ret@[234] == "w234",
            ret@[235] == "w235",
            ret@[236] == "w236",
            ret@[237] == "w237",
            ret@[238] == "w238",
            ret@[239] == "w239",
            ret@[240] == "w240",
            ret@[241] == "w241",
            ret@[242] == "w242",
            ret@[243] == "w243",
            ret@[244] == "w244",
            ret@[245] == "w245",
            ret@[246] == "w246",
            ret@[247] == "w247",
            ret@[248] == "w248",
            ret@[249] == "w249",
            ret@[250] == "w250",
            ret@[251] == "w251",
            ret@[252] == "w252",
            ret@[253] == "w253",
            ret@[254] == "w254",
            ret@[255] == "w255",
            ret@[256] == "w256",
            ret@[257] == "w257",
            ret@[258] == "w258",
            ret@[259] == "w259",
            ret@[260] == "w260",
            ret@[261] == "w261",
            ret@[262] == "w262",
            ret@[263] == "w263",
            ret@[264] == "w264",
            ret@[265] == "w265",
            ret@[266] == "w266",
            ret@[267] == "w267",
            ret@[268] == "w268",
            ret@[269] == "w269",
            ret@[270] == "w270",
            ret@[271] == "w271",
            ret@[272] == "w272",
            ret@[273] == "w273",
            ret@[274] == "w274",
            ret@[275] == "w275",
            ret@[276] == "w276",
            ret@[277] == "w277",
            ret@[278] == "w278",
            ret@[279] == "w279",
            ret@[280] == "w280",
            ret@[281] == "w281",
            ret@[282] == "w282",
            ret@[283] == "w283",
            ret@[284] == "w284",
            ret@[285] == "w285",
            ret@[286] == "w286",
            ret@[287] == "w287",
            ret@[288] == "w288",
            ret@[289] == "w289",
            ret@[290] == "w290",
            ret@[291] == "w291",
            ret@[292] == "w292",
            ret@[293] == "w293",
            ret@[294] == "w294",
            ret@[295] == "w295",
            ret@[296] == "w296",
            ret@[297] == "w297",
            ret@[298] == "w298",
            ret@[299] == "w299"
    //@end
}

//@struct decl::SMany
impl SMany {
    //@fn decl::SMany::new
    //@spec
        ensures true,
            ret.m00.idx == 0, ret.m00.contract == $A0,
            ret.m01.idx == 1, ret.m01.contract == $A0,
            ret.m02.idx == 2, ret.m02.contract == $A0,
            ret.m03.idx == 3, ret.m03.contract == $A0,
            ret.m04.idx == 4, ret.m04.contract == $A0,
            ret.m05.idx == 5, ret.m05.contract == $A0,
            ret.m06.idx == 6, ret.m06.contract == $A0,
            ret.m07.idx == 7, ret.m07.contract == $A0,
            ret.m08.idx == 8, ret.m08.contract == $A0,
            ret.m09.idx == 9, ret.m09.contract == $A0,
            ret.m10.idx == 10, ret.m10.contract == $A0,
            ret.m11.idx == 11, ret.m11.contract == $A0,
            ret.m12.idx == 12, ret.m12.contract == $A0,
            ret.m13.idx == 13, ret.m13.contract == $A0,
            ret.m14.idx == 14, ret.m14.contract == $A0,
            ret.m15.idx == 15, ret.m15.contract == $A0,
            ret.m16.idx == 16, ret.m16.contract == $A0,
            ret.m17.idx == 17, ret.m17.contract == $A0,
            ret.m18.idx == 18, ret.m18.contract == $A0,
            ret.m19.idx == 19, ret.m19.contract == $A0,
            ret.m20.idx == 20, ret.m20.contract == $A0,
            ret.m21.idx == 21, ret.m21.contract == $A0,
            ret.m22.idx == 22, ret.m22.contract == $A0,
            ret.m23.idx == 23, ret.m23.contract == $A0,
            ret.m24.idx == 24, ret.m24.contract == $A0,
            ret.m25.idx == 25, ret.m25.contract == $A0,
            ret.m26.idx == 26, ret.m26.contract == $A0,
            ret.m27.idx == 27, ret.m27.contract == $A0,
            ret.m28.idx == 28, ret.m28.contract == $A0,
            ret.m29.idx == 29, ret.m29.contract == $A0,
            ret.m30.idx == 30, ret.m30.contract == $A0,
            ret.m31.idx == 31, ret.m31.contract == $A0,
            ret.m32.idx == 32, ret.m32.contract == $A0,
            ret.m33.idx == 33, ret.m33.contract == $A0,
            ret.m34.idx == 34, ret.m34.contract == $A0,
            ret.m35.idx == 35, ret.m35.contract == $A0,
            ret.m36.idx == 36, ret.m36.contract == $A0,
            ret.m37.idx == 37, ret.m37.contract == $A0,
            ret.m38.idx == 38, ret.m38.contract == $A0,
            ret.m39.idx == 39, ret.m39.contract == $A0,
            ret.m40.idx == 40, ret.m40.contract == $A0,
            ret.m41.idx == 41, ret.m41.contract == $A0,
            ret.m42.idx == 42, ret.m42.contract == $A0,
            ret.m43.idx == 43, ret.m43.contract == $A0,
            ret.m44.idx == 44, ret.m44.contract == $A0,
            ret.m45.idx == 45, ret.m45.contract == $A0,
            ret.m46.idx == 46, ret.m46.contract == $A0,
            ret.m47.idx == 47, ret.m47.contract == $A0,
            ret.m48.idx == 48, ret.m48.contract == $A0,
            ret.m49.idx == 49, ret.m49.contract == $A0,
            ret.m50.idx == 50, ret.m50.contract == $A0,
            ret.m51.idx == 51, ret.m51.contract == $A0,
            ret.m52.idx == 52, ret.m52.contract == $A0,
            ret.m53.idx == 53, ret.m53.contract == $A0,
            ret.m54.idx == 54, ret.m54.contract == $A0,
            ret.m55.idx == 55, ret.m55.contract == $A0,
            ret.m56.idx == 56, ret.m56.contract == $A0,
            ret.m57.idx == 57, ret.m57.contract == $A0,
            ret.m58.idx == 58, ret.m58.contract == $A0,
            ret.m59.idx == 59, ret.m59.contract == $A0,
            ret.m60.idx == 60, ret.m60.contract == $A0,
            ret.m61.idx == 61, ret.m61.contract == $A0,
            ret.m62.idx == 62, ret.m62.contract == $A0,
            ret.m63.idx == 63, ret.m63.contract == $A0,
            ret.m64.idx == 64, ret.m64.contract == $A0,
            ret.m65.idx == 65, ret.m65.contract == $A0,
            ret.m66.idx == 66, ret.m66.contract == $A0,
            ret.m67.idx == 67, ret.m67.contract == $A0,
            ret.m68.idx == 68, ret.m68.contract == $A0,
            ret.m69.idx == 69, ret.m69.contract == $A0
    //@end
    //@fn decl::SMany::m00
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.m00 })
    //@end
    //@fn decl::SMany::m01
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.m01 })
    //@end
    //@fn decl::SMany::m02
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.m02 })
    //@end
    //@fn decl::SMany::m03
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.m03 })
    //@end
    //@fn decl::SMany::m04
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.m04 })
    //@end
    //@fn decl::SMany::m05
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.m05 })
    //@end
    //@fn decl::SMany::m06
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.m06 })
    //@end
    //@fn decl::SMany::m07
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.m07 })
    //@end
    //@fn decl::SMany::m08
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.m08 })
    //@end
    //@fn decl::SMany::m09
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.m09 })
    //@end
    //@fn decl::SMany::m10
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.m10 })
    //@end
    //@fn decl::SMany::m11
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.m11 })
    //@end
    //@fn decl::SMany::m12
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.m12 })
    //@end
    //@fn decl::SMany::m13
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.m13 })
    //@end
    //@fn decl::SMany::m14
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.m14 })
    //@end
    //@fn decl::SMany::m15
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.m15 })
    //@end
    //@fn decl::SMany::m16
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.m16 })
    //@end
    //@fn decl::SMany::m17
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.m17 })
    //@end
    //@fn decl::SMany::m18
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.m18 })
    //@end
    //@fn decl::SMany::m19
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.m19 })
    //@end
    //@fn decl::SMany::m20
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.m20 })
    //@end
    //@fn decl::SMany::m21
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.m21 })
    //@end
    //@fn decl::SMany::m22
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.m22 })
    //@end
    //@fn decl::SMany::m23
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.m23 })
    //@end
    //@fn decl::SMany::m24
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.m24 })
    //@end
    //@fn decl::SMany::m25
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.m25 })
    //@end
    //@fn decl::SMany::m26
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.m26 })
    //@end
    //@fn decl::SMany::m27
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.m27 })
    //@end
    //@fn decl::SMany::m28
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.m28 })
    //@end
    //@fn decl::SMany::m29
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.m29 })
    //@end
    //@fn decl::SMany::m30
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.m30 })
    //@end
    //@fn decl::SMany::m31
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.m31 })
    //@end
    //@fn decl::SMany::m32
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.m32 })
    //@end
    //@fn decl::SMany::m33
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.m33 })
    //@end
    //@fn decl::SMany::m34
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.m34 })
    //@end
    //@fn decl::SMany::m35
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.m35 })
    //@end
    //@fn decl::SMany::m36
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.m36 })
    //@end
    //@fn decl::SMany::m37
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.m37 })
    //@end
    //@fn decl::SMany::m38
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.m38 })
    //@end
    //@fn decl::SMany::m39
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.m39 })
    //@end
    //@fn decl::SMany::m40
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.m40 })
    //@end
    //@fn decl::SMany::m41
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.m41 })
    //@end
    //@fn decl::SMany::m42
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.m42 })
    //@end
    //@fn decl::SMany::m43
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.m43 })
    //@end
    //@fn decl::SMany::m44
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.m44 })
    //@end
    //@fn decl::SMany::m45
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.m45 })
    //@end
    //@fn decl::SMany::m46
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.m46 })
    //@end
    //@fn decl::SMany::m47
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.m47 })
    //@end
    //@fn decl::SMany::m48
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.m48 })
    //@end
    //@fn decl::SMany::m49
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.m49 })
    //@end
    //@fn decl::SMany::m50
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.m50 })
    //@end
    //@fn decl::SMany::m51
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.m51 })
    //@end
    //@fn decl::SMany::m52
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.m52 })
    //@end
    //@fn decl::SMany::m53
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.m53 })
    //@end
    //@fn decl::SMany::m54
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.m54 })
    //@end
    //@fn decl::SMany::m55
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.m55 })
    //@end
    //@fn decl::SMany::m56
    //@spec
        ensures ({ let x: StateId<i8> = ret; x == self.m56 })
    //@end
    //@fn decl::SMany::m57
    //@spec
        ensures ({ let x: StateId<f32> = ret; x == self.m57 })
    //@end
    //@fn decl::SMany::m58
    //@spec
        ensures ({ let x: StateId<u8> = ret; x == self.m58 })
    //@end
    //@fn decl::SMany::m59
    //@spec
        ensures ({ let x: StateId<i16> = ret; x == self.m59 })
    //@end
    //@fn decl::SMany::m60
    //@spec
        ensures ({ let x: StateId<f64> = ret; x == self.m60 })
    //@end
    //@fn decl::SMany::m61
    //@spec
        ensures ({ let x: StateId<u16> = ret; x == self.m61 })
    //@end
    //@fn decl::SMany::m62
    //@spec
        ensures ({ let x: StateId<i32> = ret; x == self.m62 })
    //@end
    //@fn decl::SMany::m63
    //@spec
        ensures ({ let x: StateId<String> = ret; x == self.m63 })
    //@end
    //@fn decl::SMany::m64
    //@spec
        ensures ({ let x: StateId<u32> = ret; x == self.m64 })
    //@end
    //@fn decl::SMany::m65
    //@spec
        ensures ({ let x: StateId<i64> = ret; x == self.m65 })
    //@end
    //@fn decl::SMany::m66
    //@spec
        ensures ({ let x: StateId<ObjectHandle> = ret; x == self.m66 })
    //@end
    //@fn decl::SMany::m67
    //@spec
        ensures ({ let x: StateId<u64> = ret; x == self.m67 })
    //@end
    //@fn decl::SMany::m68
    //@spec
        ensures ({ let x: StateId<bool> = ret; x == self.m68 })
    //@end
    //@fn decl::SMany::m69
    //@spec
        ensures ({ let x: StateId<ContractDataHandle> = ret; x == self.m69 })
    //@end
}
impl SMany {
    //@fn decl::IStates@SMany::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 70,
            ret@[0] == crate::stub::tid::<u8>(),
            ret@[1] == crate::stub::tid::<i16>(),
            ret@[2] == crate::stub::tid::<f64>(),
            ret@[3] == crate::stub::tid::<u16>(),
            ret@[4] == crate::stub::tid::<i32>(),
            ret@[5] == crate::stub::tid::<String>(),
            ret@[6] == crate::stub::tid::<u32>(),
            ret@[7] == crate::stub::tid::<i64>(),
            ret@[8] == crate::stub::tid::<ObjectHandle>(),
            ret@[9] == crate::stub::tid::<u64>(),
            ret@[10] == crate::stub::tid::<bool>(),
            ret@[11] == crate::stub::tid::<ContractDataHandle>(),
            ret@[12] == crate::stub::tid::<i8>(),
            ret@[13] == crate::stub::tid::<f32>(),
            ret@[14] == crate::stub::tid::<u16>(),
            ret@[15] == crate::stub::tid::<i32>(),
            ret@[16] == crate::stub::tid::<String>(),
            ret@[17] == crate::stub::tid::<u32>(),
            ret@[18] == crate::stub::tid::<i64>(),
            ret@[19] == crate::stub::tid::<ObjectHandle>(),
            ret@[20] == crate::stub::tid::<u64>(),
            ret@[21] == crate::stub::tid::<bool>(),
            ret@[22] == crate::stub::tid::<ContractDataHandle>(),
            ret@[23] == crate::stub::tid::<i8>(),
            ret@[24] == crate::stub::tid::<f32>(),
            ret@[25] == crate::stub::tid::<u8>(),
            ret@[26] == crate::stub::tid::<i16>(),
            ret@[27] == crate::stub::tid::<f64>(),
            ret@[28] == crate::stub::tid::<u32>(),
            ret@[29] == crate::stub::tid::<i64>(),
            ret@[30] == crate::stub::tid::<ObjectHandle>(),
            ret@[31] == crate::stub::tid::<u64>(),
            ret@[32] == crate::stub::tid::<bool>(),
            ret@[33] == crate::stub::tid::<ContractDataHandle>(),
            ret@[34] == crate::stub::tid::<i8>(),
            ret@[35] == crate::stub::tid::<f32>(),
            ret@[36] == crate::stub::tid::<u8>(),
            ret@[37] == crate::stub::tid::<i16>(),
            ret@[38] == crate::stub::tid::<f64>(),
            ret@[39] == crate::stub::tid::<u16>(),
            ret@[40] == crate::stub::tid::<i32>(),
            ret@[41] == crate::stub::tid::<String>(),
            ret@[42] == crate::stub::tid::<u64>(),
            ret@[43] == crate::stub::tid::<bool>(),
            ret@[44] == crate::stub::tid::<ContractDataHandle>(),
            ret@[45] == crate::stub::tid::<i8>(),
            ret@[46] == crate::stub::tid::<f32>(),
            ret@[47] == crate::stub::tid::<u8>(),
            ret@[48] == crate::stub::tid::<i16>(),
            ret@[49] == crate::stub::tid::<f64>(),
            ret@[50] == crate::stub::tid::<u16>(),
            ret@[51] == crate::stub::tid::<i32>(),
            ret@[52] == crate::stub::tid::<String>(),
            ret@[53] == crate::stub::tid::<u32>(),
            ret@[54] == crate::stub::tid::<i64>(),
            ret@[55] == crate::stub::tid::<ObjectHandle>(),
            ret@[56] == crate::stub::tid::<i8>(),
            ret@[57] == crate::stub::tid::<f32>(),
            ret@[58] == crate::stub::tid::<u8>(),
            ret@[59] == crate::stub::tid::<i16>(),
            ret@[60] == crate::stub::tid::<f64>(),
            ret@[61] == crate::stub::tid::<u16>(),
            ret@[62] == crate::stub::tid::<i32>(),
            ret@[63] == crate::stub::tid::<String>(),
            ret@[64] == crate::stub::tid::<u32>(),
            ret@[65] == crate::stub::tid::<i64>(),
            ret@[66] == crate::stub::tid::<ObjectHandle>(),
            ret@[67] == crate::stub::tid::<u64>(),
            ret@[68] == crate::stub::tid::<bool>(),
            ret@[69] == crate::stub::tid::<ContractDataHandle>()
    //@end
    //@fn decl::IStates@SMany::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 70,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[2] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[3] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[4] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[5] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[6] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[7] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[8] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[9] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[10] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[11] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[12] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[13] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[14] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[15] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[16] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[17] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[18] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[19] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[20] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[21] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[22] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[23] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[24] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[25] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[26] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[27] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[28] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[29] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[30] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[31] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[32] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[33] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[34] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[35] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[36] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[37] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[38] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[39] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[40] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[41] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[42] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[43] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[44] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[45] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[46] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[47] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[48] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[49] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[50] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[51] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[52] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[53] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[54] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[55] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[56] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[57] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[58] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[59] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[60] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[61] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[62] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[63] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[64] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[65] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[66] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[67] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[68] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[69] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IStates@SMany::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 70,
            ret@[0] == "m00",
            ret@[1] == "m01",
            ret@[2] == "m02",
            ret@[3] == "m03",
            ret@[4] == "m04",
            ret@[5] == "m05",
            ret@[6] == "m06",
            ret@[7] == "m07",
            ret@[8] == "m08",
            ret@[9] == "m09",
            ret@[10] == "m10",
            ret@[11] == "m11",
            ret@[12] == "m12",
            ret@[13] == "m13",
            ret@[14] == "m14",
            ret@[15] == "m15",
            ret@[16] == "m16",
            ret@[17] == "m17",
            ret@[18] == "m18",
            ret@[19] == "m19",
            ret@[20] == "m20",
            ret@[21] == "m21",
            ret@[22] == "m22",
            ret@[23] == "m23",
            ret@[24] == "m24",
            ret@[25] == "m25",
            ret@[26] == "m26",
            ret@[27] == "m27",
            ret@[28] == "m28",
            ret@[29] == "m29",
            ret@[30] == "m30",
            ret@[31] == "m31",
            ret@[32] == "m32",
            ret@[33] == "m33",
            ret@[34] == "m34",
            ret@[35] == "m35",
            ret@[36] == "m36",
            ret@[37] == "m37",
            ret@[38] == "m38",
            ret@[39] == "m39",
            ret@[40] == "m40",
            ret@[41] == "m41",
            ret@[42] == "m42",
            ret@[43] == "m43",
            ret@[44] == "m44",
            ret@[45] == "m45",
            ret@[46] == "m46",
            ret@[47] == "m47",
            ret@[48] == "m48",
            ret@[49] == "m49",
            ret@[50] == "m50",
            ret@[51] == "m51",
            ret@[52] == "m52",
            ret@[53] == "m53",
            ret@[54] == "m54",
            ret@[55] == "m55",
            ret@[56] == "m56",
            ret@[57] == "m57",
            ret@[58] == "m58",
            ret@[59] == "m59",
            ret@[60] == "m60",
            ret@[61] == "m61",
            ret@[62] == "m62",
            ret@[63] == "m63",
            ret@[64] == "m64",
            ret@[65] == "m65",
            ret@[66] == "m66",
            ret@[67] == "m67",
            ret@[68] == "m68",
            ret@[69] == "m69"
    //@end
}

//@struct decl::CEmpty
impl CEmpty {
    //@fn decl::CEmpty::new
    //@spec
        ensures true
    //@end
}
impl CEmpty {
    //@fn decl::IChannels@CEmpty::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 0
    //@end
    //@fn decl::IChannels@CEmpty::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 0
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IChannels@CEmpty::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 0
    //@end
}

//@struct decl::COne
impl COne {
    //@fn decl::COne::new
    //@spec
        ensures true,
            ret.only.idx == 0, ret.only.contract == $A0
    //@end
    //@fn decl::COne::only
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.only })
    //@end
}
impl COne {
    //@fn decl::IChannels@COne::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 1,
            ret@[0] == crate::stub::tid::<u64>()
    //@end
    //@fn decl::IChannels@COne::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 1,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::U64)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IChannels@COne::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 1,
            ret@[0] == "only"
    //@end
}

//@struct decl::CTwo
impl CTwo {
    //@fn decl::CTwo::new
    //@spec
        ensures true,
            ret.b.idx == 0, ret.b.contract == $A0,
            ret.a.idx == 1, ret.a.contract == $A0
    //@end
    //@fn decl::CTwo::b
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.b })
    //@end
    //@fn decl::CTwo::a
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.a })
    //@end
}
impl CTwo {
    //@fn decl::IChannels@CTwo::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 2,
            ret@[0] == crate::stub::tid::<f64>(),
            ret@[1] == crate::stub::tid::<u32>()
    //@end
    //@fn decl::IChannels@CTwo::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 2,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::U32)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IChannels@CTwo::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 2,
            ret@[0] == "b",
            ret@[1] == "a"
    //@end
}

//@struct decl::CEach
impl CEach {
    //@fn decl::CEach::new
    //@spec
        ensures true,
            ret.u8_field.idx == 0, ret.u8_field.contract == $A0,
            ret.u16_field.idx == 1, ret.u16_field.contract == $A0,
            ret.u32_field.idx == 2, ret.u32_field.contract == $A0,
            ret.u64_field.idx == 3, ret.u64_field.contract == $A0,
            ret.i8_field.idx == 4, ret.i8_field.contract == $A0,
            ret.i16_field.idx == 5, ret.i16_field.contract == $A0,
            ret.i32_field.idx == 6, ret.i32_field.contract == $A0,
            ret.i64_field.idx == 7, ret.i64_field.contract == $A0,
            ret.bool_field.idx == 8, ret.bool_field.contract == $A0,
            ret.f32_field.idx == 9, ret.f32_field.contract == $A0,
            ret.f64_field.idx == 10, ret.f64_field.contract == $A0,
            ret.string_field.idx == 11, ret.string_field.contract == $A0,
            ret.objecthandle_field.idx == 12, ret.objecthandle_field.contract == $A0,
            ret.contractdatahandle_field.idx == 13, ret.contractdatahandle_field.contract == $A0
    //@end
    //@fn decl::CEach::u8_field
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.u8_field })
    //@end
    //@fn decl::CEach::u16_field
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.u16_field })
    //@end
    //@fn decl::CEach::u32_field
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.u32_field })
    //@end
    //@fn decl::CEach::u64_field
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.u64_field })
    //@end
    //@fn decl::CEach::i8_field
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.i8_field })
    //@end
    //@fn decl::CEach::i16_field
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.i16_field })
    //@end
    //@fn decl::CEach::i32_field
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.i32_field })
    //@end
    //@fn decl::CEach::i64_field
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.i64_field })
    //@end
    //@fn decl::CEach::bool_field
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.bool_field })
    //@end
    //@fn decl::CEach::f32_field
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.f32_field })
    //@end
    //@fn decl::CEach::f64_field
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.f64_field })
    //@end
    //@fn decl::CEach::string_field
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.string_field })
    //@end
    //@fn decl::CEach::objecthandle_field
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.objecthandle_field })
    //@end
    //@fn decl::CEach::contractdatahandle_field
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.contractdatahandle_field })
    //@end
}
impl CEach {
    //@fn decl::IChannels@CEach::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 14,
            ret@[0] == crate::stub::tid::<u8>(),
            ret@[1] == crate::stub::tid::<u16>(),
            ret@[2] == crate::stub::tid::<u32>(),
            ret@[3] == crate::stub::tid::<u64>(),
            ret@[4] == crate::stub::tid::<i8>(),
            ret@[5] == crate::stub::tid::<i16>(),
            ret@[6] == crate::stub::tid::<i32>(),
            ret@[7] == crate::stub::tid::<i64>(),
            ret@[8] == crate::stub::tid::<bool>(),
            ret@[9] == crate::stub::tid::<f32>(),
            ret@[10] == crate::stub::tid::<f64>(),
            ret@[11] == crate::stub::tid::<String>(),
            ret@[12] == crate::stub::tid::<ObjectHandle>(),
            ret@[13] == crate::stub::tid::<ContractDataHandle>()
    //@end
    //@fn decl::IChannels@CEach::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 14,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[2] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[3] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[4] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[5] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[6] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[7] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[8] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[9] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[10] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[11] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[12] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[13] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IChannels@CEach::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 14,
            ret@[0] == "u8_field",
            ret@[1] == "u16_field",
            ret@[2] == "u32_field",
            ret@[3] == "u64_field",
            ret@[4] == "i8_field",
            ret@[5] == "i16_field",
            ret@[6] == "i32_field",
            ret@[7] == "i64_field",
            ret@[8] == "bool_field",
            ret@[9] == "f32_field",
            ret@[10] == "f64_field",
            ret@[11] == "string_field",
            ret@[12] == "objecthandle_field",
            ret@[13] == "contractdatahandle_field"
    //@end
}

//@struct decl::CBack
impl CBack {
    //@fn decl::CBack::new
    //@spec
        ensures true,
            ret.z0.idx == 0, ret.z0.contract == $A0,
            ret.z1.idx == 1, ret.z1.contract == $A0,
            ret.z2.idx == 2, ret.z2.contract == $A0,
            ret.z3.idx == 3, ret.z3.contract == $A0,
            ret.z4.idx == 4, ret.z4.contract == $A0,
            ret.z5.idx == 5, ret.z5.contract == $A0,
            ret.z6.idx == 6, ret.z6.contract == $A0,
            ret.z7.idx == 7, ret.z7.contract == $A0,
            ret.z8.idx == 8, ret.z8.contract == $A0,
            ret.z9.idx == 9, ret.z9.contract == $A0,
            ret.z10.idx == 10, ret.z10.contract == $A0,
            ret.z11.idx == 11, ret.z11.contract == $A0,
            ret.z12.idx == 12, ret.z12.contract == $A0,
            ret.z13.idx == 13, ret.z13.contract == $A0
    //@end
    //@fn decl::CBack::z0
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.z0 })
    //@end
    //@fn decl::CBack::z1
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.z1 })
    //@end
    //@fn decl::CBack::z2
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.z2 })
    //@end
    //@fn decl::CBack::z3
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.z3 })
    //@end
    //@fn decl::CBack::z4
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.z4 })
    //@end
    //@fn decl::CBack::z5
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.z5 })
    //@end
    //@fn decl::CBack::z6
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.z6 })
    //@end
    //@fn decl::CBack::z7
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.z7 })
    //@end
    //@fn decl::CBack::z8
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.z8 })
    //@end
    //@fn decl::CBack::z9
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.z9 })
    //@end
    //@fn decl::CBack::z10
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.z10 })
    //@end
    //@fn decl::CBack::z11
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.z11 })
    //@end
    //@fn decl::CBack::z12
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.z12 })
    //@end
    //@fn decl::CBack::z13
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.z13 })
    //@end
}
impl CBack {
    //@fn decl::IChannels@CBack::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 14,
            ret@[0] == crate::stub::tid::<ContractDataHandle>(),
            ret@[1] == crate::stub::tid::<ObjectHandle>(),
            ret@[2] == crate::stub::tid::<String>(),
            ret@[3] == crate::stub::tid::<f64>(),
            ret@[4] == crate::stub::tid::<f32>(),
            ret@[5] == crate::stub::tid::<bool>(),
            ret@[6] == crate::stub::tid::<i64>(),
            ret@[7] == crate::stub::tid::<i32>(),
            ret@[8] == crate::stub::tid::<i16>(),
            ret@[9] == crate::stub::tid::<i8>(),
            ret@[10] == crate::stub::tid::<u64>(),
            ret@[11] == crate::stub::tid::<u32>(),
            ret@[12] == crate::stub::tid::<u16>(),
            ret@[13] == crate::stub::tid::<u8>()
    //@end
    //@fn decl::IChannels@CBack::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 14,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[2] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[3] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[4] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[5] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[6] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[7] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[8] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[9] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[10] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[11] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[12] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[13] == TpPropertyType::Primitive(TpPrimitiveType::U8)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IChannels@CBack::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 14,
            ret@[0] == "z0",
            ret@[1] == "z1",
            ret@[2] == "z2",
            ret@[3] == "z3",
            ret@[4] == "z4",
            ret@[5] == "z5",
            ret@[6] == "z6",
            ret@[7] == "z7",
            ret@[8] == "z8",
            ret@[9] == "z9",
            ret@[10] == "z10",
            ret@[11] == "z11",
            ret@[12] == "z12",
            ret@[13] == "z13"
    //@end
}

//@struct decl::CSame
impl CSame {
    //@fn decl::CSame::new
    //@spec
        ensures true,
            ret.same0.idx == 0, ret.same0.contract == $A0,
            ret.same1.idx == 1, ret.same1.contract == $A0,
            ret.same2.idx == 2, ret.same2.contract == $A0,
            ret.same3.idx == 3, ret.same3.contract == $A0,
            ret.same4.idx == 4, ret.same4.contract == $A0
    //@end
    //@fn decl::CSame::same0
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.same0 })
    //@end
    //@fn decl::CSame::same1
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.same1 })
    //@end
    //@fn decl::CSame::same2
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.same2 })
    //@end
    //@fn decl::CSame::same3
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.same3 })
    //@end
    //@fn decl::CSame::same4
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.same4 })
    //@end
}
impl CSame {
    //@fn decl::IChannels@CSame::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 5,
            ret@[0] == crate::stub::tid::<String>(),
            ret@[1] == crate::stub::tid::<String>(),
            ret@[2] == crate::stub::tid::<String>(),
            ret@[3] == crate::stub::tid::<String>(),
            ret@[4] == crate::stub::tid::<String>()
    //@end
    //@fn decl::IChannels@CSame::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 5,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[2] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[3] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[4] == TpPropertyType::Primitive(TpPrimitiveType::String)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IChannels@CSame::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 5,
            ret@[0] == "same0",
            ret@[1] == "same1",
            ret@[2] == "same2",
            ret@[3] == "same3",
            ret@[4] == "same4"
    //@end
}

//@struct decl::CPairs
impl CPairs {
    //@fn decl::CPairs::new
    //@spec
        ensures true,
            ret.u8_0.idx == 0, ret.u8_0.contract == $A0,
            ret.u8_1.idx == 1, ret.u8_1.contract == $A0,
            ret.i8_0.idx == 2, ret.i8_0.contract == $A0,
            ret.i8_1.idx == 3, ret.i8_1.contract == $A0,
            ret.f32_0.idx == 4, ret.f32_0.contract == $A0,
            ret.f32_1.idx == 5, ret.f32_1.contract == $A0,
            ret.str_0.idx == 6, ret.str_0.contract == $A0,
            ret.oh_0.idx == 7, ret.oh_0.contract == $A0,
            ret.ch_0.idx == 8, ret.ch_0.contract == $A0
    //@end
    //@fn decl::CPairs::u8_0
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.u8_0 })
    //@end
    //@fn decl::CPairs::u8_1
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.u8_1 })
    //@end
    //@fn decl::CPairs::i8_0
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.i8_0 })
    //@end
    //@fn decl::CPairs::i8_1
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.i8_1 })
    //@end
    //@fn decl::CPairs::f32_0
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.f32_0 })
    //@end
    //@fn decl::CPairs::f32_1
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.f32_1 })
    //@end
    //@fn decl::CPairs::str_0
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.str_0 })
    //@end
    //@fn decl::CPairs::oh_0
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.oh_0 })
    //@end
    //@fn decl::CPairs::ch_0
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.ch_0 })
    //@end
}
impl CPairs {
    //@fn decl::IChannels@CPairs::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 9,
            ret@[0] == crate::stub::tid::<u8>(),
            ret@[1] == crate::stub::tid::<u8>(),
            ret@[2] == crate::stub::tid::<i8>(),
            ret@[3] == crate::stub::tid::<i8>(),
            ret@[4] == crate::stub::tid::<f32>(),
            ret@[5] == crate::stub::tid::<f32>(),
            ret@[6] == crate::stub::tid::<String>(),
            ret@[7] == crate::stub::tid::<ObjectHandle>(),
            ret@[8] == crate::stub::tid::<ContractDataHandle>()
    //@end
    //@fn decl::IChannels@CPairs::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 9,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[2] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[3] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[4] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[5] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[6] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[7] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[8] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IChannels@CPairs::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 9,
            ret@[0] == "u8_0",
            ret@[1] == "u8_1",
            ret@[2] == "i8_0",
            ret@[3] == "i8_1",
            ret@[4] == "f32_0",
            ret@[5] == "f32_1",
            ret@[6] == "str_0",
            ret@[7] == "oh_0",
            ret@[8] == "ch_0"
    //@end
}

//@struct decl::CNames
impl CNames {
    //@fn decl::CNames::new
    //@spec
        ensures true,
            ret.id.idx == 0, ret.id.contract == $A0,
            ret.idx.idx == 1, ret.idx.contract == $A0,
            ret.contract.idx == 2, ret.contract.contract == $A0,
            ret.handle.idx == 3, ret.handle.contract == $A0,
            ret.ID.idx == 4, ret.ID.contract == $A0,
            ret._x.idx == 5, ret._x.contract == $A0,
            ret.x.idx == 6, ret.x.contract == $A0,
            ret.x_.idx == 7, ret.x_.contract == $A0,
            ret.XX.idx == 8, ret.XX.contract == $A0,
            ret.types.idx == 9, ret.types.contract == $A0,
            ret.names.idx == 10, ret.names.contract == $A0,
            ret.etats.idx == 11, ret.etats.contract == $A0,
            ret.value.idx == 12, ret.value.contract == $A0,
            ret.state.idx == 13, ret.state.contract == $A0,
            ret.channels.idx == 14, ret.channels.contract == $A0
    //@end
    //@fn decl::CNames::id
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.id })
    //@end
    //@fn decl::CNames::idx
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.idx })
    //@end
    //@fn decl::CNames::contract
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.contract })
    //@end
    //@fn decl::CNames::handle
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.handle })
    //@end
    //@fn decl::CNames::ID
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.ID })
    //@end
    //@fn decl::CNames::_x
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self._x })
    //@end
    //@fn decl::CNames::x
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.x })
    //@end
    //@fn decl::CNames::x_
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.x_ })
    //@end
    //@fn decl::CNames::XX
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.XX })
    //@end
    //@fn decl::CNames::types
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.types })
    //@end
    //@fn decl::CNames::names
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.names })
    //@end
    //@fn decl::CNames::etats
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.etats })
    //@end
    //@fn decl::CNames::value
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.value })
    //@end
    //@fn decl::CNames::state
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.state })
    //@end
    //@fn decl::CNames::channels
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.channels })
    //@end
}
impl CNames {
    //@fn decl::IChannels@CNames::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 15,
            ret@[0] == crate::stub::tid::<u8>(),
            ret@[1] == crate::stub::tid::<bool>(),
            ret@[2] == crate::stub::tid::<i64>(),
            ret@[3] == crate::stub::tid::<u8>(),
            ret@[4] == crate::stub::tid::<u16>(),
            ret@[5] == crate::stub::tid::<i16>(),
            ret@[6] == crate::stub::tid::<i16>(),
            ret@[7] == crate::stub::tid::<i16>(),
            ret@[8] == crate::stub::tid::<f64>(),
            ret@[9] == crate::stub::tid::<u32>(),
            ret@[10] == crate::stub::tid::<String>(),
            ret@[11] == crate::stub::tid::<bool>(),
            ret@[12] == crate::stub::tid::<f32>(),
            ret@[13] == crate::stub::tid::<u8>(),
            ret@[14] == crate::stub::tid::<ObjectHandle>()
    //@end
    //@fn decl::IChannels@CNames::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 15,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[2] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[3] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[4] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[5] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[6] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[7] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[8] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[9] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[10] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[11] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[12] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[13] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[14] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IChannels@CNames::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 15,
            ret@[0] == "id",
            ret@[1] == "idx",
            ret@[2] == "contract",
            ret@[3] == "handle",
            ret@[4] == "ID",
            ret@[5] == "_x",
            ret@[6] == "x",
            ret@[7] == "x_",
            ret@[8] == "XX",
            ret@[9] == "types",
            ret@[10] == "names",
            ret@[11] == "etats",
            ret@[12] == "value",
            ret@[13] == "state",
            ret@[14] == "channels"
    //@end
}

//@struct decl::CWide
impl CWide {
    //@fn decl::CWide::new
    //@spec
        ensures true,
            ret.w000.idx == 0, ret.w000.contract == $A0,
            ret.w001.idx == 1, ret.w001.contract == $A0,
            ret.w002.idx == 2, ret.w002.contract == $A0,
            ret.w003.idx == 3, ret.w003.contract == $A0,
            ret.w004.idx == 4, ret.w004.contract == $A0,
            ret.w005.idx == 5, ret.w005.contract == $A0,
            ret.w006.idx == 6, ret.w006.contract == $A0,
            ret.w007.idx == 7, ret.w007.contract == $A0,
            ret.w008.idx == 8, ret.w008.contract == $A0,
            ret.w009.idx == 9, ret.w009.contract == $A0,
            ret.w010.idx == 10, ret.w010.contract == $A0,
            ret.w011.idx == 11, ret.w011.contract == $A0,
            ret.w012.idx == 12, ret.w012.contract == $A0,
            ret.w013.idx == 13, ret.w013.contract == $A0,
            ret.w014.idx == 14, ret.w014.contract == $A0,
            ret.w015.idx == 15, ret.w015.contract == $A0,
            ret.w016.idx == 16, ret.w016.contract == $A0,
            ret.w017.idx == 17, ret.w017.contract == $A0,
            ret.w018.idx == 18, ret.w018.contract == $A0,
            ret.w019.idx == 19, ret.w019.contract == $A0,
            ret.w020.idx == 20, ret.w020.contract == $A0,
            ret.w021.idx == 21, ret.w021.contract == $A0,
            ret.w022.idx == 22, ret.w022.contract == $A0,
            ret.w023.idx == 23, ret.w023.contract == $A0,
            ret.w024.idx == 24, ret.w024.contract == $A0,
            ret.w025.idx == 25, ret.w025.contract == $A0,
            ret.w026.idx == 26, ret.w026.contract == $A0,
            ret.w027.idx == 27, ret.w027.contract == $A0,
            ret.w028.idx == 28, ret.w028.contract == $A0,
            ret.w029.idx == 29, ret.w029.contract == $A0,
            ret.w030.idx == 30, ret.w030.contract == $A0,
            ret.w031.idx == 31, ret.w031.contract == $A0,
            ret.w032.idx == 32, ret.w032.contract == $A0,
            ret.w033.idx == 33, ret.w033.contract == $A0,
            ret.w034.idx == 34, ret.w034.contract == $A0,
            ret.w035.idx == 35, ret.w035.contract == $A0,
            ret.w036.idx == 36, ret.w036.contract == $A0,
            ret.w037.idx == 37, ret.w037.contract == $A0,
            ret.w038.idx == 38, ret.w038.contract == $A0,
            ret.w039.idx == 39, ret.w039.contract == $A0,
            ret.w040.idx == 40, ret.w040.contract == $A0,
            ret.w041.idx == 41, ret.w041.contract == $A0,
            ret.w042.idx == 42, ret.w042.contract == $A0,
            ret.w043.idx == 43, ret.w043.contract == $A0,
            ret.w044.idx == 44, ret.w044.contract == $A0,
            ret.w045.idx == 45, ret.w045.contract == $A0,
            ret.w046.idx == 46, ret.w046.contract == $A0,
            ret.w047.idx == 47, ret.w047.contract == $A0,
            ret.w048.idx == 48, ret.w048.contract == $A0,
            ret.w049.idx == 49, ret.w049.contract == $A0,
            ret.w050.idx == 50, ret.w050.contract == $A0,
            ret.w051.idx == 51, ret.w051.contract == $A0,
            ret.w052.idx == 52, ret.w052.contract == $A0,
            ret.w053.idx == 53, ret.w053.contract == $A0,
            ret.w054.idx == 54, ret.w054.contract == $A0,
            ret.w055.idx == 55, ret.w055.contract == $A0,
            ret.w056.idx == 56, ret.w056.contract == $A0,
            ret.w057.idx == 57, ret.w057.contract == $A0,
            ret.w058.idx == 58, ret.w058.contract == $A0,
            ret.w059.idx == 59, ret.w059.contract == $A0,
            ret.w060.idx == 60, ret.w060.contract == $A0,
            ret.w061.idx == 61, ret.w061.contract == $A0,
            ret.w062.idx == 62, ret.w062.contract == $A0,
            ret.w063.idx == 63, ret.w063.contract == $A0,
            ret.w064.idx == 64, ret.w064.contract == $A0,
            ret.w065.idx == 65, ret.w065.contract == $A0,
            ret.w066.idx == 66, ret.w066.contract == $A0,
            ret.w067.idx == 67, ret.w067.contract == $A0,
            ret.w068.idx == 68, ret.w068.contract == $A0,
            ret.w069.idx == 69, ret.w069.contract == $A0,
            ret.w070.idx == 70, ret.w070.contract == $A0,
            ret.w071.idx == 71, ret.w071.contract == $A0,
            ret.w072.idx == 72, ret.w072.contract == $A0,
            ret.w073.idx == 73, ret.w073.contract == $A0,
            ret.w074.idx == 74, ret.w074.contract == $A0,
            ret.w075.idx == 75, ret.w075.contract == $A0,
            ret.w076.idx == 76, ret.w076.contract == $A0,
            ret.w077.idx == 77, ret.w077.contract == $A0,
            ret.w078.idx == 78, ret.w078.contract == $A0,
            ret.w079.idx == 79, ret.w079.contract == $A0,
            ret.w080.idx == 80, ret.w080.contract == $A0,
            ret.w081.idx == 81, ret.w081.contract == $A0,
            ret.w082.idx == 82, ret.w082.contract == $A0,
            ret.w083.idx == 83, ret.w083.contract == $A0,
            ret.w084.idx == 84, ret.w084.contract == $A0,
            ret.w085.idx == 85, ret.w085.contract == $A0,
            ret.w086.idx == 86, ret.w086.contract == $A0,
            ret.w087.idx == 87, ret.w087.contract == $A0,
            ret.w088.idx == 88, ret.w088.contract == $A0,
            ret.w089.idx == 89, ret.w089.contract == $A0,
            ret.w090.idx == 90, ret.w090.contract == $A0,
            ret.w091.idx == 91, ret.w091.contract == $A0,
            ret.w092.idx == 92, ret.w092.contract == $A0,
            ret.w093.idx == 93, ret.w093.contract == $A0,
            ret.w094.idx == 94, ret.w094.contract == $A0,
            ret.w095.idx == 95, ret.w095.contract == $A0,
            ret.w096.idx == 96, ret.w096.contract == $A0,
            ret.w097.idx == 97, ret.w097.contract == $A0,
            ret.w098.idx == 98, ret.w098.contract == $A0,
            ret.w099.idx == 99, ret.w099.contract == $A0,
            ret.w100.idx == 100, ret.w100.contract == $A0,
            ret.w101.idx == 101, ret.w101.contract == $A0,
            ret.w102.idx == 102, ret.w102.contract == $A0,
            ret.w103.idx == 103, ret.w103.contract == $A0,
            ret.w104.idx == 104, ret.w104.contract == $A0,
            ret.w105.idx == 105, ret.w105.contract == $A0,
            ret.w106.idx == 106, ret.w106.contract == $A0,
            ret.w107.idx == 107, ret.w107.contract == $A0,
            ret.w108.idx == 108, ret.w108.contract == $A0,
            ret.w109.idx == 109, ret.w109.contract == $A0,
            ret.w110.idx == 110, ret.w110.contract == $A0,
            ret.w111.idx == 111, ret.w111.contract == $A0,
            ret.w112.idx == 112, ret.w112.contract == $A0,
            ret.w113.idx == 113, ret.w113.contract == $A0,
            ret.w114.idx == 114, ret.w114.contract == $A0,
            ret.w115.idx == 115, ret.w115.contract == $A0,
            ret.w116.idx == 116, ret.w116.contract == $A0,
            ret.w117.idx == 117, ret.w117.contract == $A0,
            ret.w118.idx == 118, ret.w118.contract == $A0,
            ret.w119.idx == 119, ret.w119.contract == $A0,
            ret.w120.idx == 120, ret.w120.contract == $A0,
            ret.w121.idx == 121, ret.w121.contract == $A0,
            ret.w122.idx == 122, ret.w122.contract == $A0,
            ret.w123.idx == 123, ret.w123.contract == $A0,
            ret.w124.idx == 124, ret.w124.contract == $A0,
            ret.w125.idx == 125, ret.w125.contract == $A0,
            ret.w126.idx == 126, ret.w126.contract == $A0,
            ret.w127.idx == 127, ret.w127.contract == $A0,
            ret.w128.idx == 128, ret.w128.contract == $A0,
            ret.w129.idx == 129, ret.w129.contract == $A0,
            ret.w130.idx == 130, ret.w130.contract == $A0,
            ret.w131.idx == 131, ret.w131.contract == $A0,
            ret.w132.idx == 132, ret.w132.contract == $A0,
            ret.w133.idx == 133, ret.w133.contract == $A0,
            ret.w134.idx == 134, ret.w134.contract == $A0,
            ret.w135.idx == 135, ret.w135.contract == $A0,
            ret.w136.idx == 136, ret.w136.contract == $A0,
            ret.w137.idx == 137, ret.w137.contract == $A0,
            ret.w138.idx == 138, ret.w138.contract == $A0,
            ret.w139.idx == 139, ret.w139.contract == $A0,
            ret.w140.idx == 140, ret.w140.contract == $A0,
            ret.w141.idx == 141, ret.w141.contract == $A0,
            ret.w142.idx == 142, ret.w142.contract == $A0,
            ret.w143.idx == 143, ret.w143.contract == $A0,
            ret.w144.idx == 144, ret.w144.contract == $A0,
            ret.w145.idx == 145, ret.w145.contract == $A0,
            ret.w146.idx == 146, ret.w146.contract == $A0,
            ret.w147.idx == 147, ret.w147.contract == $A0,
            ret.w148.idx == 148, ret.w148.contract == $A0,
            ret.w149.idx == 149, ret.w149.contract == $A0,
            ret.w150.idx == 150, ret.w150.contract == $A0,
            ret.w151.idx == 151, ret.w151.contract == $A0,
            ret.w152.idx == 152, ret.w152.contract == $A0,
            ret.w153.idx == 153, ret.w153.contract == $A0,
            ret.w154.idx == 154, ret.w154.contract == $A0,
            ret.w155.idx == 155, ret.w155.contract == $A0,
            ret.w156.idx == 156, ret.w156.contract == $A0,
            ret.w157.idx == 157, ret.w157.contract == $A0,
            ret.w158.idx == 158, ret.w158.contract == $A0,
            ret.w159.idx == 159, ret.w159.contract == $A0,
            ret.w160.idx == 160, ret.w160.contract == $A0,
            ret.w161.idx == 161, ret.w161.contract == $A0,
            ret.w162.idx == 162, ret.w162.contract == $A0,
            ret.w163.idx == 163, ret.w163.contract == $A0,
            ret.w164.idx == 164, ret.w164.contract == $A0,
            ret.w165.idx == 165, ret.w165.contract == $A0,
            ret.w166.idx == 166, ret.w166.contract == $A0,
            ret.w167.idx == 167, ret.w167.contract == $A0,
            ret.w168.idx == 168, ret.w168.contract == $A0,
            ret.w169.idx == 169, ret.w169.contract == $A0,
            ret.w170.idx == 170, ret.w170.contract == $A0,
            ret.w171.idx == 171, ret.w171.contract == $A0,
            ret.w172.idx == 172, ret.w172.contract == $A0,
            ret.w173.idx == 173, ret.w173.contract == $A0,
            ret.w174.idx == 174, ret.w174.contract == $A0,
            ret.w175.idx == 175, ret.w175.contract == $A0,
            ret.w176.idx == 176, ret.w176.contract == $A0,
            ret.w177.idx == 177, ret.w177.contract == $A0,
            ret.w178.idx == 178, ret.w178.contract == $A0,
            ret.w179.idx == 179, ret.w179.contract == $A0,
            ret.w180.idx == 180, ret.w180.contract == $A0,
            ret.w181.idx == 181, ret.w181.contract == $A0,
            ret.w182.idx == 182, ret.w182.contract == $A0,
            ret.w183.idx == 183, ret.w183.contract == $A0,
            ret.w184.idx == 184, ret.w184.contract == $A0,
            ret.w185.idx == 185, ret.w185.contract == $A0,
            ret.w186.idx == 186, ret.w186.contract == $A0,
            ret.w187.idx == 187, ret.w187.contract == $A0,
            ret.w188.idx == 188, ret.w188.contract == $A0,
            ret.w189.idx == 189, ret.w189.contract == $A0,
            ret.w190.idx == 190, ret.w190.contract == $A0,
            ret.w191.idx == 191, ret.w191.contract == $A0,
            ret.w192.idx == 192, ret.w192.contract == $A0,
            ret.w193.idx == 193, ret.w193.contract == $A0,
            ret.w194.idx == 194, ret.w194.contract == $A0,
            ret.w195.idx == 195, ret.w195.contract == $A0,
            ret.w196.idx == 196, ret.w196.contract == $A0,
            ret.w197.idx == 197, ret.w197.contract == $A0,
            ret.w198.idx == 198, ret.w198.contract == $A0,
            ret.w199.idx == 199, ret.w199.contract == $A0,
            ret.w200.idx == 200, ret.w200.contract == $A0,
            ret.w201.idx == 201, ret.w201.contract == $A0,
            ret.w202.idx == 202, ret.w202.contract == $A0,
            ret.w203.idx == 203, ret.w203.contract == $A0,
            ret.w204.idx == 204, ret.w204.contract == $A0,
            ret.w205.idx == 205, ret.w205.contract == $A0,
            ret.w206.idx == 206, ret.w206.contract == $A0,
            ret.w207.idx == 207, ret.w207.contract == $A0,
            ret.w208.idx == 208, ret.w208.contract == $A0,
            ret.w209.idx == 209, ret.w209.contract == $A0,
            ret.w210.idx == 210, ret.w210.contract == $A0,
            ret.w211.idx == 211, ret.w211.contract == $A0,
            ret.w212.idx == 212, ret.w212.contract == $A0,
            ret.w213.idx == 213, ret.w213.contract == $A0,
            ret.w214.idx == 214, ret.w214.contract == $A0,
            ret.w215.idx == 215, ret.w215.contract == $A0,
            ret.w216.idx == 216, ret.w216.contract == $A0,
            ret.w217.idx == 217, ret.w217.contract == $A0,
            ret.w218.idx == 218, ret.w218.contract == $A0,
            ret.w219.idx == 219, ret.w219.contract == $A0,
            ret.w220.idx == 220, ret.w220.contract == $A0,
            ret.w221.idx == 221, ret.w221.contract == $A0,
            ret.w222.idx == 222, ret.w222.contract == $A0,
            ret.w223.idx == 223, ret.w223.contract == $A0,
            ret.w224.idx == 224, ret.w224.contract == $A0,
            ret.w225.idx == 225, ret.w225.contract == $A0,
            ret.w226.idx == 226, ret.w226.contract == $A0,
            ret.w227.idx == 227, ret.w227.contract == $A0,
            ret.w228.idx == 228, ret.w228.contract == $A0,
            ret.w229.idx == 229, ret.w229.contract == $A0,
            ret.w230.idx == 230, ret.w230.contract == $A0,
            ret.w231.idx == 231, ret.w231.contract == $A0,
            ret.w232.idx == 232, ret.w232.contract == $A0,
            ret.w233.idx == 233, ret.w233.contract == $A0,
            ret.w234.idx == 234, ret.w234.contract == $A0,
            ret.w235.idx == 235, ret.w235.contract == $A0,
            ret.w236.idx == 236, ret.w236.contract == $A0,
            ret.w237.idx == 237, ret.w237.contract == $A0,
            ret.w238.idx == 238, ret.w238.contract == $A0,
            ret.w239.idx == 239, ret.w239.contract == $A0,
            ret.w240.idx == 240, ret.w240.contract == $A0,
            ret.w241.idx == 241, ret.w241.contract == $A0,
            ret.w242.idx == 242, ret.w242.contract == $A0,
            ret.w243.idx == 243, ret.w243.contract == $A0,
            ret.w244.idx == 244, ret.w244.contract == $A0,
            ret.w245.idx == 245, ret.w245.contract == $A0,
            ret.w246.idx == 246, ret.w246.contract == $A0,
            ret.w247.idx == 247, ret.w247.contract == $A0,
            ret.w248.idx == 248, ret.w248.contract == $A0,
            ret.w249.idx == 249, ret.w249.contract == $A0,
            ret.w250.idx == 250, ret.w250.contract == $A0,
            ret.w251.idx == 251, ret.w251.contract == $A0,
            ret.w252.idx == 252, ret.w252.contract == $A0,
            ret.w253.idx == 253, ret.w253.contract == $A0,
            ret.w254.idx == 254, ret.w254.contract == $A0,
            ret.w255.idx == 255, ret.w255.contract == $A0,
            ret.w256.idx == 256, ret.w256.contract == $A0,
            ret.w257.idx == 257, ret.w257.contract == $A0,
            ret.w258.idx == 258, ret.w258.contract == $A0,
            ret.w259.idx == 259, ret.w259.contract == $A0,
            ret.w260.idx == 260, ret.w260.contract == $A0,
            ret.w261.idx == 261, ret.w261.contract == $A0,
            ret.w262.idx == 262, ret.w262.contract == $A0,
            ret.w263.idx == 263, ret.w263.contract == $A0,
            ret.w264.idx == 264, ret.w264.contract == $A0,
            ret.w265.idx == 265, ret.w265.contract == $A0,
            ret.w266.idx == 266, ret.w266.contract == $A0,
            ret.w267.idx == 267, ret.w267.contract == $A0,
            ret.w268.idx == 268, ret.w268.contract == $A0,
            ret.w269.idx == 269, ret.w269.contract == $A0,
            ret.w270.idx == 270, ret.w270.contract == $A0,
            ret.w271.idx == 271, ret.w271.contract == $A0,
            ret.w272.idx == 272, ret.w272.contract == $A0,
            ret.w273.idx == 273, ret.w273.contract == $A0,
            ret.w274.idx == 274, ret.w274.contract == $A0,
            ret.w275.idx == 275, ret.w275.contract == $A0,
            ret.w276.idx == 276, ret.w276.contract == $A0,
            ret.w277.idx == 277, ret.w277.contract == $A0,
            ret.w278.idx == 278, ret.w278.contract == $A0,
            ret.w279.idx == 279, ret.w279.contract == $A0,
            ret.w280.idx == 280, ret.w280.contract == $A0,
            ret.w281.idx == 281, ret.w281.contract == $A0,
            ret.w282.idx == 282, ret.w282.contract == $A0,
            ret.w283.idx == 283, ret.w283.contract == $A0,
            ret.w284.idx == 284, ret.w284.contract == $A0,
            ret.w285.idx == 285, ret.w285.contract == $A0,
            ret.w286.idx == 286, ret.w286.contract == $A0,
            ret.w287.idx == 287, ret.w287.contract == $A0,
            ret.w288.idx == 288, ret.w288.contract == $A0,
            ret.w289.idx == 289, ret.w289.contract == $A0,
            ret.w290.idx == 290, ret.w290.contract == $A0,
            ret.w291.idx == 291, ret.w291.contract == $A0,
            ret.w292.idx == 292, ret.w292.contract == $A0,
            ret.w293.idx == 293, ret.w293.contract == $A0,
            ret.w294.idx == 294, ret.w294.contract == $A0,
            ret.w295.idx == 295, ret.w295.contract == $A0,
            ret.w296.idx == 296, ret.w296.contract == $A0,
            ret.w297.idx == 297, ret.w297.contract == $A0,
            ret.w298.idx == 298, ret.w298.contract == $A0,
            ret.w299.idx == 299, ret.w299.contract == $A0
    //@end
    //@fn decl::CWide::w000
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w000 })
    //@end
    //@fn decl::CWide::w001
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w001 })
    //@end
    //@fn decl::CWide::w002
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w002 })
    //@end
    //@fn decl::CWide::w003
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w003 })
    //@end
    //@fn decl::CWide::w004
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w004 })
    //@end
    //@fn decl::CWide::w005
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w005 })
    //@end
    //@fn decl::CWide::w006
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w006 })
    //@end
    //@fn decl::CWide::w007
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w007 })
    //@end
    //@fn decl::CWide::w008
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w008 })
    //@end
    //@fn decl::CWide::w009
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w009 })
    //@end
    //@fn decl::CWide::w010
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w010 })
    //@end
    //@fn decl::CWide::w011
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w011 })
    //@end
    //@fn decl::CWide::w012
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w012 })
    //@end
    //@fn decl::CWide::w013
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w013 })
    //@end
    //@fn decl::CWide::w014
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w014 })
    //@end
    //@fn decl::CWide::w015
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w015 })
    //@end
    //@fn decl::CWide::w016
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w016 })
    //@end
    //@fn decl::CWide::w017
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w017 })
    //@end
    //@fn decl::CWide::w018
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w018 })
    //@end
    //@fn decl::CWide::w019
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w019 })
    //@end
    //@fn decl::CWide::w020
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w020 })
    //@end
    //@fn decl::CWide::w021
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w021 })
    //@end
    //@fn decl::CWide::w022
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w022 })
    //@end
    //@fn decl::CWide::w023
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w023 })
    //@end
    //@fn decl::CWide::w024
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w024 })
    //@end
    //@fn decl::CWide::w025
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w025 })
    //@end
    //@fn decl::CWide::w026
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w026 })
    //@end
    //@fn decl::CWide::w027
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w027 })
    //@end
    //@fn decl::CWide::w028
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w028 })
    //@end
    //@fn decl::CWide::w029
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w029 })
    //@end
    //@fn decl::CWide::w030
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w030 })
    //@end
    //@fn decl::CWide::w031
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w031 })
    //@end
    //@fn decl::CWide::w032
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w032 })
    //@end
    //@fn decl::CWide::w033
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w033 })
    //@end
    //@fn decl::CWide::w034
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w034 })
    //@end
    //@fn decl::CWide::w035
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w035 })
    //@end
    //@fn decl::CWide::w036
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w036 })
    //@end
    //@fn decl::CWide::w037
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w037 })
    //@end
    //@fn decl::CWide::w038
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w038 })
    //@end
    //@fn decl::CWide::w039
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w039 })
    //@end
    //@fn decl::CWide::w040
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w040 })
    //@end
    //@fn decl::CWide::w041
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w041 })
    //@end
    //@fn decl::CWide::w042
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w042 })
    //@end
    //@fn decl::CWide::w043
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w043 })
    //@end
    //@fn decl::CWide::w044
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w044 })
    //@end
    //@fn decl::CWide::w045
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w045 })
    //@end
    //@fn decl::CWide::w046
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w046 })
    //@end
    //@fn decl::CWide::w047
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w047 })
    //@end
    //@fn decl::CWide::w048
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w048 })
    //@end
    //@fn decl::CWide::w049
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w049 })
    //@end
    //@fn decl::CWide::w050
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w050 })
    //@end
    //@fn decl::CWide::w051
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w051 })
    //@end
    //@fn decl::CWide::w052
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w052 })
    //@end
    //@fn decl::CWide::w053
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w053 })
    //@end
    //@fn decl::CWide::w054
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w054 })
    //@end
    //@fn decl::CWide::w055
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w055 })
    //@end
    //@fn decl::CWide::w056
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w056 })
    //@end
    //@fn decl::CWide::w057
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w057 })
    //@end
    //@fn decl::CWide::w058
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w058 })
    //@end
    //@fn decl::CWide::w059
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w059 })
    //@end
    //@fn decl::CWide::w060
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w060 })
    //@end
    //@fn decl::CWide::w061
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w061 })
    //@end
    //@fn decl::CWide::w062
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w062 })
    //@end
    //@fn decl::CWide::w063
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w063 })
    //@end
    //@fn decl::CWide::w064
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w064 })
    //@end
    //@fn decl::CWide::w065
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w065 })
    //@end
    //@fn decl::CWide::w066
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w066 })
    //@end
    //@fn decl::CWide::w067
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w067 })
    //@end
    //@fn decl::CWide::w068
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w068 })
    //@end
    //@fn decl::CWide::w069
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w069 })
    //@end
    //@fn decl::CWide::w070
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w070 })
    //@end
    //@fn decl::CWide::w071
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w071 })
    //@end
    //@fn decl::CWide::w072
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w072 })
    //@end
    //@fn decl::CWide::w073
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w073 })
    //@end
    //@fn decl::CWide::w074
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w074 })
    //@end
    //@fn decl::CWide::w075
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w075 })
    //@end
    //@fn decl::CWide::w076
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w076 })
    //@end
    //@fn decl::CWide::w077
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w077 })
    //@end
    //@fn decl::CWide::w078
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w078 })
    //@end
    //@fn decl::CWide::w079
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w079 })
    //@end
    //@fn decl::CWide::w080
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w080 })
    //@end
    //@fn decl::CWide::w081
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w081 })
    //@end
    //@fn decl::CWide::w082
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w082 })
    //@end
    //@fn decl::CWide::w083
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w083 })
    //@end
    //@fn decl::CWide::w084
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w084 })
    //@end
    //@fn decl::CWide::w085
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w085 })
    //@end
    //@fn decl::CWide::w086
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w086 })
    //@end
    //@fn decl::CWide::w087
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w087 })
    //@end
    //@fn decl::CWide::w088
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w088 })
    //@end
    //@fn decl::CWide::w089
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w089 })
    //@end
    //@fn decl::CWide::w090
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w090 })
    //@end
    //@fn decl::CWide::w091
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w091 })
    //@end
    //@fn decl::CWide::w092
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w092 })
    //@end
    //@fn decl::CWide::w093
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w093 })
    //@end
    //@fn decl::CWide::w094
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w094 })
    //@end
    //@fn decl::CWide::w095
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w095 })
    //@end
    //@fn decl::CWide::w096
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w096 })
    //@end
    //@fn decl::CWide::w097
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w097 })
    //@end
    //@fn decl::CWide::w098
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w098 })
    //@end
    //@fn decl::CWide::w099
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w099 })
    //@end
    //@fn decl::CWide::w100
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w100 })
    //@end
    //@fn decl::CWide::w101
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w101 })
    //@end
    //@fn decl::CWide::w102
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w102 })
    //@end
    //@fn decl::CWide::w103
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w103 })
    //@end
    //@fn decl::CWide::w104
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w104 })
    //@end
    //@fn decl::CWide::w105
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w105 })
    //@end
    //@fn decl::CWide::w106
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w106 })
    //@end
    //@fn decl::CWide::w107
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w107 })
    //@end
    //@fn decl::CWide::w108
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w108 })
    //@end
    //@fn decl::CWide::w109
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w109 })
    //@end
    //@fn decl::CWide::w110
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w110 })
    //@end
    //@fn decl::CWide::w111
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w111 })
    //@end
    //@fn decl::CWide::w112
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w112 })
    //@end
    //@fn decl::CWide::w113
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w113 })
    //@end
    //@fn decl::CWide::w114
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w114 })
    //@end
    //@fn decl::CWide::w115
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w115 })
    //@end
    //@fn decl::CWide::w116
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w116 })
    //@end
    //@fn decl::CWide::w117
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w117 })
    //@end
    //@fn decl::CWide::w118
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w118 })
    //@end
    //@fn decl::CWide::w119
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w119 })
    //@end
    //@fn decl::CWide::w120
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w120 })
    //@end
    //@fn decl::CWide::w121
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w121 })
    //@end
    //@fn decl::CWide::w122
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w122 })
    //@end
    //@fn decl::CWide::w123
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w123 })
    //@end
    //@fn decl::CWide::w124
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w124 })
    //@end
    //@fn decl::CWide::w125
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w125 })
    //@end
    //@fn decl::CWide::w126
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w126 })
    //@end
    //@fn decl::CWide::w127
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w127 })
    //@end
    //@fn decl::CWide::w128
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w128 })
    //@end
    //@fn decl::CWide::w129
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w129 })
    //@end
    //@fn decl::CWide::w130
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w130 })
    //@end
    //@fn decl::CWide::w131
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w131 })
    //@end
    //@fn decl::CWide::w132
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w132 })
    //@end
    //@fn decl::CWide::w133
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w133 })
    //@end
    //@fn decl::CWide::w134
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w134 })
    //@end
    //@fn decl::CWide::w135
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w135 })
    //@end
    //@fn decl::CWide::w136
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w136 })
    //@end
    //@fn decl::CWide::w137
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w137 })
    //@end
    //@fn decl::CWide::w138
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w138 })
    //@end
    //@fn decl::CWide::w139
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w139 })
    //@end
    //@fn decl::CWide::w140
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w140 })
    //@end
    //@fn decl::CWide::w141
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w141 })
    //@end
    //@fn decl::CWide::w142
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w142 })
    //@end
    //@fn decl::CWide::w143
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w143 })
    //@end
    //@fn decl::CWide::w144
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w144 })
    //@end
    //@fn decl::CWide::w145
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w145 })
    //@end
    //@fn decl::CWide::w146
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w146 })
    //@end
    //@fn decl::CWide::w147
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w147 })
    //@end
    //@fn decl::CWide::w148
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w148 })
    //@end
    //@fn decl::CWide::w149
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w149 })
    //@end
    //@fn decl::CWide::w150
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w150 })
    //@end
    //@fn decl::CWide::w151
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w151 })
    //@end
    //@fn decl::CWide::w152
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w152 })
    //@end
    //@fn decl::CWide::w153
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w153 })
    //@end
    //@fn decl::CWide::w154
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w154 })
    //@end
    //@fn decl::CWide::w155
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w155 })
    //@end
    //@fn decl::CWide::w156
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w156 })
    //@end
    //@fn decl::CWide::w157
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w157 })
    //@end
    //@fn decl::CWide::w158
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w158 })
    //@end
    //@fn decl::CWide::w159
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w159 })
    //@end
    //@fn decl::CWide::w160
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w160 })
    //@end
    //@fn decl::CWide::w161
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w161 })
    //@end
    //@fn decl::CWide::w162
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w162 })
    //@end
    //@fn decl::CWide::w163
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w163 })
    //@end
    //@fn decl::CWide::w164
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w164 })
    //@end
    //@fn decl::CWide::w165
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w165 })
    //@end
    //@fn decl::CWide::w166
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w166 })
    //@end
    //@fn decl::CWide::w167
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w167 })
    //@end
    //@fn decl::CWide::w168
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w168 })
    //@end
    //@fn decl::CWide::w169
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w169 })
    //@end
    //@fn decl::CWide::w170
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w170 })
    //@end
    //@fn decl::CWide::w171
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w171 })
    //@end
    //@fn decl::CWide::w172
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w172 })
    //@end
    //@fn decl::CWide::w173
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w173 })
    //@end
    //@fn decl::CWide::w174
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w174 })
    //@end
    //@fn decl::CWide::w175
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w175 })
    //@end
    //@fn decl::CWide::w176
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w176 })
    //@end
    //@fn decl::CWide::w177
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w177 })
    //@end
    //@fn decl::CWide::w178
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w178 })
    //@end
    //@fn decl::CWide::w179
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w179 })
    //@end
    //@fn decl::CWide::w180
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w180 })
    //@end
    //@fn decl::CWide::w181
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w181 })
    //@end
    //@fn decl::CWide::w182
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w182 })
    //@end
    //@fn decl::CWide::w183
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w183 })
    //@end
    //@fn decl::CWide::w184
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w184 })
    //@end
    //@fn decl::CWide::w185
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w185 })
    //@end
    //@fn decl::CWide::w186
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w186 })
    //@end
    //@fn decl::CWide::w187
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w187 })
    //@end
    //@fn decl::CWide::w188
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w188 })
    //@end
    //@fn decl::CWide::w189
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w189 })
    //@end
    //@fn decl::CWide::w190
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w190 })
    //@end
    //@fn decl::CWide::w191
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w191 })
    //@end
    //@fn decl::CWide::w192
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w192 })
    //@end
    //@fn decl::CWide::w193
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w193 })
    //@end
    //@fn decl::CWide::w194
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w194 })
    //@end
    //@fn decl::CWide::w195
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w195 })
    //@end
    //@fn decl::CWide::w196
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w196 })
    //@end
    //@fn decl::CWide::w197
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w197 })
    //@end
    //@fn decl::CWide::w198
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w198 })
    //@end
    //@fn decl::CWide::w199
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w199 })
    //@end
    //@fn decl::CWide::w200
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w200 })
    //@end
    //@fn decl::CWide::w201
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w201 })
    //@end
    //@fn decl::CWide::w202
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w202 })
    //@end
    //@fn decl::CWide::w203
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w203 })
    //@end
    //@fn decl::CWide::w204
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w204 })
    //@end
    //@fn decl::CWide::w205
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w205 })
    //@end
    //@fn decl::CWide::w206
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w206 })
    //@end
    //@fn decl::CWide::w207
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w207 })
    //@end
    //@fn decl::CWide::w208
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w208 })
    //@end
    //@fn decl::CWide::w209
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w209 })
    //@end
    //@fn decl::CWide::w210
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w210 })
    //@end
    //@fn decl::CWide::w211
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w211 })
    //@end
    //@fn decl::CWide::w212
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w212 })
    //@end
    //@fn decl::CWide::w213
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w213 })
    //@end
    //@fn decl::CWide::w214
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w214 })
    //@end
    //@fn decl::CWide::w215
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w215 })
    //@end
    //@fn decl::CWide::w216
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w216 })
    //@end
    //@fn decl::CWide::w217
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w217 })
    //@end
    //@fn decl::CWide::w218
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w218 })
    //@end
    //@fn decl::CWide::w219
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w219 })
    //@end
    //@fn decl::CWide::w220
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w220 })
    //@end
    //@fn decl::CWide::w221
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w221 })
    //@end
    //@fn decl::CWide::w222
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w222 })
    //@end
    //@fn decl::CWide::w223
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w223 })
    //@end
    //@fn decl::CWide::w224
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w224 })
    //@end
    //@fn decl::CWide::w225
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w225 })
    //@end
    //@fn decl::CWide::w226
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w226 })
    //@end
    //@fn decl::CWide::w227
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w227 })
    //@end
    //@fn decl::CWide::w228
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w228 })
    //@end
    //@fn decl::CWide::w229
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w229 })
    //@end
    //@fn decl::CWide::w230
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w230 })
    //@end
    //@fn decl::CWide::w231
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w231 })
    //@end
    //@fn decl::CWide::w232
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w232 })
    //@end
    //@fn decl::CWide::w233
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w233 })
    //@end
    //@fn decl::CWide::w234
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w234 })
    //@end
    //@fn decl::CWide::w235
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w235 })
    //@end
    //@fn decl::CWide::w236
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w236 })
    //@end
    //@fn decl::CWide::w237
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w237 })
    //@end
    //@fn decl::CWide::w238
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w238 })
    //@end
    //@fn decl::CWide::w239
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w239 })
    //@end
    //@fn decl::CWide::w240
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w240 })
    //@end
    //@fn decl::CWide::w241
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w241 })
    //@end
    //@fn decl::CWide::w242
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w242 })
    //@end
    //@fn decl::CWide::w243
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w243 })
    //@end
    //@fn decl::CWide::w244
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w244 })
    //@end
    //@fn decl::CWide::w245
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w245 })
    //@end
    //@fn decl::CWide::w246
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w246 })
    //@end
    //@fn decl::CWide::w247
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w247 })
    //@end
    //@fn decl::CWide::w248
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w248 })
    //@end
    //@fn decl::CWide::w249
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w249 })
    //@end
    //@fn decl::CWide::w250
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w250 })
    //@end
    //@fn decl::CWide::w251
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w251 })
    //@end
    //@fn decl::CWide::w252
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w252 })
    //@end
    //@fn decl::CWide::w253
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w253 })
    //@end
    //@fn decl::CWide::w254
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w254 })
    //@end
    //@fn decl::CWide::w255
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w255 })
    //@end
    //@fn decl::CWide::w256
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w256 })
    //@end
    //@fn decl::CWide::w257
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w257 })
    //@end
    //@fn decl::CWide::w258
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w258 })
    //@end
    //@fn decl::CWide::w259
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w259 })
    //@end
    //@fn decl::CWide::w260
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w260 })
    //@end
    //@fn decl::CWide::w261
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w261 })
    //@end
    //@fn decl::CWide::w262
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w262 })
    //@end
    //@fn decl::CWide::w263
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w263 })
    //@end
    //@fn decl::CWide::w264
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w264 })
    //@end
    //@fn decl::CWide::w265
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w265 })
    //@end
    //@fn decl::CWide::w266
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w266 })
    //@end
    //@fn decl::CWide::w267
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w267 })
    //@end
    //@fn decl::CWide::w268
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w268 })
    //@end
    //@fn decl::CWide::w269
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w269 })
    //@end
    //@fn decl::CWide::w270
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w270 })
    //@end
    //@fn decl::CWide::w271
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w271 })
    //@end
    //@fn decl::CWide::w272
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w272 })
    //@end
    //@fn decl::CWide::w273
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w273 })
    //@end
    //@fn decl::CWide::w274
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w274 })
    //@end
    //@fn decl::CWide::w275
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w275 })
    //@end
    //@fn decl::CWide::w276
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w276 })
    //@end
    //@fn decl::CWide::w277
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w277 })
    //@end
    //@fn decl::CWide::w278
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w278 })
    //@end
    //@fn decl::CWide::w279
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w279 })
    //@end
    //@fn decl::CWide::w280
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.w280 })
    //@end
    //@fn decl::CWide::w281
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.w281 })
    //@end
    //@fn decl::CWide::w282
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.w282 })
    //@end
    //@fn decl::CWide::w283
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.w283 })
    //@end
    //@fn decl::CWide::w284
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.w284 })
    //@end
    //@fn decl::CWide::w285
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w285 })
    //@end
    //@fn decl::CWide::w286
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w286 })
    //@end
    //@fn decl::CWide::w287
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w287 })
    //@end
    //@fn decl::CWide::w288
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w288 })
    //@end
    //@fn decl::CWide::w289
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w289 })
    //@end
    //@fn decl::CWide::w290
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w290 })
    //@end
    //@fn decl::CWide::w291
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.w291 })
    //@end
    //@fn decl::CWide::w292
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.w292 })
    //@end
    //@fn decl::CWide::w293
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.w293 })
    //@end
    //@fn decl::CWide::w294
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.w294 })
    //@end
    //@fn decl::CWide::w295
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.w295 })
    //@end
    //@fn decl::CWide::w296
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.w296 })
    //@end
    //@fn decl::CWide::w297
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.w297 })
    //@end
    //@fn decl::CWide::w298
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.w298 })
    //@end
    //@fn decl::CWide::w299
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.w299 })
    //@end
}
impl CWide {
    //@fn decl::IChannels@CWide::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 300,
            ret@[0] == crate::stub::tid::<u8>(),
            ret@[1] == crate::stub::tid::<u64>(),
            ret@[2] == crate::stub::tid::<i32>(),
            ret@[3] == crate::stub::tid::<f32>(),
            ret@[4] == crate::stub::tid::<ObjectHandle>(),
            ret@[5] == crate::stub::tid::<u16>(),
            ret@[6] == crate::stub::tid::<i8>(),
            ret@[7] == crate::stub::tid::<i64>(),
            ret@[8] == crate::stub::tid::<f64>(),
            ret@[9] == crate::stub::tid::<ContractDataHandle>(),
            ret@[10] == crate::stub::tid::<u32>(),
            ret@[11] == crate::stub::tid::<i16>(),
            ret@[12] == crate::stub::tid::<bool>(),
            ret@[13] == crate::stub::tid::<String>(),
            ret@[14] == crate::stub::tid::<u16>(),
            ret@[15] == crate::stub::tid::<i8>(),
            ret@[16] == crate::stub::tid::<i64>(),
            ret@[17] == crate::stub::tid::<f64>(),
            ret@[18] == crate::stub::tid::<ContractDataHandle>(),
            ret@[19] == crate::stub::tid::<u32>(),
            ret@[20] == crate::stub::tid::<i16>(),
            ret@[21] == crate::stub::tid::<bool>(),
            ret@[22] == crate::stub::tid::<String>(),
            ret@[23] == crate::stub::tid::<u8>(),
            ret@[24] == crate::stub::tid::<u64>(),
            ret@[25] == crate::stub::tid::<i32>(),
            ret@[26] == crate::stub::tid::<f32>(),
            ret@[27] == crate::stub::tid::<ObjectHandle>(),
            ret@[28] == crate::stub::tid::<u32>(),
            ret@[29] == crate::stub::tid::<i16>(),
            ret@[30] == crate::stub::tid::<bool>(),
            ret@[31] == crate::stub::tid::<String>(),
            ret@[32] == crate::stub::tid::<u8>(),
            ret@[33] == crate::stub::tid::<u64>(),
            ret@[34] == crate::stub::tid::<i32>(),
            ret@[35] == crate::stub::tid::<f32>(),
            ret@[36] == crate::stub::tid::<ObjectHandle>(),
            ret@[37] == crate::stub::tid::<u16>(),
            ret@[38] == crate::stub::tid::<i8>(),
            ret@[39] == crate::stub::tid::<i64>(),
            ret@[40] == crate::stub::tid::<f64>(),
            ret@[41] == crate::stub::tid::<ContractDataHandle>(),
            ret@[42] == crate::stub::tid::<u64>(),
            ret@[43] == crate::stub::tid::<i32>(),
            ret@[44] == crate::stub::tid::<f32>(),
            ret@[45] == crate::stub::tid::<ObjectHandle>(),
            ret@[46] == crate::stub::tid::<u16>(),
            ret@[47] == crate::stub::tid::<i8>(),
            ret@[48] == crate::stub::tid::<i64>(),
            ret@[49] == crate::stub::tid::<f64>(),
            ret@[50] == crate::stub::tid::<ContractDataHandle>(),
            ret@[51] == crate::stub::tid::<u32>(),
            ret@[52] == crate::stub::tid::<i16>(),
            ret@[53] == crate::stub::tid::<bool>(),
            ret@[54] == crate::stub::tid::<String>(),
            ret@[55] == crate::stub::tid::<u8>(),
            ret@[56] == crate::stub::tid::<i8>(),
            ret@[57] == crate::stub::tid::<i64>(),
            ret@[58] == crate::stub::tid::<f64>(),
            ret@[59] == crate::stub::tid::<ContractDataHandle>(),
            ret@[60] == crate::stub::tid::<u32>(),
            ret@[61] == crate::stub::tid::<i16>(),
            ret@[62] == crate::stub::tid::<bool>(),
            ret@[63] == crate::stub::tid::<String>(),
            ret@[64] == crate::stub::tid::<u8>(),
            ret@[65] == crate::stub::tid::<u64>(),
            ret@[66] == crate::stub::tid::<i32>(),
            ret@[67] == crate::stub::tid::<f32>(),
            ret@[68] == crate::stub::tid::<ObjectHandle>(),
            ret@[69] == crate::stub::tid::<u16>(),
            ret@[70] == crate::stub::tid::<i16>(),
            ret@[71] == crate::stub::tid::<bool>(),
            ret@[72] == crate::stub::tid::<String>(),
            ret@[73] == crate::stub::tid::<u8>(),
            ret@[74] == crate::stub::tid::<u64>(),
            ret@[75] == crate::stub::tid::<i32>(),
            ret@[76] == crate::stub::tid::<f32>(),
            ret@[77] == crate::stub::tid::<ObjectHandle>(),
            ret@[78] == crate::stub::tid::<u16>(),
            ret@[79] == crate::stub::tid::<i8>(),
            ret@[80] == crate::stub::tid::<i64>(),
            ret@[81] == crate::stub::tid::<f64>(),
            ret@[82] == crate::stub::tid::<ContractDataHandle>(),
            ret@[83] == crate::stub::tid::<u32>(),
            ret@[84] == crate::stub::tid::<i32>(),
            ret@[85] == crate::stub::tid::<f32>(),
            ret@[86] == crate::stub::tid::<ObjectHandle>(),
            ret@[87] == crate::stub::tid::<u16>(),
            ret@[88] == crate::stub::tid::<i8>(),
            ret@[89] == crate::stub::tid::<i64>(),
            ret@[90] == crate::stub::tid::<f64>(),
            ret@[91] == crate::stub::tid::<ContractDataHandle>(),
            ret@[92] == crate::stub::tid::<u32>(),
            ret@[93] == crate::stub::tid::<i16>(),
            ret@[94] == crate::stub::tid::<bool>(),
            ret@[95] == crate::stub::tid::<String>(),
            ret@[96] == crate::stub::tid::<u8>(),
            ret@[97] == crate::stub::tid::<u64>(),
            ret@[98] == crate::stub::tid::<i64>(),
            ret@[99] == crate::stub::tid::<f64>(),
            ret@[100] == crate::stub::tid::<ContractDataHandle>(),
            ret@[101] == crate::stub::tid::<u32>(),
            ret@[102] == crate::stub::tid::<i16>(),
            ret@[103] == crate::stub::tid::<bool>(),
            ret@[104] == crate::stub::tid::<String>(),
            ret@[105] == crate::stub::tid::<u8>(),
            ret@[106] == crate::stub::tid::<u64>(),
            ret@[107] == crate::stub::tid::<i32>(),
            ret@[108] == crate::stub::tid::<f32>(),
            ret@[109] == crate::stub::tid::<ObjectHandle>(),
            ret@[110] == crate::stub::tid::<u16>(),
            ret@[111] == crate::stub::tid::<i8>(),
            ret@[112] == crate::stub::tid::<bool>(),
            ret@[113] == crate::stub::tid::<String>(),
            ret@[114] == crate::stub::tid::<u8>(),
            ret@[115] == crate::stub::tid::<u64>(),
            ret@[116] == crate::stub::tid::<i32>(),
            ret@[117] == crate::stub::tid::<f32>(),
            ret@[118] == crate::stub::tid::<ObjectHandle>(),
            ret@[119] == crate::stub::tid::<u16>(),
            ret@[120] == crate::stub::tid::<i8>(),
            ret@[121] == crate::stub::tid::<i64>(),
            ret@[122] == crate::stub::tid::<f64>(),
            ret@[123] == crate::stub::tid::<ContractDataHandle>(),
            ret@[124] == crate::stub::tid::<u32>(),
            ret@[125] == crate::stub::tid::<i16>(),
            ret@[126] == crate::stub::tid::<f32>(),
            ret@[127] == crate::stub::tid::<ObjectHandle>(),
            ret@[128] == crate::stub::tid::<u16>(),
            ret@[129] == crate::stub::tid::<i8>(),
            ret@[130] == crate::stub::tid::<i64>(),
            ret@[131] == crate::stub::tid::<f64>(),
            ret@[132] == crate::stub::tid::<ContractDataHandle>(),
            ret@[133] == crate::stub::tid::<u32>(),
            ret@[134] == crate::stub::tid::<i16>(),
            ret@[135] == crate::stub::tid::<bool>(),
            ret@[136] == crate::stub::tid::<String>(),
            ret@[137] == crate::stub::tid::<u8>(),
            ret@[138] == crate::stub::tid::<u64>(),
            ret@[139] == crate::stub::tid::<i32>(),
            ret@[140] == crate::stub::tid::<f64>(),
            ret@[141] == crate::stub::tid::<ContractDataHandle>(),
            ret@[142] == crate::stub::tid::<u32>(),
            ret@[143] == crate::stub::tid::<i16>(),
            ret@[144] == crate::stub::tid::<bool>(),
            ret@[145] == crate::stub::tid::<String>(),
            ret@[146] == crate::stub::tid::<u8>(),
            ret@[147] == crate::stub::tid::<u64>(),
            ret@[148] == crate::stub::tid::<i32>(),
            ret@[149] == crate::stub::tid::<f32>(),
            ret@[150] == crate::stub::tid::<ObjectHandle>(),
            ret@[151] == crate::stub::tid::<u16>(),
            ret@[152] == crate::stub::tid::<i8>(),
            ret@[153] == crate::stub::tid::<i64>(),
            ret@[154] == crate::stub::tid::<String>(),
            ret@[155] == crate::stub::tid::<u8>(),
            ret@[156] == crate::stub::tid::<u64>(),
            ret@[157] == crate::stub::tid::<i32>(),
            ret@[158] == crate::stub::tid::<f32>(),
            ret@[159] == crate::stub::tid::<ObjectHandle>(),
            ret@[160] == crate::stub::tid::<u16>(),
            ret@[161] == crate::stub::tid::<i8>(),
            ret@[162] == crate::stub::tid::<i64>(),
            ret@[163] == crate::stub::tid::<f64>(),
            ret@[164] == crate::stub::tid::<ContractDataHandle>(),
            ret@[165] == crate::stub::tid::<u32>(),
            ret@[166] == crate::stub::tid::<i16>(),
            ret@[167] == crate::stub::tid::<bool>(),
            ret@[168] == crate::stub::tid::<ObjectHandle>(),
            ret@[169] == crate::stub::tid::<u16>(),
            ret@[170] == crate::stub::tid::<i8>(),
            ret@[171] == crate::stub::tid::<i64>(),
            ret@[172] == crate::stub::tid::<f64>(),
            ret@[173] == crate::stub::tid::<ContractDataHandle>(),
            ret@[174] == crate::stub::tid::<u32>(),
            ret@[175] == crate::stub::tid::<i16>(),
            ret@[176] == crate::stub::tid::<bool>(),
            ret@[177] == crate::stub::tid::<String>(),
            ret@[178] == crate::stub::tid::<u8>(),
            ret@[179] == crate::stub::tid::<u64>(),
            ret@[180] == crate::stub::tid::<i32>(),
            ret@[181] == crate::stub::tid::<f32>(),
            ret@[182] == crate::stub::tid::<ContractDataHandle>(),
            ret@[183] == crate::stub::tid::<u32>(),
            ret@[184] == crate::stub::tid::<i16>(),
            ret@[185] == crate::stub::tid::<bool>(),
            ret@[186] == crate::stub::tid::<String>(),
            ret@[187] == crate::stub::tid::<u8>(),
            ret@[188] == crate::stub::tid::<u64>(),
            ret@[189] == crate::stub::tid::<i32>(),
            ret@[190] == crate::stub::tid::<f32>(),
            ret@[191] == crate::stub::tid::<ObjectHandle>(),
            ret@[192] == crate::stub::tid::<u16>(),
            ret@[193] == crate::stub::tid::<i8>(),
            ret@[194] == crate::stub::tid::<i64>(),
            ret@[195] == crate::stub::tid::<f64>(),
            ret@[196] == crate::stub::tid::<u8>(),
            ret@[197] == crate::stub::tid::<u64>(),
            ret@[198] == crate::stub::tid::<i32>(),
            ret@[199] == crate::stub::tid::<f32>(),
            ret@[200] == crate::stub::tid::<ObjectHandle>(),
            ret@[201] == crate::stub::tid::<u16>(),
            ret@[202] == crate::stub::tid::<i8>(),
            ret@[203] == crate::stub::tid::<i64>(),
            ret@[204] == crate::stub::tid::<f64>(),
            ret@[205] == crate::stub::tid::<ContractDataHandle>(),
            ret@[206] == crate::stub::tid::<u32>(),
            ret@[207] == crate::stub::tid::<i16>(),
            ret@[208] == crate::stub::tid::<bool>(),
            ret@[209] == crate::stub::tid::<String>(),
            ret@[210] == crate::stub::tid::<u16>(),
            ret@[211] == crate::stub::tid::<i8>(),
            ret@[212] == crate::stub::tid::<i64>(),
            ret@[213] == crate::stub::tid::<f64>(),
            ret@[214] == crate::stub::tid::<ContractDataHandle>(),
            ret@[215] == crate::stub::tid::<u32>(),
            ret@[216] == crate::stub::tid::<i16>(),
            ret@[217] == crate::stub::tid::<bool>(),
            ret@[218] == crate::stub::tid::<String>(),
            ret@[219] == crate::stub::tid::<u8>(),
            ret@[220] == crate::stub::tid::<u64>(),
            ret@[221] == crate::stub::tid::<i32>(),
            ret@[222] == crate::stub::tid::<f32>(),
            ret@[223] == crate::stub::tid::<ObjectHandle>(),
            ret@[224] == crate::stub::tid::<u32>(),
            ret@[225] == crate::stub::tid::<i16>(),
            ret@[226] == crate::stub::tid::<bool>(),
            ret@[227] == crate::stub::tid::<String>(),
            ret@[228] == crate::stub::tid::<u8>(),
            ret@[229] == crate::stub::tid::<u64>(),
            ret@[230] == crate::stub::tid::<i32>(),
            ret@[231] == crate::stub::tid::<f32>(),
            ret@[232] == crate::stub::tid::<ObjectHandle>(),
            ret@[233] == crate::stub::tid::<u16>(),
            ret@[234] == crate::stub::tid::<i8>(),
            ret@[235] == crate::stub::tid::<i64>(),
            ret@[236] == crate::stub::tid::<f64>(),
            ret@[237] == crate::stub::tid::<ContractDataHandle>(),
            ret@[238] == crate::stub::tid::<u64>(),
            ret@[239] == crate::stub::tid::<i32>(),
            ret@[240] == crate::stub::tid::<f32>(),
            ret@[241] == crate::stub::tid::<ObjectHandle>(),
            ret@[242] == crate::stub::tid::<u16>(),
            ret@[243] == crate::stub::tid::<i8>(),
            ret@[244] == crate::stub::tid::<i64>(),
            ret@[245] == crate::stub::tid::<f64>(),
            ret@[246] == crate::stub::tid::<ContractDataHandle>(),
            ret@[247] == crate::stub::tid::<u32>(),
            ret@[248] == crate::stub::tid::<i16>(),
            ret@[249] == crate::stub::tid::<bool>(),
            ret@[250] == crate::stub::tid::<String>(),
            ret@[251] == crate::stub::tid::<u8>(),
            ret@[252] == crate::stub::tid::<i8>(),
            ret@[253] == crate::stub::tid::<i64>(),
            ret@[254] == crate::stub::tid::<f64>(),
            ret@[255] == crate::stub::tid::<ContractDataHandle>(),
            ret@[256] == crate::stub::tid::<u32>(),
            ret@[257] == crate::stub::tid::<i16>(),
            ret@[258] == crate::stub::tid::<bool>(),
            ret@[259] == crate::stub::tid::<String>(),
            ret@[260] == crate::stub::tid::<u8>(),
            ret@[261] == crate::stub::tid::<u64>(),
            ret@[262] == crate::stub::tid::<i32>(),
            ret@[263] == crate::stub::tid::<f32>(),
            ret@[264] == crate::stub::tid::<ObjectHandle>(),
            ret@[265] == crate::stub::tid::<u16>(),
            ret@[266] == crate::stub::tid::<i16>(),
            ret@[267] == crate::stub::tid::<bool>(),
            ret@[268] == crate::stub::tid::<String>(),
            ret@[269] == crate::stub::tid::<u8>(),
            ret@[270] == crate::stub::tid::<u64>(),
            ret@[271] == crate::stub::tid::<i32>(),
            ret@[272] == crate::stub::tid::<f32>(),
            ret@[273] == crate::stub::tid::<ObjectHandle>(),
            ret@[274] == crate::stub::tid::<u16>(),
            ret@[275] == crate::stub::tid::<i8>(),
            ret@[276] == crate::stub::tid::<i64>(),
            ret@[277] == crate::stub::tid::<f64>(),
            ret@[278] == crate::stub::tid::<ContractDataHandle>(),
            ret@[279] == crate::stub::tid::<u32>(),
            ret@[280] == crate::stub::tid::<i32>(),
            ret@[281] == crate::stub::tid::<f32>(),
            ret@[282] == crate::stub::tid::<ObjectHandle>(),
            ret@[283] == crate::stub::tid::<u16>(),
            ret@[284] == crate::stub::tid::<i8>(),
            ret@[285] == crate::stub::tid::<i64>(),
            ret@[286] == crate::stub::tid::<f64>(),
            ret@[287] == crate::stub::tid::<ContractDataHandle>(),
            ret@[288] == crate::stub::tid::<u32>(),
            ret@[289] == crate::stub::tid::<i16>(),
            ret@[290] == crate::stub::tid::<bool>(),
            ret@[291] == crate::stub::tid::<String>(),
            ret@[292] == crate::stub::tid::<u8>(),
            ret@[293] == crate::stub::tid::<u64>(),
            ret@[294] == crate::stub::tid::<i64>(),
            ret@[295] == crate::stub::tid::<f64>(),
            ret@[296] == crate::stub::tid::<ContractDataHandle>(),
            ret@[297] == crate::stub::tid::<u32>(),
            ret@[298] == crate::stub::tid::<i16>(),
            ret@[299] == crate::stub::tid::<bool>()
    //@end
    //@fn decl::IChannels@CWide::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 300,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[2] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[3] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[4] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[5] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[6] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[7] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[8] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[9] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[10] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[11] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[12] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[13] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[14] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[15] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[16] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[17] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[18] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[19] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[20] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[21] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[22] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[23] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[24] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[25] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[26] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[27] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[28] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[29] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[30] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[31] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[32] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[33] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[34] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[35] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[36] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[37] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[38] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[39] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[40] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[41] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[42] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[43] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[44] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[45] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[46] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[47] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[48] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[49] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[50] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[51] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[52] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[53] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[54] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[55] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[56] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[57] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[58] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[59] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[60] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[61] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[62] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[63] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[64] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[65] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[66] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[67] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[68] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[69] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[70] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[71] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[72] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[73] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[74] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[75] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[76] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[77] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[78] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[79] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[80] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[81] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[82] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[83] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[84] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[85] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[86] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[87] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[88] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[89] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[90] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[91] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[92] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[93] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[94] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[95] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[96] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[97] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[98] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[99] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[100] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[101] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[102] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[103] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[104] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[105] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[106] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[107] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[108] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[109] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[110] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[111] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[112] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[113] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[114] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[115] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[116] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[117] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[118] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[119] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[120] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[121] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[122] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[123] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[124] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[125] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[126] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[127] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[128] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[129] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[130] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[131] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[132] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[133] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[134] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[135] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[136] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[137] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[138] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[139] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[140] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[141] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[142] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[143] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[144] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[145] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[146] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[147] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[148] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[149] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[150] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[151] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[152] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[153] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[154] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[155] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[156] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[157] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[158] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[159] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[160] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[161] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[162] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[163] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[164] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[165] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[166] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[167] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[168] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[169] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[170] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[171] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[172] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[173] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[174] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[175] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[176] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[177] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[178] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[179] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[180] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[181] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[182] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[183] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[184] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[185] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[186] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[187] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[188] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[189] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[190] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[191] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[192] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[193] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[194] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[195] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[196] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[197] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[198] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[199] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[200] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[201] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[202] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[203] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[204] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[205] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[206] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[207] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[208] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[209] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[210] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[211] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[212] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[213] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[214] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[215] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[216] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[217] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[218] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[219] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[220] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[221] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[222] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[223] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[224] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[225] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[226] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[227] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[228] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[229] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[230] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[231] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[232] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[233] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[234] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[235] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[236] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[237] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[238] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[239] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[240] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[241] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[242] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[243] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[244] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[245] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[246] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[247] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[248] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[249] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[250] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[251] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[252] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[253] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[254] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[255] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[256] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[257] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[258] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[259] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[260] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[261] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[262] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[263] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[264] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[265] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[266] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[267] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[268] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[269] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[270] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[271] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[272] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[273] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[274] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[275] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[276] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[277] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[278] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[279] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[280] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[281] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[282] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[283] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[284] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[285] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[286] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[287] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[288] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[289] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[290] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[291] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[292] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[293] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[294] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[295] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[296] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[297] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[298] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[299] == TpPropertyType::Primitive(TpPrimitiveType::Bool)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IChannels@CWide::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 300,
            ret@[0] == "w000",
            ret@[1] == "w001",
            ret@[2] == "w002",
            ret@[3] == "w003",
            ret@[4] == "w004",
            ret@[5] == "w005",
            ret@[6] == "w006",
            ret@[7] == "w007",
            ret@[8] == "w008",
            ret@[9] == "w009",
            ret@[10] == "w010",
            ret@[11] == "w011",
            ret@[12] == "w012",
            ret@[13] == "w013",
            ret@[14] == "w014",
            ret@[15] == "w015",
            ret@[16] == "w016",
            ret@[17] == "w017",
            ret@[18] == "w018",
            ret@[19] == "w019",
            ret@[20] == "w020",
            ret@[21] == "w021",
            ret@[22] == "w022",
            ret@[23] == "w023",
            ret@[24] == "w024",
            ret@[25] == "w025",
            ret@[26] == "w026",
            ret@[27] == "w027",
            ret@[28] == "w028",
            ret@[29] == "w029",
            ret@[30] == "w030",
            ret@[31] == "w031",
            ret@[32] == "w032",
            ret@[33] == "w033",
            ret@[34] == "w034",
            ret@[35] == "w035",
            ret@[36] == "w036",
            ret@[37] == "w037",
            ret@[38] == "w038",
            ret@[39] == "w039",
            ret@[40] == "w040",
            ret@[41] == "w041",
            ret@[42] == "w042",
            ret@[43] == "w043",
            ret@[44] == "w044",
            ret@[45] == "w045",
            ret@[46] == "w046",
            ret@[47] == "w047",
            ret@[48] == "w048",
            ret@[49] == "w049",
            ret@[50] == "w050",
            ret@[51] == "w051",
            ret@[52] == "w052",
            ret@[53] == "w053",
            ret@[54] == "w054",
            ret@[55] == "w055",
            ret@[56] == "w056",
            ret@[57] == "w057",
            ret@[58] == "w058",
            ret@[59] == "w059",
            ret@[60] == "w060",
            ret@[61] == "w061",
            ret@[62] == "w062",
            ret@[63] == "w063",
            ret@[64] == "w064",
            ret@[65] == "w065",
            ret@[66] == "w066",
            ret@[67] == "w067",
            ret@[68] == "w068",
            ret@[69] == "w069",
            ret@[70] == "w070",
            ret@[71] == "w071",
            ret@[72] == "w072",
            ret@[73] == "w073",
            ret@[74] == "w074",
            ret@[75] == "w075",
            ret@[76] == "w076",
            ret@[77] == "w077",
            ret@[78] == "w078",
            ret@[79] == "w079",
            ret@[80] == "w080",
            ret@[81] == "w081",
            ret@[82] == "w082",
            ret@[83] == "w083",
            ret@[84] == "w084",
            ret@[85] == "w085",
            ret@[86] == "w086",
            ret@[87] == "w087",
            ret@[88] == "w088",
            ret@[89] == "w089",
            ret@[90] == "w090",
            ret@[91] == "w091",
            ret@[92] == "w092",
            ret@[93] == "w093",
            ret@[94] == "w094",
            ret@[95] == "w095",
            ret@[96] == "w096",
            ret@[97] == "w097",
            ret@[98] == "w098",
            ret@[99] == "w099",
            ret@[100] == "w100",
            ret@[101] == "w101",
            ret@[102] == "w102",
            ret@[103] == "w103",
            ret@[104] == "w104",
            ret@[105] == "w105",
            ret@[106] == "w106",
            ret@[107] == "w107",
            ret@[108] == "w108",
            ret@[109] == "w109",
            ret@[110] == "w110",
            ret@[111] == "w111",
            ret@[112] == "w112",
            ret@[113] == "w113",
            ret@[114] == "w114",
            ret@[115] == "w115",
            ret@[116] == "w116",
            ret@[117] == "w117",
            ret@[118] == "w118",
            ret@[119] == "w119",
            ret@[120] == "w120",
            ret@[121] == "w121",
            ret@[122] == "w122",
            ret@[123] == "w123",
            ret@[124] == "w124",
            ret@[125] == "w125",
            ret@[126] == "w126",
            ret@[127] == "w127",
            ret@[128] == "w128",
            ret@[129] == "w129",
            ret@[130] == "w130",
            ret@[131] == "w131",
            ret@[132] == "w132",
            ret@[133] == "w133",
            ret@[134] == "w134",
            ret@[135] == "w135",
            ret@[136] == "w136",
            ret@[137] == "w137",
            ret@[138] == "w138",
            ret@[139] == "w139",
            ret@[140] == "w140",
            ret@[141] == "w141",
            ret@[142] == "w142",
            ret@[143] == "w143",
            ret@[144] == "w144",
            ret@[145] == "w145",
            ret@[146] == "w146",
            ret@[147] == "w147",
            ret@[148] == "w148",
            ret@[149] == "w149",
            ret@[150] == "w150",
            ret@[151] == "w151",
            ret@[152] == "w152",
            ret@[153] == "w153",
            ret@[154] == "w154",
            ret@[155] == "w155",
            ret@[156] == "w156",
            ret@[157] == "w157",
            ret@[158] == "w158",
            ret@[159] == "w159",
            ret@[160] == "w160",
            ret@[161] == "w161",
            ret@[162] == "w162",
            ret@[163] == "w163",
            ret@[164] == "w164",
            ret@[165] == "w165",
            ret@[166] == "w166",
            ret@[167] == "w167",
            ret@[168] == "w168",
            ret@[169] == "w169",
            ret@[170] == "w170",
            ret@[171] == "w171",
            ret@[172] == "w172",
            ret@[173] == "w173",
            ret@[174] == "w174",
            ret@[175] == "w175",
            ret@[176] == "w176",
            ret@[177] == "w177",
            ret@[178] == "w178",
            ret@[179] == "w179",
            ret@[180] == "w180",
            ret@[181] == "w181",
            ret@[182] == "w182",
            ret@[183] == "w183",
            ret@[184] == "w184",
            ret@[185] == "w185",
            ret@[186] == "w186",
            ret@[187] == "w187",
            ret@[188] == "w188",
            ret@[189] == "w189",
            ret@[190] == "w190",
            ret@[191] == "w191",
            ret@[192] == "w192",
            ret@[193] == "w193",
            ret@[194] == "w194",
            ret@[195] == "w195",
            ret@[196] == "w196",
            ret@[197] == "w197",
            ret@[198] == "w198",
            ret@[199] == "w199",
            ret@[200] == "w200",
            ret@[201] == "w201",
            ret@[202] == "w202",
            ret@[203] == "w203",
            ret@[204] == "w204",
            ret@[205] == "w205",
            ret@[206] == "w206",
            ret@[207] == "w207",
            ret@[208] == "w208",
            ret@[209] == "w209",
            ret@[210] == "w210",
            ret@[211] == "w211",
            ret@[212] == "w212",
            ret@[213] == "w213",
            ret@[214] == "w214",
            ret@[215] == "w215",
            ret@[216] == "w216",
            ret@[217] == "w217",
            ret@[218] == "w218",
            ret@[219] == "w219",
            ret@[220] == "w220",
            ret@[221] == "w221",
            ret@[222] == "w222",
            ret@[223] == "w223",
            ret@[224] == "w224",
            ret@[225] == "w225",
            ret@[226] == "w226",
            ret@[227] == "w227",
            ret@[228] == "w228",
            ret@[229] == "w229",
            ret@[230] == "w230",
            ret@[231] == "w231",
            ret@[232] == "w232",
            ret@[233] == "w233",
            ret@[234] == "w234",
            ret@[235] == "w235",
            ret@[236] == "w236",
            ret@[237] == "w237",
            ret@[238] == "w238",
            ret@[239] == "w239",
            ret@[240] == "w240",
            ret@[241] == "w241",
            ret@[242] == "w242",
            ret@[243] == "w243",
            ret@[244] == "w244",
            ret@[245] == "w245",
            ret@[246] == "w246",
            ret@[247] == "w247",
            ret@[248] == "w248",
            ret@[249] == "w249",
            ret@[250] == "w250",
            ret@[251] == "w251",
            ret@[252] == "w252",
            ret@[253] == "w253",
            ret@[254] == "w254",
            ret@[255] == "w255",
            ret@[256] == "w256",
            ret@[257] == "w257",
            ret@[258] == "w258",
            ret@[259] == "w259",
            ret@[260] == "w260",
            ret@[261] == "w261",
            ret@[262] == "w262",
            ret@[263] == "w263",
            ret@[264] == "w264",
            ret@[265] == "w265",
            ret@[266] == "w266",
            ret@[267] == "w267",
            ret@[268] == "w268",
            ret@[269] == "w269",
            ret@[270] == "w270",
            ret@[271] == "w271",
            ret@[272] == "w272",
            ret@[273] == "w273",
            ret@[274] == "w274",
            ret@[275] == "w275",
            ret@[276] == "w276",
            ret@[277] == "w277",
            ret@[278] == "w278",
            ret@[279] == "w279",
            ret@[280] == "w280",
            ret@[281] == "w281",
            ret@[282] == "w282",
            ret@[283] == "w283",
            ret@[284] == "w284",
            ret@[285] == "w285",
            ret@[286] == "w286",
            ret@[287] == "w287",
            ret@[288] == "w288",
            ret@[289] == "w289",
            ret@[290] == "w290",
            ret@[291] == "w291",
            ret@[292] == "w292",
            ret@[293] == "w293",
            ret@[294] == "w294",
            ret@[295] == "w295",
            ret@[296] == "w296",
            ret@[297] == "w297",
            ret@[298] == "w298",
            ret@[299] == "w299"
    //@end
}

//@struct decl::CMany
impl CMany {
    //@fn decl::CMany::new
    //@spec
        ensures true,
            ret.m00.idx == 0, ret.m00.contract == $A0,
            ret.m01.idx == 1, ret.m01.contract == $A0,
            ret.m02.idx == 2, ret.m02.contract == $A0,
            ret.m03.idx == 3, ret.m03.contract == $A0,
            ret.m04.idx == 4, ret.m04.contract == $A0,
            ret.m05.idx == 5, ret.m05.contract == $A0,
            ret.m06.idx == 6, ret.m06.contract == $A0,
            ret.m07.idx == 7, ret.m07.contract == $A0,
            ret.m08.idx == 8, ret.m08.contract == $A0,
            ret.m09.idx == 9, ret.m09.contract == $A0,
            ret.m10.idx == 10, ret.m10.contract == $A0,
            ret.m11.idx == 11, ret.m11.contract == $A0,
            ret.m12.idx == 12, ret.m12.contract == $A0,
            ret.m13.idx == 13, ret.m13.contract == $A0,
            ret.m14.idx == 14, ret.m14.contract == $A0,
            ret.m15.idx == 15, ret.m15.contract == $A0,
            ret.m16.idx == 16, ret.m16.contract == $A0,
            ret.m17.idx == 17, ret.m17.contract == $A0,
            ret.m18.idx == 18, ret.m18.contract == $A0,
            ret.m19.idx == 19, ret.m19.contract == $A0,
            ret.m20.idx == 20, ret.m20.contract == $A0,
            ret.m21.idx == 21, ret.m21.contract == $A0,
            ret.m22.idx == 22, ret.m22.contract == $A0,
            ret.m23.idx == 23, ret.m23.contract == $A0,
            ret.m24.idx == 24, ret.m24.contract == $A0,
            ret.m25.idx == 25, ret.m25.contract == $A0,
            ret.m26.idx == 26, ret.m26.contract == $A0,
            ret.m27.idx == 27, ret.m27.contract == $A0,
            ret.m28.idx == 28, ret.m28.contract == $A0,
            ret.m29.idx == 29, ret.m29.contract == $A0,
            ret.m30.idx == 30, ret.m30.contract == $A0,
            ret.m31.idx == 31, ret.m31.contract == $A0,
            ret.m32.idx == 32, ret.m32.contract == $A0,
            ret.m33.idx == 33, ret.m33.contract == $A0,
            ret.m34.idx == 34, ret.m34.contract == $A0,
            ret.m35.idx == 35, ret.m35.contract == $A0,
            ret.m36.idx == 36, ret.m36.contract == $A0,
            ret.m37.idx == 37, ret.m37.contract == $A0,
            ret.m38.idx == 38, ret.m38.contract == $A0,
            ret.m39.idx == 39, ret.m39.contract == $A0,
            ret.m40.idx == 40, ret.m40.contract == $A0,
            ret.m41.idx == 41, ret.m41.contract == $A0,
            ret.m42.idx == 42, ret.m42.contract == $A0,
            ret.m43.idx == 43, ret.m43.contract == $A0,
            ret.m44.idx == 44, ret.m44.contract == $A0,
            ret.m45.idx == 45, ret.m45.contract == $A0,
            ret.m46.idx == 46, ret.m46.contract == $A0,
            ret.m47.idx == 47, ret.m47.contract == $A0,
            ret.m48.idx == 48, ret.m48.contract == $A0,
            ret.m49.idx == 49, ret.m49.contract == $A0,
            ret.m50.idx == 50, ret.m50.contract == $A0,
            ret.m51.idx == 51, ret.m51.contract == $A0,
            ret.m52.idx == 52, ret.m52.contract == $A0,
            ret.m53.idx == 53, ret.m53.contract == $A0,
            ret.m54.idx == 54, ret.m54.contract == $A0,
            ret.m55.idx == 55, ret.m55.contract == $A0,
            ret.m56.idx == 56, ret.m56.contract == $A0,
            ret.m57.idx == 57, ret.m57.contract == $A0,
            ret.m58.idx == 58, ret.m58.contract == $A0,
            ret.m59.idx == 59, ret.m59.contract == $A0,
            ret.m60.idx == 60, ret.m60.contract == $A0,
            ret.m61.idx == 61, ret.m61.contract == $A0,
            ret.m62.idx == 62, ret.m62.contract == $A0,
            ret.m63.idx == 63, ret.m63.contract == $A0,
            ret.m64.idx == 64, ret.m64.contract == $A0,
            ret.m65.idx == 65, ret.m65.contract == $A0,
            ret.m66.idx == 66, ret.m66.contract == $A0,
            ret.m67.idx == 67, ret.m67.contract == $A0,
            ret.m68.idx == 68, ret.m68.contract == $A0,
            ret.m69.idx == 69, ret.m69.contract == $A0
    //@end
    //@fn decl::CMany::m00
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.m00 })
    //@end
    //@fn decl::CMany::m01
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.m01 })
    //@end
    //@fn decl::CMany::m02
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.m02 })
    //@end
    //@fn decl::CMany::m03
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.m03 })
    //@end
    //@fn decl::CMany::m04
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.m04 })
    //@end
    //@fn decl::CMany::m05
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.m05 })
    //@end
    //@fn decl::CMany::m06
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.m06 })
    //@end
    //@fn decl::CMany::m07
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.m07 })
    //@end
    //@fn decl::CMany::m08
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.m08 })
    //@end
    //@fn decl::CMany::m09
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.m09 })
    //@end
    //@fn decl::CMany::m10
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.m10 })
    //@end
    //@fn decl::CMany::m11
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.m11 })
    //@end
    //@fn decl::CMany::m12
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.m12 })
    //@end
    //@fn decl::CMany::m13
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.m13 })
    //@end
    //@fn decl::CMany::m14
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.m14 })
    //@end
    //@fn decl::CMany::m15
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.m15 })
    //@end
    //@fn decl::CMany::m16
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.m16 })
    //@end
    //@fn decl::CMany::m17
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.m17 })
    //@end
    //@fn decl::CMany::m18
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.m18 })
    //@end
    //@fn decl::CMany::m19
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.m19 })
    //@end
    //@fn decl::CMany::m20
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.m20 })
    //@end
    //@fn decl::CMany::m21
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.m21 })
    //@end
    //@fn decl::CMany::m22
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.m22 })
    //@end
    //@fn decl::CMany::m23
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.m23 })
    //@end
    //@fn decl::CMany::m24
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.m24 })
    //@end
    //@fn decl::CMany::m25
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.m25 })
    //@end
    //@fn decl::CMany::m26
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.m26 })
    //@end
    //@fn decl::CMany::m27
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.m27 })
    //@end
    //@fn decl::CMany::m28
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.m28 })
    //@end
    //@fn decl::CMany::m29
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.m29 })
    //@end
    //@fn decl::CMany::m30
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.m30 })
    //@end
    //@fn decl::CMany::m31
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.m31 })
    //@end
    //@fn decl::CMany::m32
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.m32 })
    //@end
    //@fn decl::CMany::m33
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.m33 })
    //@end
    //@fn decl::CMany::m34
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.m34 })
    //@end
    //@fn decl::CMany::m35
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.m35 })
    //@end
    //@fn decl::CMany::m36
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.m36 })
    //@end
    //@fn decl::CMany::m37
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.m37 })
    //@end
    //@fn decl::CMany::m38
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.m38 })
    //@end
    //@fn decl::CMany::m39
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.m39 })
    //@end
    //@fn decl::CMany::m40
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.m40 })
    //@end
    //@fn decl::CMany::m41
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.m41 })
    //@end
    //@fn decl::CMany::m42
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.m42 })
    //@end
    //@fn decl::CMany::m43
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.m43 })
    //@end
    //@fn decl::CMany::m44
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.m44 })
    //@end
    //@fn decl::CMany::m45
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.m45 })
    //@end
    //@fn decl::CMany::m46
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.m46 })
    //@end
    //@fn decl::CMany::m47
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.m47 })
    //@end
    //@fn decl::CMany::m48
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.m48 })
    //@end
    //@fn decl::CMany::m49
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.m49 })
    //@end
    //@fn decl::CMany::m50
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.m50 })
    //@end
    //@fn decl::CMany::m51
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.m51 })
    //@end
    //@fn decl::CMany::m52
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.m52 })
    //@end
    //@fn decl::CMany::m53
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.m53 })
    //@end
    //@fn decl::CMany::m54
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.m54 })
    //@end
    //@fn decl::CMany::m55
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.m55 })
    //@end
    //@fn decl::CMany::m56
    //@spec
        ensures ({ let x: ChannelId<i8> = ret; x == self.m56 })
    //@end
    //@fn decl::CMany::m57
    //@spec
        ensures ({ let x: ChannelId<f32> = ret; x == self.m57 })
    //@end
    //@fn decl::CMany::m58
    //@spec
        ensures ({ let x: ChannelId<u8> = ret; x == self.m58 })
    //@end
    //@fn decl::CMany::m59
    //@spec
        ensures ({ let x: ChannelId<i16> = ret; x == self.m59 })
    //@end
    //@fn decl::CMany::m60
    //@spec
        ensures ({ let x: ChannelId<f64> = ret; x == self.m60 })
    //@end
    //@fn decl::CMany::m61
    //@spec
        ensures ({ let x: ChannelId<u16> = ret; x == self.m61 })
    //@end
    //@fn decl::CMany::m62
    //@spec
        ensures ({ let x: ChannelId<i32> = ret; x == self.m62 })
    //@end
    //@fn decl::CMany::m63
    //@spec
        ensures ({ let x: ChannelId<String> = ret; x == self.m63 })
    //@end
    //@fn decl::CMany::m64
    //@spec
        ensures ({ let x: ChannelId<u32> = ret; x == self.m64 })
    //@end
    //@fn decl::CMany::m65
    //@spec
        ensures ({ let x: ChannelId<i64> = ret; x == self.m65 })
    //@end
    //@fn decl::CMany::m66
    //@spec
        ensures ({ let x: ChannelId<ObjectHandle> = ret; x == self.m66 })
    //@end
    //@fn decl::CMany::m67
    //@spec
        ensures ({ let x: ChannelId<u64> = ret; x == self.m67 })
    //@end
    //@fn decl::CMany::m68
    //@spec
        ensures ({ let x: ChannelId<bool> = ret; x == self.m68 })
    //@end
    //@fn decl::CMany::m69
    //@spec
        ensures ({ let x: ChannelId<ContractDataHandle> = ret; x == self.m69 })
    //@end
}
impl CMany {
    //@fn decl::IChannels@CMany::type_ids
    //@lazy
    //@spec
        ensures ret@.len() == 70,
            ret@[0] == crate::stub::tid::<u8>(),
            ret@[1] == crate::stub::tid::<i16>(),
            ret@[2] == crate::stub::tid::<f64>(),
            ret@[3] == crate::stub::tid::<u16>(),
            ret@[4] == crate::stub::tid::<i32>(),
            ret@[5] == crate::stub::tid::<String>(),
            ret@[6] == crate::stub::tid::<u32>(),
            ret@[7] == crate::stub::tid::<i64>(),
            ret@[8] == crate::stub::tid::<ObjectHandle>(),
            ret@[9] == crate::stub::tid::<u64>(),
            ret@[10] == crate::stub::tid::<bool>(),
            ret@[11] == crate::stub::tid::<ContractDataHandle>(),
            ret@[12] == crate::stub::tid::<i8>(),
            ret@[13] == crate::stub::tid::<f32>(),
            ret@[14] == crate::stub::tid::<u16>(),
            ret@[15] == crate::stub::tid::<i32>(),
            ret@[16] == crate::stub::tid::<String>(),
            ret@[17] == crate::stub::tid::<u32>(),
            ret@[18] == crate::stub::tid::<i64>(),
            ret@[19] == crate::stub::tid::<ObjectHandle>(),
            ret@[20] == crate::stub::tid::<u64>(),
            ret@[21] == crate::stub::tid::<bool>(),
            ret@[22] == crate::stub::tid::<ContractDataHandle>(),
            ret@[23] == crate::stub::tid::<i8>(),
            ret@[24] == crate::stub::tid::<f32>(),
            ret@[25] == crate::stub::tid::<u8>(),
            ret@[26] == crate::stub::tid::<i16>(),
            ret@[27] == crate::stub::tid::<f64>(),
            ret@[28] == crate::stub::tid::<u32>(),
            ret@[29] == crate::stub::tid::<i64>(),
            ret@[30] == crate::stub::tid::<ObjectHandle>(),
            ret@[31] == crate::stub::tid::<u64>(),
            ret@[32] == crate::stub::tid::<bool>(),
            ret@[33] == crate::stub::tid::<ContractDataHandle>(),
            ret@[34] == crate::stub::tid::<i8>(),
            ret@[35] == crate::stub::tid::<f32>(),
            ret@[36] == crate::stub::tid::<u8>(),
            ret@[37] == crate::stub::tid::<i16>(),
            ret@[38] == crate::stub::tid::<f64>(),
            ret@[39] == crate::stub::tid::<u16>(),
            ret@[40] == crate::stub::tid::<i32>(),
            ret@[41] == crate::stub::tid::<String>(),
            ret@[42] == crate::stub::tid::<u64>(),
            ret@[43] == crate::stub::tid::<bool>(),
            ret@[44] == crate::stub::tid::<ContractDataHandle>(),
            ret@[45] == crate::stub::tid::<i8>(),
            ret@[46] == crate::stub::tid::<f32>(),
            ret@[47] == crate::stub::tid::<u8>(),
            ret@[48] == crate::stub::tid::<i16>(),
            ret@[49] == crate::stub::tid::<f64>(),
            ret@[50] == crate::stub::tid::<u16>(),
            ret@[51] == crate::stub::tid::<i32>(),
            ret@[52] == crate::stub::tid::<String>(),
            ret@[53] == crate::stub::tid::<u32>(),
            ret@[54] == crate::stub::tid::<i64>(),
            ret@[55] == crate::stub::tid::<ObjectHandle>(),
            ret@[56] == crate::stub::tid::<i8>(),
            ret@[57] == crate::stub::tid::<f32>(),
            ret@[58] == crate::stub::tid::<u8>(),
            ret@[59] == crate::stub::tid::<i16>(),
            ret@[60] == crate::stub::tid::<f64>(),
            ret@[61] == crate::stub::tid::<u16>(),
            ret@[62] == crate::stub::tid::<i32>(),
            ret@[63] == crate::stub::tid::<String>(),
            ret@[64] == crate::stub::tid::<u32>(),
            ret@[65] == crate::stub::tid::<i64>(),
            ret@[66] == crate::stub::tid::<ObjectHandle>(),
            ret@[67] == crate::stub::tid::<u64>(),
            ret@[68] == crate::stub::tid::<bool>(),
            ret@[69] == crate::stub::tid::<ContractDataHandle>()
    //@end
    //@fn decl::IChannels@CMany::enumerate_types
    //@lazy
    //@spec
        ensures ret@.len() == 70,
            ret@[0] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[1] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[2] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[3] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[4] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[5] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[6] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[7] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[8] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[9] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[10] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[11] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[12] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[13] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[14] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[15] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[16] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[17] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[18] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[19] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[20] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[21] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[22] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[23] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[24] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[25] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[26] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[27] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[28] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[29] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[30] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[31] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[32] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[33] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[34] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[35] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[36] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[37] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[38] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[39] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[40] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[41] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[42] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[43] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[44] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle),
            ret@[45] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[46] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[47] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[48] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[49] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[50] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[51] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[52] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[53] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[54] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[55] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[56] == TpPropertyType::Primitive(TpPrimitiveType::I8),
            ret@[57] == TpPropertyType::Primitive(TpPrimitiveType::F32),
            ret@[58] == TpPropertyType::Primitive(TpPrimitiveType::U8),
            ret@[59] == TpPropertyType::Primitive(TpPrimitiveType::I16),
            ret@[60] == TpPropertyType::Primitive(TpPrimitiveType::F64),
            ret@[61] == TpPropertyType::Primitive(TpPrimitiveType::U16),
            ret@[62] == TpPropertyType::Primitive(TpPrimitiveType::I32),
            ret@[63] == TpPropertyType::Primitive(TpPrimitiveType::String),
            ret@[64] == TpPropertyType::Primitive(TpPrimitiveType::U32),
            ret@[65] == TpPropertyType::Primitive(TpPrimitiveType::I64),
            ret@[66] == TpPropertyType::Primitive(TpPrimitiveType::ObjectHandle),
            ret@[67] == TpPropertyType::Primitive(TpPrimitiveType::U64),
            ret@[68] == TpPropertyType::Primitive(TpPrimitiveType::Bool),
            ret@[69] == TpPropertyType::Primitive(TpPrimitiveType::ContractDataHandle)
    //@entry
        proof { crate::tp_client::contract::properties::traits::types(); }
    //@end
    //@fn decl::IChannels@CMany::field_names
    //@lazy
    //@spec
        ensures ret@.len() == 70,
            ret@[0] == "m00",
            ret@[1] == "m01",
            ret@[2] == "m02",
            ret@[3] == "m03",
            ret@[4] == "m04",
            ret@[5] == "m05",
            ret@[6] == "m06",
            ret@[7] == "m07",
            ret@[8] == "m08",
            ret@[9] == "m09",
            ret@[10] == "m10",
            ret@[11] == "m11",
            ret@[12] == "m12",
            ret@[13] == "m13",
            ret@[14] == "m14",
            ret@[15] == "m15",
            ret@[16] == "m16",
            ret@[17] == "m17",
            ret@[18] == "m18",
            ret@[19] == "m19",
            ret@[20] == "m20",
            ret@[21] == "m21",
            ret@[22] == "m22",
            ret@[23] == "m23",
            ret@[24] == "m24",
            ret@[25] == "m25",
            ret@[26] == "m26",
            ret@[27] == "m27",
            ret@[28] == "m28",
            ret@[29] == "m29",
            ret@[30] == "m30",
            ret@[31] == "m31",
            ret@[32] == "m32",
            ret@[33] == "m33",
            ret@[34] == "m34",
            ret@[35] == "m35",
            ret@[36] == "m36",
            ret@[37] == "m37",
            ret@[38] == "m38",
            ret@[39] == "m39",
            ret@[40] == "m40",
            ret@[41] == "m41",
            ret@[42] == "m42",
            ret@[43] == "m43",
            ret@[44] == "m44",
            ret@[45] == "m45",
            ret@[46] == "m46",
            ret@[47] == "m47",
            ret@[48] == "m48",
            ret@[49] == "m49",
            ret@[50] == "m50",
            ret@[51] == "m51",
            ret@[52] == "m52",
            ret@[53] == "m53",
            ret@[54] == "m54",
            ret@[55] == "m55",
            ret@[56] == "m56",
            ret@[57] == "m57",
            ret@[58] == "m58",
            ret@[59] == "m59",
            ret@[60] == "m60",
            ret@[61] == "m61",
            ret@[62] == "m62",
            ret@[63] == "m63",
            ret@[64] == "m64",
            ret@[65] == "m65",
            ret@[66] == "m66",
            ret@[67] == "m67",
            ret@[68] == "m68",
            ret@[69] == "m69"
    //@end
}
}
fn main() {}
