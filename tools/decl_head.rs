// Contracts on what the macros of /repo/client/contract_macro make of a contract's declaration. The declarations
// are those of decl/src/lib.rs; their expansion is extracted as in core.rs.
#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_braces, unused_parens, non_snake_case)]
use vstd::prelude::*;

verus! {
pub mod stub {
    use vstd::prelude::*;
    /// `std::any::TypeId`: one value per type
    #[verifier::external_body]
    pub struct TypeId { _p: () }
    pub uninterp spec fn tid<T: ?Sized>() -> TypeId;
    impl TypeId {
        #[verifier::external_body]
        pub fn of<T: ?Sized + 'static>() -> (r: TypeId) ensures r == tid::<T>() { unimplemented!() }
    }
    /// `vec![..]`
    #[verifier::external_body]
    pub fn vec_of<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
    /// crate `lazy_static`: the value of the initialiser, the same each time
    #[verifier::external_body]
    pub fn lazy_slice<T: 'static>(v: Vec<T>) -> (r: &'static [T]) ensures r@ == v@ { unimplemented!() }
}
pub mod tp_client {
    pub mod contract {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct ContractDataHandle { _p: () }
        pub mod properties {
            pub mod dynamic {
                use vstd::prelude::*;
                //@enum tp_client::contract::properties::dynamic::primitive::TpPrimitiveType #[derive(Clone, Copy)]
                //@enum tp_client::contract::properties::dynamic::TpPropertyType #[derive(Clone, Copy)]
            }
            pub mod traits {
                use vstd::prelude::*;
                use super::dynamic::{TpPrimitiveType, TpPropertyType};
                pub trait ITpProperty {}
                pub trait ITpData: ITpProperty {}
                // the values are proved in dynamic.rs (D01)
                pub trait ITpPropertyStatic: Sized { const PROPERTY_TYPE: TpPropertyType; }
                use crate::tp_client::contract::ContractDataHandle;
                use crate::tp_client::object::ObjectHandle;
                //@foreach
                pub const PT_$V: TpPropertyType = TpPropertyType::Primitive(TpPrimitiveType::$V);
                impl ITpProperty for $T {}
                impl ITpData for $T {}
                impl ITpPropertyStatic for $T { const PROPERTY_TYPE: TpPropertyType = PT_$V; }
                //@endfor
                pub proof fn types()
                    ensures
                        //@foreach
                        <$T as ITpPropertyStatic>::PROPERTY_TYPE == TpPropertyType::Primitive(TpPrimitiveType::$V),
                        //@endfor
                {}
            }
            pub mod states {
                use vstd::prelude::*;
                use super::traits::*;
                use super::super::ContractDataHandle;
                use core::marker::PhantomData;
                //@struct tp_client::contract::properties::states::id::StateId
                impl<T: ITpData> Copy for StateId<T> {}
                impl<T: ITpProperty> Clone for StateId<T> {
                    #[verifier::external_body]
                    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
                }
                impl<T: ITpProperty> StateId<T> {
                    //@fn tp_client::contract::properties::states::id::StateId::new
                    //@spec
                        ensures ret.idx == $A0, ret.contract == $A1
                    //@end
                }
            }
            pub mod channels {
                use vstd::prelude::*;
                use super::traits::*;
                use super::super::ContractDataHandle;
                use core::marker::PhantomData;
                //@struct tp_client::contract::properties::channels::ChannelId
                impl<T: ITpData> Copy for ChannelId<T> {}
                impl<T: ITpProperty> Clone for ChannelId<T> {
                    #[verifier::external_body]
                    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
                }
                impl<T: ITpProperty> ChannelId<T> {
                    //@fn tp_client::contract::properties::channels::ChannelId::new
                    //@spec
                        ensures ret.idx == $A0, ret.contract == $A1
                    //@end
                }
            }
        }
    }
    pub mod object {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct ObjectHandle { _p: () }
    }
}
use crate::tp_client::contract::properties::dynamic::{TpPrimitiveType, TpPropertyType};
use crate::tp_client::contract::properties::states::StateId;
use crate::tp_client::contract::properties::channels::ChannelId;
use crate::tp_client::contract::ContractDataHandle;
use crate::tp_client::object::ObjectHandle;
