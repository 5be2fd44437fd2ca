"""Writes verus/capi.rs: contracts on the exported C functions, from tools/capi_head.rs."""
import os, textwrap
HERE = os.path.dirname(os.path.abspath(__file__))
out = [open(os.path.join(HERE, 'capi_head.rs')).read()]


def wrapper(mod, name, of, alias, refs, attr=''):
    """A struct with one field `inner`, its conversions, and references to what it wraps seen as references to it."""
    s = f'''//@struct {mod}::{name} {attr}
pub use {name} as {alias};
impl vstd::std_specs::convert::FromSpecImpl<{of}> for {name} {{
    open spec fn obeys_from_spec() -> bool {{ true }}
    open spec fn from_spec(v: {of}) -> Self {{ {name} {{ inner: v }} }}
}}
impl From<{of}> for {name} {{
    //@traitfn {mod}::From<{of.split('::')[-1]}>@{name}::from
    //@end
}}
'''
    if refs:
        s += f'''impl vstd::std_specs::convert::FromSpecImpl<{name}> for {of} {{
    open spec fn obeys_from_spec() -> bool {{ true }}
    open spec fn from_spec(v: {name}) -> Self {{ v.inner }}
}}
impl From<{name}> for {of} {{
    //@traitfn {mod}::From<{name}>@{of.split('::')[-1]}::from
    //@end
}}
impl RefCast for {name} {{
    type From = {of};
    open spec fn within(&self) -> {of} {{ self.inner }}
    #[verifier::external_body]
    fn ref_cast<'a>(from: &'a {of}) -> &'a Self {{ unimplemented!() }}
    #[verifier::external_body]
    fn ref_cast_mut<'a>(from: &'a mut {of}) -> &'a mut Self {{ unimplemented!() }}
}}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a {of}> for &'a {name} {{
    open spec fn obeys_from_spec() -> bool {{ true }}
    open spec fn from_spec(v: &'a {of}) -> &'a {name} {{ &{name} {{ inner: *v }} }}
}}
impl<'a> From<&'a {of}> for &'a {name} {{
    //@traitfn {mod}::From<&{refs[0]}>@&{refs[1]}::from
    //@end
}}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a mut {of}> for &'a mut {name} {{
    open spec fn obeys_from_spec() -> bool {{ true }}
    open spec fn from_spec(v: &'a mut {of}) -> &'a mut {name} {{ crate::ref_cast::seen(v) }}
}}
impl<'a> From<&'a mut {of}> for &'a mut {name} {{
    // as the one above (a reborrow is another reference to Verus)
    //@assumed {mod}::From<&mut {refs[0]}>@&mut {refs[1]}::from
    //@end
}}
'''
    return s


def fn(path, spec, kind='fn', more=''):
    return f'//@{kind} {path}\n//@spec\n    {spec}\n{more}//@end\n'


AX = 'use crate::cval::CVal;\nbroadcast use {crate::stub::ax_refl, crate::stub::ax_refl0, crate::safer_ffi::boxed::ax_boxed, crate::ref_cast::ax_seen, crate::safer_ffi::vec::Vec::ax_empty, crate::safer_ffi::vec::Vec::ax_of};\n'
P = 'tp_client::contract::properties'
out.append(f'''
pub mod cval {{
    use vstd::prelude::*;
    /// the Rust value a C value stands for
    pub trait CVal {{ type R; spec fn rv(&self) -> Self::R; }}
    impl CVal for crate::rsharp::string::String {{ type R = String; open spec fn rv(&self) -> String {{ self.inner }} }}
    impl CVal for crate::object::c_api::ObjectHandle {{ type R = crate::object::ObjectHandle; open spec fn rv(&self) -> Self::R {{ self.inner }} }}
    impl CVal for crate::contract::c_api::ContractDataHandle {{ type R = crate::contract::ContractDataHandle; open spec fn rv(&self) -> Self::R {{ self.inner }} }}
    macro_rules! same {{ ($($t:ty)*) => {{ verus! {{ $(impl CVal for $t {{ type R = $t; open spec fn rv(&self) -> $t {{ *self }} }})* }} }} }}
    same!{{u8 u16 u32 u64 i8 i16 i32 i64 bool f32 f64}}
}}
pub mod object {{
    use vstd::prelude::*;
    /// what it holds is unit core's
    #[verifier::external_body]
    pub struct Object {{ _p: () }}
    pub type ObjectHandle = crate::arena::Index<Object>;
    pub mod c_api {{
        use vstd::prelude::*;
        use crate::ref_cast::RefCast;
{wrapper('tp_client::object::c_api', 'tp_client__object__ObjectHandle', 'super::ObjectHandle', 'ObjectHandle', ('ObjectHandle', 'ObjectHandle'), '#[derive(Copy,Clone)]')}
    }}
}}
pub mod contract {{
    use vstd::prelude::*;
    //@struct tp_client::contract::ContractId #[derive(Copy,Clone)]
    /// std: a set; iteration gives each element once
    #[verifier::external_body]
    #[verifier::accept_recursive_types(T)]
    pub struct HashSet<T> {{ _p: core::marker::PhantomData<T> }}
    impl<T> HashSet<T> {{
        pub uninterp spec fn has(&self, v: T) -> bool;
        #[verifier::external_body]
        pub fn v_iter<'a>(&'a self) -> (r: crate::stub::Items<&'a T>)
            ensures
                forall|i: int| 0 <= i < r.s().len() ==> self.has(*(#[trigger] r.s()[i])),
                forall|i: int, j: int| 0 <= i < j < r.s().len() ==> *(#[trigger] r.s()[i]) != *(#[trigger] r.s()[j]),
                forall|v: T| #[trigger] self.has(v) ==> exists|i: int| 0 <= i < r.s().len() && *(#[trigger] r.s()[i]) == v
        {{ unimplemented!() }}
    }}
    use crate::object::{{Object, ObjectHandle}};
    #[verifier::external_body]
    pub struct TypeList {{ _p: () }}
    //@struct tp_client::contract::ContractData
    pub type ContractDataHandle = crate::arena::Index<ContractData>;
    pub mod c_api {{
        use vstd::prelude::*;
        use super::{{ContractData, ContractId}};
        use crate::contract::properties::c_api::c_types;
        use crate::safer_ffi::prelude::*;
        use crate::stub::VecItems;
        broadcast use {{crate::safer_ffi::vec::Vec::ax_of, crate::safer_ffi::prelude::str::ax_mk, crate::stub::ax_refl, crate::stub::ax_refl0}};
        pub mod _ContractDataHandle {{
            use vstd::prelude::*;
            use crate::ref_cast::RefCast;
            use crate::contract::ContractDataHandle as RContractDataHandle;
{wrapper('tp_client::contract::c_api::_ContractDataHandle', 'tp_client__contract__ContractDataHandle', 'RContractDataHandle', 'ContractDataHandle', ('RContractDataHandle', 'ContractDataHandle'), '#[derive(Copy,Clone)]')}
        }}
        pub use _ContractDataHandle::ContractDataHandle;
        //@struct tp_client::contract::c_api::tp_client__contract__ContractId_Version
        pub use tp_client__contract__ContractId_Version as ContractId_Version;
        impl vstd::std_specs::convert::FromSpecImpl<(u16, u16, u16)> for ContractId_Version {{
            open spec fn obeys_from_spec() -> bool {{ true }}
            open spec fn from_spec(v: (u16, u16, u16)) -> Self {{ ContractId_Version {{ major: v.0, minor: v.1, patch: v.2 }} }}
        }}
        impl From<(u16, u16, u16)> for ContractId_Version {{
            //@traitfn tp_client::contract::c_api::From@ContractId_Version::from
            //@end
        }}
        {fn('tp_client::contract::c_api::tp_client__contract__ContractData__id', 'ensures *ret == $A0.id')}
        {fn('tp_client::contract::c_api::tp_client__contract__ContractData__objects', '''ensures
                forall|i: int| 0 <= i < ret.s().len() ==> $A0.objects.has((#[trigger] ret.s()[i]).inner),
                forall|i: int, j: int| 0 <= i < j < ret.s().len() ==> (#[trigger] ret.s()[i]).inner != (#[trigger] ret.s()[j]).inner,
                forall|v: crate::object::ObjectHandle| #[trigger] $A0.objects.has(v) ==> exists|i: int| 0 <= i < ret.s().len() && (#[trigger] ret.s()[i]).inner == v''',
            more='//@index\n//@closure 0\n|__c0: &crate::object::ObjectHandle| -> (r: c_types::ObjectHandle) ensures r.inner == *__c0\n')}
        {fn('tp_client::contract::c_api::tp_client__contract__ContractId__name', 'ensures ret.s() == $A0.name@')}
        {fn('tp_client::contract::c_api::tp_client__contract__ContractId__version', 'ensures ret.major == $A0.version.0, ret.minor == $A0.version.1, ret.patch == $A0.version.2')}
    }}
    /// implemented by declared contracts
    pub trait Contract: Sized {{
        type States;
        type Channels;
        fn states(&self) -> &Self::States;
        fn handle(&self) -> ContractDataHandle;
    }}
    pub mod properties {{
        pub mod dynamic {{
            use vstd::prelude::*;
            use crate::object::ObjectHandle;
            use crate::contract::ContractDataHandle;
            use vstd::std_specs::convert::FromSpecImpl;
            //@enum tp_client::contract::properties::dynamic::property::DynTpPrimitive
            //@enum tp_client::contract::properties::dynamic::property::DynTpVec
            //@enum tp_client::contract::properties::dynamic::property::DynTpProperty
            /// what it holds is unit dynamic's
            #[verifier::external_body]
            pub struct DynChannel {{ _p: () }}
            //@foreach
            impl FromSpecImpl<$T> for DynTpPrimitive {{
                open spec fn obeys_from_spec() -> bool {{ true }}
                open spec fn from_spec(v: $T) -> Self {{ DynTpPrimitive::$V(v) }}
            }}
            impl From<$T> for DynTpPrimitive {{
                //@traitfn tp_client::contract::properties::dynamic::property::From<$T>@DynTpPrimitive::from
                //@end
            }}
            //@endfor
        }}
        pub mod c_api {{
            pub mod c_types {{
                pub use crate::contract::c_api::ContractDataHandle;
                pub use crate::object::c_api::ObjectHandle;
                pub use core::primitive::{{bool, f32, f64, i16, i32, i64, i8, u16, u32, u64, u8}};
                pub use crate::rsharp::string::String;
            }}
        }}
        pub mod traits {{
            pub trait ITpProperty: 'static {{}}
            pub trait ITpPropertyStatic: ITpProperty {{}}
            use crate::object::ObjectHandle;
            use crate::contract::ContractDataHandle;
            //@foreach
            impl ITpProperty for $T {{}}
            impl ITpPropertyStatic for $T {{}}
            //@endfor
        }}
        pub mod states {{
            use vstd::prelude::*;
            use crate::contract::properties::traits::*;
            use core::marker::PhantomData;
            //@struct {P}::states::State
            impl<T: ITpPropertyStatic> State<T> {{
                {fn(P + '::states::State::new', 'ensures ret.value == $A0')}
            }}
            pub mod id {{
                use vstd::prelude::*;
                use crate::contract::properties::traits::*;
                use crate::contract::ContractDataHandle;
                use core::marker::PhantomData;
                //@struct {P}::states::id::StateId
                impl<T: ITpProperty> Copy for StateId<T> {{}}
                impl<T: ITpProperty> Clone for StateId<T> {{
                    #[verifier::external_body]
                    fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }}
                }}
                impl<T: ITpProperty> StateId<T> {{
                    {fn(P + '::states::id::StateId::contract', 'ensures ret == self.contract')}
                }}
                pub mod c_api {{
                    //@foreach
                    pub mod _StateId_$V {{
                        use vstd::prelude::*;
                        use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
                        use crate::contract::properties::states::StateId;
                        use crate::contract::ContractDataHandle;
                        use crate::object::ObjectHandle;
                        use crate::safer_ffi::prelude::*;
                        {AX}
{wrapper(P + '::states::id::c_api::_StateId_$V', 'tp_client__contract__properties__states__StateId_$V', 'StateId<$T>', 'StateId_$V', None)}
                        pub use StateId_$V as Monomorphized;
                        {fn(P + '::states::id::c_api::_StateId_$V::tp_client__contract__properties__states__StateId_$V__contract', 'ensures ret.v().inner == $A0.inner.contract')}
                    }}
                    pub use _StateId_$V::Monomorphized as StateId_$V;
                    //@endfor
                }}
            }}
            pub use id::StateId;
            pub mod handle {{
                use vstd::prelude::*;
                use crate::contract::properties::traits::*;
                use super::State;
                pub type StateHandle<T> = crate::arena::Index<State<T>>;
                pub trait IStateHandle {{
                    type OutputRef<'a>;
                    type OutputMut<'a>;
                    spec fn got<'a>(&self, b: &'a crate::baseline::Baseline, r: crate::eyre::Result<Self::OutputRef<'a>>) -> bool;
                    #[verifier::prophetic]
                    spec fn got_mut<'a>(&self, a: crate::baseline::Baseline, b: crate::baseline::Baseline, r: crate::eyre::Result<Self::OutputMut<'a>>) -> bool;
                }}
                impl<T: ITpPropertyStatic> IStateHandle for StateHandle<T> {{
                    type OutputRef<'a> = &'a State<T>;
                    type OutputMut<'a> = &'a mut State<T>;
                    open spec fn got<'a>(&self, b: &'a crate::baseline::Baseline, r: crate::eyre::Result<&'a State<T>>) -> bool {{
                        match r {{
                            Ok(s) => b.state_at::<T>(self.inner) == Some(*s),
                            Err(_) => b.state_at::<T>(self.inner) is None,
                        }}
                    }}
                    #[verifier::prophetic]
                    open spec fn got_mut<'a>(&self, a: crate::baseline::Baseline, b: crate::baseline::Baseline, r: crate::eyre::Result<&'a mut State<T>>) -> bool {{
                        &&& b.but_state::<T>(self.inner) == a.but_state::<T>(self.inner)
                        &&& match r {{
                            Ok(s) => a.state_at::<T>(self.inner) == Some(*s) && b.state_at::<T>(self.inner) == Some(*final(s)),
                            Err(_) => a.state_at::<T>(self.inner) is None && b.state_at::<T>(self.inner) is None,
                        }}
                    }}
                }}
                pub mod c_api {{
                    //@foreach
                    pub mod _StateHandle_$V {{
                        use vstd::prelude::*;
                        use super::super::*;
                        use crate::contract::ContractDataHandle;
                        use crate::object::ObjectHandle;
{wrapper(P + '::states::handle::c_api::_StateHandle_$V', 'tp_client__contract__properties__states__StateHandle_$V', 'StateHandle<$T>', 'StateHandle_$V', None)}
                    }}
                    pub use _StateHandle_$V::StateHandle_$V;
                    //@endfor
                }}
            }}
            pub use handle::*;
            pub mod c_api {{
                pub use super::handle::c_api::*;
                pub use super::id::c_api::*;
                //@foreach
                pub mod _State_$V {{
                    use vstd::prelude::*;
                    use crate::ref_cast::RefCast;
                    use crate::contract::properties::states::*;
                    use crate::contract::properties::c_api::c_types;
                    use crate::contract::ContractDataHandle;
                    use crate::object::ObjectHandle;
                    use crate::safer_ffi::prelude::*;
                    {AX}
{wrapper(P + '::states::c_api::_State_$V', 'tp_client__contract__properties__states__State_$V', 'State<$T>', 'State_$V', ('State<$T>', 'Monomorphized'))}
                    pub use State_$V as Monomorphized;
                    {fn(P + '::states::c_api::_State_$V::tp_client__contract__properties__states__State_$V__new', 'ensures ret.v().inner.value == $A0.v().rv()')}
                    {fn(P + '::states::c_api::_State_$V::tp_client__contract__properties__states__State_$V__value', 'ensures (*ret).rv() == $A0.inner.value')}
                    {fn(P + '::states::c_api::_State_$V::tp_client__contract__properties__states__State_$V__value_set', 'ensures final($A0).inner.value == $A1.v().rv()')}
                }}
                pub use _State_$V::Monomorphized as State_$V;
                //@endfor
            }}
        }}
        pub mod channels {{
            use vstd::prelude::*;
            use crate::contract::properties::traits::*;
            use crate::contract::ContractDataHandle;
            use core::marker::PhantomData;
            //@struct {P}::channels::ChannelId
            impl<T: ITpProperty> Copy for ChannelId<T> {{}}
            impl<T: ITpProperty> Clone for ChannelId<T> {{
                #[verifier::external_body]
                fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }}
            }}
            impl<T: ITpProperty> ChannelId<T> {{
                {fn(P + '::channels::ChannelId::contract', 'ensures ret == self.contract')}
            }}
            pub use channel::{{Channel, Keyframe}};
            pub use handle::ChannelHandle;
            pub mod handle {{
                use super::*;
                pub type ChannelHandle<T> = crate::arena::Index<Channel<T>>;
                pub mod c_api {{
                    use vstd::prelude::*;
                    use crate::contract::ContractDataHandle;
                    use crate::object::ObjectHandle;
                    //@foreach
{wrapper(P + '::channels::handle::c_api', 'tp_client__contract__properties__channels__ChannelHandle_$V', 'super::ChannelHandle<$T>', 'ChannelHandle_$V', None)}
                    //@endfor
                }}
            }}
            pub mod channel {{
                use vstd::prelude::*;
                use crate::contract::properties::traits::*;
                //@struct {P}::channels::channel::Keyframe
                //@struct {P}::channels::channel::Channel
                impl<T: ITpProperty> Keyframe<T> {{
                    {fn(P + '::channels::channel::Keyframe::new', 'ensures ret.value == $A0, ret.time == $A1', 'assumed')}
                    {fn(P + '::channels::channel::Keyframe::value', 'ensures *ret == self.value', 'assumed')}
                    {fn(P + '::channels::channel::Keyframe::time', 'ensures ret == self.time', 'assumed')}
                }}
                use crate::stub::Iterator;
                /// `c` is what Channel::new can make of the keyframes `s` (see unit channel)
                pub uninterp spec fn made_of<T: ITpProperty>(c: Channel<T>, s: Seq<Keyframe<T>>) -> bool;
                impl<T: ITpProperty> Channel<T> {{
                    {fn(P + '::channels::channel::Channel::new', 'ensures made_of(ret, $A0.rem())', 'assumed')}
                    {fn(P + '::channels::channel::Channel::keyframes', 'ensures *ret == self.0', 'assumed')}
                    {fn(P + '::channels::channel::Channel::keyframes_mut', 'ensures *ret == old(self).0, final(self).0 == *final(ret)', 'assumed')}
                }}
                pub mod c_api {{
                    //@foreach
                    pub mod _Keyframe_$V {{
                        use vstd::prelude::*;
                        use crate::ref_cast::RefCast;
                        use super::super::*;
                        use crate::contract::properties::c_api::c_types;
                        use crate::contract::ContractDataHandle;
                        use crate::object::ObjectHandle;
                        use crate::safer_ffi::prelude::*;
                        {AX}
{wrapper(P + '::channels::channel::c_api::_Keyframe_$V', 'tp_client__contract__properties__channels__Keyframe_$V', 'Keyframe<$T>', 'Keyframe_$V', ('Keyframe<$T>', 'Monomorphized'))}
                        pub use Keyframe_$V as Monomorphized;
                        {fn(P + '::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__Keyframe_$V__new', 'ensures ret.v().inner.value == $A0.v().rv(), ret.v().inner.time == $A1')}
                        {fn(P + '::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__Keyframe_$V__value', 'ensures (*ret).rv() == $A0.inner.value')}
                        {fn(P + '::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__Keyframe_$V__time', 'ensures ret == $A0.inner.time')}
                        {fn(P + '::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__RVec_Keyframe$V__new', 'ensures ret.s() == Seq::<Keyframe_$V>::empty()')}
                        {fn(P + '::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__RVec_Keyframe$V__push', 'ensures final($A0).s() == old($A0).s().push($A1.v())', more='//@index\n')}
                        {fn(P + '::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__RVec_Keyframe$V__get', 'requires $A1 < $A0.s().len() ensures *ret == $A0.s()[$A1 as int]', more='//@index\n')}
                        {fn(P + '::channels::channel::c_api::_Keyframe_$V::tp_client__contract__properties__channels__RVec_Keyframe$V__set', 'requires $A1 < old($A0).s().len() ensures final($A0).s() == old($A0).s().update($A1 as int, $A2.v())', more='//@index\n')}
                    }}
                    pub mod _Channel_$V {{
                        use vstd::prelude::*;
                        use crate::ref_cast::RefCast;
                        use super::super::*;
                        use crate::contract::ContractDataHandle;
                        use crate::object::ObjectHandle;
                        {AX}
{wrapper(P + '::channels::channel::c_api::_Channel_$V', 'tp_client__contract__properties__channels__Channel_$V', 'Channel<$T>', 'Channel_$V', ('Channel<$T>', 'Monomorphized'))}
                        pub use Channel_$V as Monomorphized;
                        use super::_Keyframe_$V::Monomorphized as Keyframe_Monomorphized;
                        use crate::safer_ffi::prelude::*;
                        use crate::stub::VecItems;
                        {fn(P + '::channels::channel::c_api::_Channel_$V::tp_client__contract__properties__channels__Channel_$V__new', '''ensures exists|s: Seq<Keyframe<$T>>| #[trigger] made_of(ret.v().inner, s) && s.len() == $A0.s().len()
                            && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == $A0.s()[i].inner''',
                            more='//@index\n//@closure 0\n|__c0: Keyframe_Monomorphized| -> (r: Keyframe<$T>) ensures r == __c0.inner\n//@entry\nproof {{ assert(forall|c: Channel<$T>| (#[trigger] <Monomorphized as vstd::std_specs::convert::FromSpec<Channel<$T>>>::from_spec(c)).inner == c); }}\n')}
                        {fn(P + '::channels::channel::c_api::_Channel_$V::tp_client__contract__properties__channels__Channel_$V__keyframes', '''ensures ret.s().len() == $A0.inner.0@.len(),
                            forall|i: int| 0 <= i < ret.s().len() ==> (*(#[trigger] ret.s()[i])).inner == $A0.inner.0@[i]''',
                            more='//@index\n//@closure 0\n|__c0: &Keyframe<$T>| -> (r: &Keyframe_Monomorphized) ensures (*r).inner == *__c0\n')}
                        {fn(P + '::channels::channel::c_api::_Channel_$V::tp_client__contract__properties__channels__Channel_$V__keyframes_mut', '''ensures ret.s().len() == old($A0).inner.0@.len(), final($A0).inner.0@.len() == old($A0).inner.0@.len(),
                            forall|i: int| 0 <= i < ret.s().len() ==> {{ &&& (*(#[trigger] ret.s()[i])).inner == old($A0).inner.0@[i]
                                &&& (*final(ret.s()[i])).inner == final($A0).inner.0@[i] }}''',
                            more='//@index\n//@closure 0\n|__c0: &mut Keyframe<$T>| -> (r: &mut Keyframe_Monomorphized) ensures crate::ref_cast::same_place(__c0, r)\n')}
                    }}
                    pub use _Keyframe_$V::Monomorphized as Keyframe_$V;
                    pub use _Channel_$V::Monomorphized as Channel_$V;
                    //@endfor
                }}
            }}
            pub mod c_api {{
                pub use super::channel::c_api::*;
                pub use super::handle::c_api::*;
                use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
                //@foreach
                pub mod _ChannelId_$V {{
                    use vstd::prelude::*;
                    use super::super::*;
                    use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
                    use crate::object::ObjectHandle;
                    use crate::safer_ffi::prelude::*;
                    {AX}
{wrapper(P + '::channels::c_api::_ChannelId_$V', 'tp_client__contract__properties__channels__ChannelId_$V', 'ChannelId<$T>', 'ChannelId_$V', None)}
                    pub use ChannelId_$V as Monomorphized;
                    {fn(P + '::channels::c_api::_ChannelId_$V::ChannelId_$V__contract', 'ensures ret.v().inner == $A0.inner.contract')}
                }}
                pub use _ChannelId_$V::Monomorphized as ChannelId_$V;
                //@endfor
            }}
        }}
    }}
}}
''')

B = 'tp_client::baseline::Baseline::'
C = 'tp_client::baseline::c_api::tp_client__baseline__Baseline__'
M = 'tp_client::baseline::c_api::_Baseline_$V::tp_client__baseline__Baseline__'


def access(what, at, but, mutable):
    if not mutable:
        return f'''ensures match ret {{
        Ok(s) => {at} == Some(*s),
        Err(_) => {at} is None,
    }}'''
    old, new = at.replace('self.', 'old(self).'), at.replace('self.', 'final(self).')
    return f'''ensures
        {but.replace('self.', 'final(self).')} == {but.replace('self.', 'old(self).')},
        match ret {{
            Ok(s) => {old} == Some(*s) && {new} == Some(*final(s)),
            Err(_) => {old} is None && {new} is None,
        }}'''


out.append(f'''
pub mod baseline {{
    use vstd::prelude::*;
    use crate::generational_arena as ga;
    use crate::eyre::Result;
    use crate::object::{{Object, ObjectHandle}};
    use crate::contract::{{ContractData, ContractDataHandle}};
    use crate::contract::properties::traits::*;
    use crate::contract::properties::states::*;
    use crate::contract::properties::channels::*;
    use crate::contract::Contract;
    use crate::contract::properties::dynamic::{{DynTpProperty, DynChannel}};
    use crate::stub::Iterator;
    //@enum tp_client::baseline::BaselineKind #[derive(Copy,Clone)]
    /// What it holds is unit core's: here only what can be reached. A `but_` is all else there is in it.
    #[verifier::external_body]
    pub struct Baseline {{ _p: () }}
    impl Baseline {{
        pub uninterp spec fn k(&self) -> BaselineKind;
        pub uninterp spec fn fresh(&self) -> bool;
        pub uninterp spec fn contract_at(&self, i: ga::Index) -> Option<ContractData>;
        pub uninterp spec fn object_at(&self, i: ga::Index) -> Option<Object>;
        pub uninterp spec fn but_object(&self, i: ga::Index) -> int;
        pub uninterp spec fn state_at<T: ITpPropertyStatic>(&self, i: ga::Index) -> Option<State<T>>;
        pub uninterp spec fn but_state<T: ITpPropertyStatic>(&self, i: ga::Index) -> int;
        pub uninterp spec fn channel_at<T: ITpProperty>(&self, i: ga::Index) -> Option<Channel<T>>;
        pub uninterp spec fn but_channel<T: ITpProperty>(&self, i: ga::Index) -> int;
        /// the handle of an object's field, if it has it
        pub uninterp spec fn bound_state(&self, contract: ContractDataHandle, field: usize, o: ga::Index) -> Option<ga::Index>;
        pub uninterp spec fn bound_channel(&self, contract: ContractDataHandle, field: usize, o: ga::Index) -> Option<ga::Index>;
        // what happens to it as a whole is units core's and dynamic's: here it is a relation of before, after, what was given and what came out
        pub uninterp spec fn can_register<C: Contract>(&self) -> bool;
        pub uninterp spec fn registered<C: Contract>(old: Self, new: Self, c: C) -> bool;
        pub uninterp spec fn can_unregister<C: Contract>(&self, h: ContractDataHandle) -> bool;
        pub uninterp spec fn unregistered<C: Contract>(old: Self, new: Self, h: ContractDataHandle) -> bool;
        pub uninterp spec fn can_create<C: Contract>(&self, c: C, states: Seq<DynTpProperty>, channels: Seq<DynChannel>) -> bool;
        pub uninterp spec fn created<C: Contract>(old: Self, new: Self, c: C, states: Seq<DynTpProperty>, channels: Seq<DynChannel>, o: ObjectHandle) -> bool;
        pub uninterp spec fn can_remove<C: Contract>(&self, o: ObjectHandle) -> bool;
        pub uninterp spec fn removed<C: Contract>(old: Self, new: Self, o: ObjectHandle) -> bool;
        {fn(B + 'register_contract', 'ensures ret is Ok == old(self).can_register::<C>(), ret matches Ok(c) ==> Self::registered(*old(self), *final(self), c)', 'assumed')}
        {fn(B + 'unregister_contract', 'ensures ret is Ok == old(self).can_unregister::<C>($A0), ret is Ok ==> Self::unregistered::<C>(*old(self), *final(self), $A0)', 'assumed')}
        {fn(B + 'object_create', 'ensures ret is Ok == old(self).can_create(*$A0, $A1.rem(), $A2.rem()), ret matches Ok(o) ==> Self::created(*old(self), *final(self), *$A0, $A1.rem(), $A2.rem(), o)', 'assumed')}
        {fn(B + 'object_remove', 'ensures ret is Ok == old(self).can_remove::<C>($A0), ret is Ok ==> Self::removed::<C>(*old(self), *final(self), $A0)', 'assumed')}
        {fn(B + 'new', 'ensures ret.k() == $A0, ret.fresh()', 'assumed')}
        {fn(B + 'kind', 'ensures ret == self.k()', 'assumed')}
        {fn(B + 'contract_data', access('', 'self.contract_at($A0.inner)', '', False), 'assumed')}
        {fn(B + 'object', access('', 'self.object_at($A0.inner)', '', False), 'assumed')}
        {fn(B + 'object_mut', access('', 'self.object_at($A0.inner)', 'self.but_object($A0.inner)', True), 'assumed')}
        {fn(B + 'state', 'ensures $A0.got(self, ret)', 'assumed')}
        {fn(B + 'state_mut', 'ensures $A0.got_mut(*old(self), *final(self), ret)', 'assumed')}
        {fn(B + 'channel', access('', 'self.channel_at::<T>($A0.inner)', '', False), 'assumed')}
        {fn(B + 'channel_mut', access('', 'self.channel_at::<T>($A0.inner)', 'self.but_channel::<T>($A0.inner)', True), 'assumed')}
        {fn(B + 'bind_state', 'ensures match ret { Ok(h) => self.bound_state($A0.contract, $A0.idx, $A1.inner) == Some(h.inner), Err(_) => self.bound_state($A0.contract, $A0.idx, $A1.inner) is None }', 'assumed')}
        {fn(B + 'bind_channel', 'ensures match ret { Ok(h) => self.bound_channel($A0.contract, $A0.idx, $A1.inner) == Some(h.inner), Err(_) => self.bound_channel($A0.contract, $A0.idx, $A1.inner) is None }', 'assumed')}
    }}
    pub mod c_api {{
        use vstd::prelude::*;
        use super::*;
        use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
        use crate::object::c_api::ObjectHandle as CObjectHandle;
        use crate::safer_ffi::prelude::*;
        {AX}
        {fn(C + 'new', 'ensures ret.v().k() == $A0, ret.v().fresh()')}
        {fn(C + 'kind', 'ensures ret == $A0.k()')}
        {fn(C + 'contract_data', 'requires $A0.contract_at($A1.inner.inner) is Some ensures $A0.contract_at($A1.inner.inner) == Some(*ret)')}
        {fn(C + 'object', 'requires $A0.object_at($A1.inner.inner) is Some ensures $A0.object_at($A1.inner.inner) == Some(*ret)')}
        {fn(C + 'object_mut', """requires old($A0).object_at($A1.inner.inner) is Some
    ensures old($A0).object_at($A1.inner.inner) == Some(*ret), final($A0).object_at($A1.inner.inner) == Some(*final(ret)),
        final($A0).but_object($A1.inner.inner) == old($A0).but_object($A1.inner.inner)""")}
        //@foreach
        pub mod _Baseline_$V {{
            use vstd::prelude::*;
            use crate::baseline::*;
            use crate::object::c_api::ObjectHandle as CObjectHandle;
            use crate::safer_ffi::prelude::*;
            use crate::contract::properties::states::c_api::StateHandle_$V as Monomorphized_StateHandle;
            use crate::contract::properties::states::c_api::State_$V as Monomorphized_State;
            use crate::contract::properties::channels::c_api::ChannelHandle_$V as Monomorphized_ChannelHandle;
            use crate::contract::properties::channels::c_api::Channel_$V as Monomorphized_Channel;
            use crate::contract::properties::states::c_api::StateId_$V as Monomorphized_StateId;
            use crate::contract::properties::channels::c_api::ChannelId_$V as Monomorphized_ChannelId;
            {AX}
            {fn(M + 'state_$V', "requires $A0.state_at::<$T>($A1.inner.inner) is Some ensures $A0.state_at::<$T>($A1.inner.inner) == Some(ret.inner)")}
            {fn(M + 'state_mut_$V', """requires old($A0).state_at::<$T>($A1.inner.inner) is Some
    ensures old($A0).state_at::<$T>($A1.inner.inner) == Some((*ret).inner), final($A0).state_at::<$T>($A1.inner.inner) == Some((*final(ret)).inner),
        final($A0).but_state::<$T>($A1.inner.inner) == old($A0).but_state::<$T>($A1.inner.inner)""")}
            {fn(M + 'channel_$V', "requires $A0.channel_at::<$T>($A1.inner.inner) is Some ensures $A0.channel_at::<$T>($A1.inner.inner) == Some(ret.inner)")}
            {fn(M + 'channel_mut_$V', """requires old($A0).channel_at::<$T>($A1.inner.inner) is Some
    ensures old($A0).channel_at::<$T>($A1.inner.inner) == Some((*ret).inner), final($A0).channel_at::<$T>($A1.inner.inner) == Some((*final(ret)).inner),
        final($A0).but_channel::<$T>($A1.inner.inner) == old($A0).but_channel::<$T>($A1.inner.inner)""")}
            {fn(M + 'bind_state_$V', """requires $A0.bound_state($A1.inner.contract, $A1.inner.idx, $A2.inner.inner) is Some
    ensures $A0.bound_state($A1.inner.contract, $A1.inner.idx, $A2.inner.inner) == Some(ret.v().inner.inner)""")}
            {fn(M + 'bind_channel_$V', """requires $A0.bound_channel($A1.inner.contract, $A1.inner.idx, $A2.inner.inner) is Some
    ensures $A0.bound_channel($A1.inner.contract, $A1.inner.idx, $A2.inner.inner) == Some(ret.v().inner.inner)""")}
        }}
        //@endfor
    }}
}}
''')

# ---- the example contracts: each C function hands on what it is given, in its place ----
def created(c, base, args, res):
    """args: the value of each field, in order"""
    is_ = ' && '.join(f's[{i}] == DynTpProperty::Primitive(DynTpPrimitive::{v}({a}))' for i, (v, a) in enumerate(args))
    shape = f's.len() == {len(args)} && c.len() == 0 && {is_}'
    return f"""requires forall|s: Seq<DynTpProperty>, c: Seq<DynChannel>| {shape} ==> #[trigger] old({base}).can_create(*{c}, s, c)
    ensures exists|s: Seq<DynTpProperty>, c: Seq<DynChannel>| #[trigger] Baseline::created(*old({base}), *final({base}), *{c}, s, c, {res}) && {shape}"""


def contract(cr, name, states):
    return f"""
    impl crate::contract::Contract for {name} {{
        type States = {states};
        type Channels = ();
        //@traitfn {cr}::Contract@{name}::states
        //@spec
            ensures *ret == self.states
        //@end
        //@traitfn {cr}::Contract@{name}::handle
        //@spec
            ensures ret == self.handle
        //@end
    }}"""


def example(cr, st, sp, sx, cp, cx, SN, CN, fields, oargs, wh):
    """sp, cp: where the functions on states and on contracts are; sx, cx: what their names begin with"""
    f = [fn(f'{sp}::{sx}__{n}', f'ensures ret.v().inner == $A0.{n}') for n, _ in fields]
    g = [fn(f'{cp}::{cx}__handle', 'ensures ret.v().inner == $A0.handle'),
         fn(f'{cp}::{cx}__states', 'ensures *ret == $A0.states'),
         fn(f'{cp}::{cx}__register', f'requires old($A0).can_register::<{CN}>() ensures Baseline::registered(*old($A0), *final($A0), ret.v())'),
         fn(f'{cp}::{cx}__object_remove', f'requires old($A0).can_remove::<{CN}>($A1.v().inner) ensures Baseline::removed::<{CN}>(*old($A0), *final($A0), $A1.v().inner)'),
         fn(f'{cp}::{cx}__object_create', created(*oargs), more='//@into2\n' if False else '')]
    if wh:
        g.append(fn(f'{cp}::{cx}__unregister', f'requires old($A0).can_unregister::<{CN}>($A1.v().inner) ensures Baseline::unregistered::<{CN}>(*old($A0), *final($A0), $A1.v().inner)'))
    return '\n'.join(f), '\n'.join(g)


USES = f"""use vstd::prelude::*;
    use crate::tp_client;
    use crate::contract::{{Contract, ContractDataHandle}};
    use crate::object::ObjectHandle;
    use crate::baseline::Baseline;
    use crate::contract::c_api::ContractDataHandle as CContractDataHandle;
    use crate::object::c_api::ObjectHandle as CObjectHandle;
    use crate::contract::properties::states::c_api::*;
    use crate::contract::properties::dynamic::{{DynTpProperty, DynTpPrimitive, DynChannel}};
    use crate::safer_ffi::prelude::*;
    use crate::rsharp;
    {AX}"""
V = {'u8': 'U8', 'i8': 'I8', 'f32': 'F32', 'i16': 'I16', 'u64': 'U64'}
ball = [('pos_x', 'f32'), ('pos_y', 'f32'), ('pos_z', 'f32'), ('euler_x', 'i16'), ('euler_y', 'i16'), ('euler_z', 'i16'),
        ('scale_x', 'f32'), ('scale_y', 'f32'), ('scale_z', 'f32'), ('color', 'u64')]
bf, bg = example('unity_states', 'BallStates', 'unity_states::c_api::_BallStates', 'BallStates', 'unity_states::c_api::_BallContract', 'BallContract', 'BallStates', 'BallContract',
                 ball, ('$A1', '$A0', [(V[t], f'$A{i + 2}') for i, (n, t) in enumerate(ball)], 'ret.v().inner'), True)
exs = [('u8_0', 'u8'), ('u8_1', 'u8'), ('i8_0', 'i8'), ('i8_1', 'i8'), ('f32_0', 'f32'), ('f32_1', 'f32'), ('str_0', ''), ('oh_0', ''), ('ch_0', '')]
xf, xg = example('tp_contract_example', 'ExampleStates', 'tp_contract_example::states::_dummy', 'tp_contract_example__ExampleStates', 'tp_contract_example::c_api', 'tp_contract_example__ExampleContract',
                 'ExampleStates', 'ExampleContract', exs,
                 ('$A0', '$A1', [(V[t], f'$A{i + 2}') for i, (n, t) in enumerate(exs[:6])] + [('String', '$A8.v().inner'), ('ObjectHandle', '$A9.v().inner'), ('ContractDataHandle', '$A10.v().inner')],
                  'ret.v().inner'), False)
out.append(f"""
pub mod tp_client {{ pub use crate::contract; }}
pub mod unity_states {{
    {USES}
    //@struct unity_states::BallContract
    //@struct unity_states::BallStates
    {contract('unity_states', 'BallContract', 'BallStates')}
    pub mod c_api {{
        pub mod _BallStates {{
    {USES.replace('use vstd', 'use super::super::*;' + chr(10) + '    use vstd', 1)}
    {bf}
        }}
        pub mod _BallContract {{
    {USES.replace('use vstd', 'use super::super::*;' + chr(10) + '    use vstd', 1)}
    {bg}
        }}
    }}
}}
pub mod tp_contract_example {{
    {USES}
    //@struct tp_contract_example::tp_contract_example__ExampleContract
    pub use tp_contract_example__ExampleContract as ExampleContract;
    pub use states::ExampleStates;
    {contract('tp_contract_example', 'ExampleContract', 'ExampleStates')}
    pub mod states {{
    {USES}
        //@struct tp_contract_example::states::_dummy::tp_contract_example__ExampleStates
        pub use tp_contract_example__ExampleStates as ExampleStates;
    {xf}
    }}
    pub mod c_api {{
    use super::ExampleStates;
    use super::ExampleContract;
    {USES}
    {xg}
    }}
}}
}}
fn main() {{}}
""")
open(os.path.join(HERE, '..', 'verus', 'capi.rs'), 'w').write(''.join(out))
