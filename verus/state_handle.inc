// What a handle of static type reaches: proved in unit core, used in unit dynamic.
                impl<T: ITpPropertyStatic> IStateHandle for StateHandle<T> {
                    type OutputRef<'a> = &'a State<T>;
                    type OutputMut<'a> = &'a mut State<T>;
                    open spec fn got<'a>(&self, b: &'a Baseline, r: Result<Self::OutputRef<'a>>) -> bool {
                        match r {
                            Ok(s) => b.cell_s(T::PROPERTY_TYPE, self.inner) == Some(GVal::S(s.value.inj())),
                            Err(_) => b.cell_s(T::PROPERTY_TYPE, self.inner) is None,
                        }
                    }
                    //@traitfn tp_client::contract::properties::states::handle::IStateHandle@StateHandle::get
                    //@end
                    #[verifier::prophetic]
                    open spec fn got_mut<'a>(&self, a: Baseline, b: Baseline, r: Result<Self::OutputMut<'a>>) -> bool {
                        &&& crate::baseline::only_states_differ(a, b)
                        &&& forall|t: TpPropertyType, i: crate::generational_arena::Index| b.iss_s(t, i) == a.iss_s(t, i)
                        &&& match r {
                                Ok(s) => a.cell_s(T::PROPERTY_TYPE, self.inner) == Some(GVal::S((*s).value.inj()))
                                    && (forall|t: TpPropertyType, i: crate::generational_arena::Index| #[trigger] b.cell_s(t, i) ==
                                        (if t == T::PROPERTY_TYPE && i == self.inner { Some(GVal::S((*final(s)).value.inj())) } else { a.cell_s(t, i) })),
                                Err(_) => a.cell_s(T::PROPERTY_TYPE, self.inner) is None
                                    && (forall|t: TpPropertyType, i: crate::generational_arena::Index| #[trigger] b.cell_s(t, i) == a.cell_s(t, i)),
                            }
                    }
                    //@traitfn tp_client::contract::properties::states::handle::IStateHandle@StateHandle::get_mut
                    //@end
                    //@traitfn tp_client::contract::properties::states::handle::IStateHandle@StateHandle::prop_type
                    //@spec
                        ensures ret == T::PROPERTY_TYPE
                    //@end
                }
