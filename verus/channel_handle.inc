// What a handle of static type reaches: proved in unit core, used in unit dynamic.
                impl<T: ITpPropertyStatic> IChannelHandle for ChannelHandle<T> {
                    type OutputRef<'a> = &'a Channel<T>;
                    type OutputMut<'a> = &'a mut Channel<T>;
                    open spec fn got<'a>(&self, b: &'a Baseline, r: Result<Self::OutputRef<'a>>) -> bool {
                        match r {
                            Ok(s) => b.cell_c(T::PROPERTY_TYPE, self.inner) == Some(GVal::C(T::cinj(*s))),
                            Err(_) => b.cell_c(T::PROPERTY_TYPE, self.inner) is None,
                        }
                    }
                    //@traitfn tp_client::contract::properties::channels::handle::IChannelHandle@ChannelHandle::get
                    //@end
                    #[verifier::prophetic]
                    open spec fn got_mut<'a>(&self, a: Baseline, b: Baseline, r: Result<Self::OutputMut<'a>>) -> bool {
                        &&& crate::baseline::only_channels_differ(a, b)
                        &&& forall|t: TpPropertyType, i: crate::generational_arena::Index| b.iss_c(t, i) == a.iss_c(t, i)
                        &&& match r {
                                Ok(s) => a.cell_c(T::PROPERTY_TYPE, self.inner) == Some(GVal::C(T::cinj(*s)))
                                    && (forall|t: TpPropertyType, i: crate::generational_arena::Index| #[trigger] b.cell_c(t, i) ==
                                        (if t == T::PROPERTY_TYPE && i == self.inner { Some(GVal::C(T::cinj(*final(s)))) } else { a.cell_c(t, i) })),
                                Err(_) => a.cell_c(T::PROPERTY_TYPE, self.inner) is None
                                    && (forall|t: TpPropertyType, i: crate::generational_arena::Index| #[trigger] b.cell_c(t, i) == a.cell_c(t, i)),
                            }
                    }
                    //@traitfn tp_client::contract::properties::channels::handle::IChannelHandle@ChannelHandle::get_mut
                    //@end
                    //@traitfn tp_client::contract::properties::channels::handle::IChannelHandle@ChannelHandle::prop_type
                    //@spec
                        ensures ret == T::PROPERTY_TYPE
                    //@end
                }
