//! A small stand-in for the pallet macros: enough to build a pallet against in-memory storage.
use proc_macro::TokenStream;
use proc_macro2::TokenStream as Tokens;
use quote::{format_ident, quote, ToTokens};
use syn::{parse_quote, visit_mut::VisitMut, *};

fn take(attrs: &mut Vec<Attribute>) -> Vec<(String, Attribute)> {
	let mut out = vec![];
	attrs.retain(|a| {
		let s: Vec<_> = a.path().segments.iter().map(|s| s.ident.to_string()).collect();
		if s.len() == 2 && s[0] == "pallet" {
			out.push((s[1].clone(), a.clone()));
			false
		} else {
			true
		}
	});
	out
}

struct Hole(Type);
impl VisitMut for Hole {
	fn visit_type_mut(&mut self, t: &mut Type) {
		if let Type::Infer(_) = t {
			*t = self.0.clone();
		} else {
			visit_mut::visit_type_mut(self, t)
		}
	}
}

fn last_path(t: &mut Type) -> Option<&mut PathSegment> {
	match t {
		Type::Path(p) => p.path.segments.last_mut(),
		_ => None,
	}
}

#[proc_macro_attribute]
pub fn pallet(_: TokenStream, item: TokenStream) -> TokenStream {
	let mut m = parse_macro_input!(item as ItemMod);
	let (b, items) = m.content.take().expect("module");
	let mut out: Vec<Item> = vec![];
	let mut extra: Tokens = quote!();
	for mut it in items {
		match &mut it {
			Item::Trait(t) => {
				take(&mut t.attrs);
				for i in &mut t.items {
					if let TraitItem::Type(x) = i {
						take(&mut x.attrs);
					}
				}
			}
			Item::Struct(s) => {
				let a = take(&mut s.attrs);
				if a.iter().any(|x| x.0 == "pallet") {
					extra.extend(quote!(pub struct Pallet<T>(core::marker::PhantomData<T>);));
					continue;
				}
			}
			Item::Type(t) => {
				let a = take(&mut t.attrs);
				if a.iter().any(|x| x.0 == "storage") {
					let pre = format_ident!("__Prefix{}", t.ident);
					let name = t.ident.to_string();
					extra.extend(quote!(
						#[allow(non_camel_case_types)]
						pub struct #pre;
						impl ::frame_support::StorageName for #pre { const NAME: &'static str = concat!(module_path!(), "::", #name); }
					));
					if let Some(seg) = last_path(&mut t.ty) {
						if let PathArguments::AngleBracketed(args) = &mut seg.arguments {
							for (i, g) in args.args.iter_mut().enumerate() {
								if let GenericArgument::Type(ty) = g {
									if let Some(s) = last_path(ty) {
										if s.ident == "ResultQuery" {
											if let PathArguments::AngleBracketed(e) = &s.arguments {
												let e = e.args.first().unwrap().to_token_stream();
												let p: TypePath = parse2(e).unwrap();
												let variant = p.path.segments.last().unwrap().ident.clone();
												let get = format_ident!("__Empty{}{}", t.ident, i);
												extra.extend(quote!(
													pub struct #get;
													impl<T: Config> ::frame_support::traits::Get<Error<T>> for #get { fn get() -> Error<T> { Error::<T>::#variant } }
												));
												*ty = parse_quote!(ResultQuery<Error<T>, #get>);
											}
										}
									}
								}
							}
						}
					}
					Hole(parse_quote!(#pre)).visit_type_mut(&mut t.ty);
				}
			}
			Item::Enum(e) => {
				let a = take(&mut e.attrs);
				let kind: Vec<_> = a.iter().map(|x| x.0.clone()).collect();
				if kind.contains(&"event".to_string()) {
					e.attrs.push(parse_quote!(#[derive(Clone, PartialEq, Debug)]));
					extra.extend(quote!(impl<T: Config> Eq for Event<T> {}));
					e.variants.push(parse_quote!(#[doc(hidden)] __Ignore(core::marker::PhantomData<T>, ::frame_support::Never)));
					extra.extend(quote!(
						impl<T: Config> Pallet<T> {
							pub(crate) fn deposit_event(event: Event<T>) {
								let e = <<T as Config>::RuntimeEvent as From<Event<T>>>::from(event);
								let e = <<T as Config>::RuntimeEvent as Into<<T as frame_system::Config>::RuntimeEvent>>::into(e);
								frame_system::Pallet::<T>::deposit_event(e)
							}
						}
					));
				} else if kind.contains(&"error".to_string()) {
					let names: Vec<_> = e.variants.iter().map(|v| v.ident.clone()).collect();
					e.variants.push(parse_quote!(#[doc(hidden)] __Ignore(core::marker::PhantomData<T>, ::frame_support::Never)));
					extra.extend(quote!(
						impl<T> Error<T> {
							pub fn name(&self) -> &'static str {
								match self { #(Error::#names => stringify!(#names),)* Error::__Ignore(_, n) => match *n {} }
							}
						}
						impl<T> core::fmt::Debug for Error<T> {
							fn fmt(&self, f: &mut core::fmt::Formatter) -> core::fmt::Result { f.write_str(self.name()) }
						}
						impl<T> PartialEq for Error<T> { fn eq(&self, o: &Self) -> bool { self.name() == o.name() } }
						impl<T> From<Error<T>> for ::frame_support::DispatchError {
							fn from(e: Error<T>) -> Self { ::frame_support::DispatchError::Module(e.name()) }
						}
						impl<T> From<Error<T>> for &'static str { fn from(e: Error<T>) -> Self { e.name() } }
					));
				} else if kind.contains(&"composite_enum".to_string()) {
					e.attrs.push(parse_quote!(#[derive(Copy, Clone, PartialEq, Eq, Debug, ::parity_scale_codec::Encode, ::parity_scale_codec::Decode, ::parity_scale_codec::MaxEncodedLen, ::scale_info::TypeInfo)]));
				}
			}
			Item::Impl(im) => {
				let a = take(&mut im.attrs);
				if let Some((_, at)) = a.iter().find(|x| x.0 == "call") {
					let default: Option<Tokens> = match &at.meta {
						Meta::List(l) => {
							let inner: Meta = parse2(l.tokens.clone()).unwrap();
							match inner {
								Meta::List(w) if w.path.is_ident("weight") => Some(w.tokens.clone()),
								_ => None,
							}
						}
						_ => None,
					};
					extra.extend(calls(im, default));
				}
			}
			_ => {}
		}
		out.push(it);
	}
	let more: File = parse2(extra).expect("generated items");
	out.extend(more.items);
	m.content = Some((b, out));
	m.into_token_stream().into()
}

fn calls(im: &mut ItemImpl, default: Option<Tokens>) -> Tokens {
	let (mut variants, mut arms, mut weights) = (vec![], vec![], vec![]);
	for i in &mut im.items {
		let ImplItem::Fn(f) = i else { continue };
		let attrs = take(&mut f.attrs);
		let name = f.sig.ident.clone();
		let (mut ids, mut tys) = (vec![], vec![]);
		for a in f.sig.inputs.iter_mut().skip(1) {
			let FnArg::Typed(t) = a else { panic!("self in a call") };
			take(&mut t.attrs);
			let Pat::Ident(p) = &*t.pat else { panic!("pattern in a call") };
			ids.push(p.ident.clone());
			tys.push((*t.ty).clone());
		}
		let index = attrs.iter().find(|x| x.0 == "call_index").map(|x| match &x.1.meta {
			Meta::List(l) => l.tokens.clone(),
			_ => quote!(0),
		});
		let index = index.map(|i| {
			let n: LitInt = parse2(i).unwrap();
			let n: u8 = n.base10_parse().unwrap();
			quote!(#[codec(index = #n)])
		});
		let weight = match attrs.iter().find(|x| x.0 == "weight") {
			Some((_, a)) => match &a.meta {
				Meta::List(l) => l.tokens.clone(),
				_ => quote!(0),
			},
			None => {
				let d = default.clone().expect("a weight");
				quote!(#d::#name())
			}
		};
		variants.push(quote!(#index #name { #(#ids: #tys),* }));
		arms.push(quote!(Call::#name { #(#ids),* } => Pallet::<T>::#name(origin, #(#ids),*).map(Into::into).map_err(Into::into)));
		weights.push(quote!(Call::#name { #(#ids),* } => ::frame_support::dispatch::IntoInfo::into_info({ #weight })));
	}
	quote!(
		#[allow(non_camel_case_types)]
		#[derive(Clone, PartialEq, Debug, ::parity_scale_codec::Encode, ::parity_scale_codec::Decode)]
		pub enum Call<T: Config> {
			#(#variants,)*
			#[doc(hidden)]
			#[codec(skip)]
			__Ignore(core::marker::PhantomData<T>, ::frame_support::Never),
		}
		impl<T: Config> Eq for Call<T> {}
		impl<T: Config> Call<T> {
			pub fn dispatch_bypass_filter(self, origin: ::frame_system::pallet_prelude::OriginFor<T>) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { #(#arms,)* Call::__Ignore(_, n) => match n {} }
			}
		}
		impl<T: Config> ::frame_support::dispatch::GetDispatchInfo for Call<T> {
			#[allow(unused_variables)]
			fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo {
				match self { #(#weights,)* Call::__Ignore(_, n) => match *n {} }
			}
		}
	)
}
