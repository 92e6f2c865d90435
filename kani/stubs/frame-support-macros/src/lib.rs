//! Expansion of the `#[pallet]` attribute for the dependency model in this directory.
//!
//! It keeps every function body of the pallet exactly as written. What it does with the
//! rest: storage aliases get a generated prefix type, `Error`/`Event`/`Call` get the impls
//! FRAME would give them, and attributes that carry no behaviour for the properties checked
//! here (weights, call indices, metadata, genesis) are dropped.

use proc_macro::TokenStream;
use proc_macro2::TokenStream as Ts;
use quote::{format_ident, quote, ToTokens};
use syn::{
	parse_macro_input, parse_quote, punctuated::Punctuated, Attribute, Data, DeriveInput, Fields, FnArg, GenericArgument,
	Generics, Ident, ImplItem, Item, ItemEnum, ItemImpl, ItemMod, ItemType, Meta, Pat, PathArguments, ReturnType, Token,
	TraitItem, Type,
};

fn pallet_attr(a: &Attribute) -> Option<String> {
	let p = a.path();
	if p.segments.len() == 2 && p.segments[0].ident == "pallet" {
		Some(p.segments[1].ident.to_string())
	} else {
		None
	}
}

fn take_pallet_attrs(attrs: &mut Vec<Attribute>) -> Vec<(String, Attribute)> {
	let mut out = vec![];
	attrs.retain(|a| {
		if let Some(k) = pallet_attr(a) {
			out.push((k, a.clone()));
			false
		} else {
			true
		}
	});
	out
}

fn item_attrs(i: &mut Item) -> Option<&mut Vec<Attribute>> {
	Some(match i {
		Item::Const(x) => &mut x.attrs,
		Item::Enum(x) => &mut x.attrs,
		Item::Fn(x) => &mut x.attrs,
		Item::Impl(x) => &mut x.attrs,
		Item::Struct(x) => &mut x.attrs,
		Item::Trait(x) => &mut x.attrs,
		Item::Type(x) => &mut x.attrs,
		Item::Use(x) => &mut x.attrs,
		Item::Mod(x) => &mut x.attrs,
		_ => return None,
	})
}

/// `#[frame_support::pallet]`
#[proc_macro_attribute]
pub fn pallet(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let mut m = parse_macro_input!(item as ItemMod);
	let Some((_, items)) = m.content.take() else {
		return syn::Error::new_spanned(m, "pallet module must be inline").to_compile_error().into();
	};
	let mut out: Vec<Ts> = vec![];
	for mut it in items {
		let kinds = match item_attrs(&mut it) {
			Some(a) => take_pallet_attrs(a),
			None => vec![],
		};
		let has = |k: &str| kinds.iter().any(|(n, _)| n == k);
		if has("genesis_config") || has("genesis_build") || has("inherent") || has("validate_unsigned") || has("extra_constants") {
			continue;
		}
		match it {
			Item::Trait(mut t) => {
				for ti in t.items.iter_mut() {
					if let TraitItem::Type(tt) = ti {
						take_pallet_attrs(&mut tt.attrs);
					}
				}
				out.push(quote!(#t));
			}
			Item::Struct(mut s) if has("pallet") => {
				let g = s.generics.params.iter().filter_map(|p| match p {
					syn::GenericParam::Type(t) => Some(t.ident.clone()),
					_ => None,
				});
				let ph: Type = parse_quote!(::core::marker::PhantomData<(#(#g),*)>);
				if let Fields::Unnamed(f) = &mut s.fields {
					for x in f.unnamed.iter_mut() {
						x.ty = ph.clone();
					}
				}
				out.push(quote!(#s));
			}
			Item::Type(t) if has("storage") => out.push(storage(t, &kinds)),
			Item::Fn(f) if has("type_value") => {
				let name = &f.sig.ident;
				let vis = &f.vis;
				let (ig, _, wh) = f.sig.generics.split_for_impl();
				let params: Vec<Ident> = f.sig.generics.type_params().map(|p| p.ident.clone()).collect();
				let ret = match &f.sig.output {
					ReturnType::Type(_, t) => quote!(#t),
					_ => quote!(()),
				};
				let body = &f.block;
				if params.is_empty() {
					out.push(quote! { #vis struct #name; impl ::frame_support::traits::Get<#ret> for #name { fn get() -> #ret #body } });
				} else {
					out.push(quote! {
						#vis struct #name<#(#params),*>(::core::marker::PhantomData<(#(#params),*)>);
						impl #ig ::frame_support::traits::Get<#ret> for #name<#(#params),*> #wh { fn get() -> #ret #body }
					});
				}
			}
			Item::Enum(e) if has("event") => out.push(event(e, has("generate_deposit"))),
			Item::Enum(e) if has("error") => out.push(error(e)),
			Item::Enum(mut e) if has("composite_enum") => {
				e.attrs.push(parse_quote!(#[derive(
					Copy, Clone, Eq, PartialEq, Debug, ::parity_scale_codec::Encode, ::parity_scale_codec::Decode,
					::parity_scale_codec::MaxEncodedLen, ::scale_info::TypeInfo
				)]));
				out.push(quote!(#e));
			}
			Item::Impl(i) if has("call") => out.push(call(i)),
			other => out.push(other.to_token_stream()),
		}
	}
	let attrs = &m.attrs;
	let vis = &m.vis;
	let ident = &m.ident;
	quote! {
		#(#attrs)*
		#[allow(unused_imports, type_alias_bounds, non_camel_case_types, dead_code)]
		#vis mod #ident { #(#out)* }
	}
	.into()
}

fn storage(mut t: ItemType, kinds: &[(String, Attribute)]) -> Ts {
	t.vis = parse_quote!(pub);
	let name = t.ident.clone();
	let prefix = format_ident!("__Prefix_{}", name);
	let params: Vec<Ident> = t.generics.type_params().map(|p| p.ident.clone()).collect();
	let mut extra = Ts::new();
	let Type::Path(tp) = &mut *t.ty else {
		return syn::Error::new_spanned(&t, "unsupported storage type").to_compile_error();
	};
	let seg = tp.path.segments.last_mut().unwrap();
	let kind = seg.ident.to_string();
	let PathArguments::AngleBracketed(ab) = &mut seg.arguments else {
		return syn::Error::new_spanned(&t, "unsupported storage type").to_compile_error();
	};
	let mut args: Vec<GenericArgument> = ab.args.iter().cloned().collect();
	args[0] = parse_quote!(#prefix<#(#params),*>);
	let (kpos, vpos): (Vec<usize>, usize) = match kind.as_str() {
		"StorageValue" => (vec![], 1),
		"StorageMap" | "CountedStorageMap" => (vec![2], 3),
		"StorageDoubleMap" => (vec![2, 4], 5),
		_ => return syn::Error::new_spanned(&t, "unsupported storage kind").to_compile_error(),
	};
	let vty = args[vpos].clone();
	// ResultQuery<Error<T>::Variant>  ==>  ResultQuery<Error<T>, getter>
	for a in args.iter_mut() {
		let GenericArgument::Type(Type::Path(q)) = a else { continue };
		let last = q.path.segments.last().unwrap().clone();
		if last.ident != "ResultQuery" {
			continue;
		}
		let PathArguments::AngleBracketed(inner) = &last.arguments else { continue };
		let Some(GenericArgument::Type(Type::Path(e))) = inner.args.first() else { continue };
		let mut base = e.path.clone();
		let variant = base.segments.pop().unwrap().into_value().ident;
		base.segments.pop_punct();
		let getter = format_ident!("__OnEmpty_{}", name);
		let mut ctor = base.clone();
		if let Some(s) = ctor.segments.last_mut() {
			if let PathArguments::AngleBracketed(x) = &mut s.arguments {
				x.colon2_token = Some(Default::default());
			}
		}
		extra.extend(quote! {
			pub struct #getter<#(#params),*>(::core::marker::PhantomData<(#(#params),*)>);
			impl<#(#params: Config),*> ::frame_support::traits::Get<#base> for #getter<#(#params),*> {
				fn get() -> #base { #ctor::#variant }
			}
		});
		*a = parse_quote!(::frame_support::storage::types::ResultQuery<#base, #getter<#(#params),*>>);
	}
	ab.args = args.iter().cloned().collect::<Punctuated<_, Token![,]>>();
	let mut getter_ts = Ts::new();
	for (k, a) in kinds {
		if k == "getter" {
			if let Meta::List(l) = &a.meta {
				let toks: Vec<_> = l.tokens.clone().into_iter().collect();
				if let Some(g) = toks.last() {
					let ktys: Vec<_> = kpos.iter().map(|i| args[*i].clone()).collect();
					let kn: Vec<Ident> = (0..ktys.len()).map(|i| format_ident!("k{}", i)).collect();
					getter_ts.extend(quote! {
						impl<#(#params: Config),*> Pallet<#(#params),*> {
							pub fn #g(#(#kn: impl ::frame_support::storage::IntoStored<#ktys>),*)
								-> <#name<#(#params),*> as ::frame_support::storage::types::Queried>::Query
							{ #name::<#(#params),*>::get(#(#kn),*) }
						}
					});
				}
			}
		}
	}
	let _ = vty;
	quote! {
		pub struct #prefix<#(#params),*>(::core::marker::PhantomData<(#(#params),*)>);
		impl<#(#params),*> ::frame_support::storage::Instance for #prefix<#(#params),*> {
			fn slot() -> *mut ::frame_support::storage::Slot {
				static mut SLOT: ::frame_support::storage::Slot = ::frame_support::storage::Slot::new();
				unsafe { ::core::ptr::addr_of_mut!(SLOT) }
			}
		}
		#extra
		#getter_ts
		#t
	}
}

fn event(mut e: ItemEnum, deposit: bool) -> Ts {
	let name = e.ident.clone();
	let params: Vec<Ident> = e.generics.type_params().map(|p| p.ident.clone()).collect();
	let (ig, tg, wh) = e.generics.split_for_impl();
	let (ig, tg, wh) = (quote!(#ig), quote!(#tg), quote!(#wh));
	if !params.is_empty() {
		e.variants.push(parse_quote!(#[doc(hidden)] __Ignore(::core::marker::PhantomData<(#(#params),*)>, ::frame_support::Never)));
	}
	let dep = if deposit && !params.is_empty() {
		let t = &params[0];
		quote! {
			impl<#t: Config> Pallet<#t> {
				pub fn deposit_event(event: #name #tg) {
					let event = <<#t as Config>::RuntimeEvent as From<#name #tg>>::from(event);
					let event = <<#t as Config>::RuntimeEvent as Into<<#t as ::frame_system::Config>::RuntimeEvent>>::into(event);
					::frame_system::Pallet::<#t>::deposit_event(event);
				}
			}
		}
	} else {
		Ts::new()
	};
	let _ = (ig, wh);
	quote! {
		#[derive(::frame_support::CloneNoBound, ::frame_support::PartialEqNoBound, ::frame_support::EqNoBound, ::frame_support::DebugNoBound)]
		#e
		#dep
	}
}

fn error(mut e: ItemEnum) -> Ts {
	let name = e.ident.clone();
	let params: Vec<Ident> = e.generics.type_params().map(|p| p.ident.clone()).collect();
	let arms: Vec<Ts> = e
		.variants
		.iter()
		.enumerate()
		.map(|(i, v)| {
			let i = i as u8;
			let id = &v.ident;
			let s = id.to_string();
			match v.fields {
				Fields::Unit => quote!(#name::#id => (#i, #s)),
				_ => quote!(#name::#id { .. } => (#i, #s)),
			}
		})
		.collect();
	e.variants.push(parse_quote!(#[doc(hidden)] __Ignore(::core::marker::PhantomData<(#(#params),*)>, ::frame_support::Never)));
	quote! {
		#e
		impl<#(#params),*> #name<#(#params),*> {
			fn __index(&self) -> (u8, &'static str) {
				match self { #(#arms,)* #name::__Ignore(..) => unreachable!() }
			}
		}
		impl<#(#params),*> ::core::fmt::Debug for #name<#(#params),*> {
			fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { f.write_str(self.__index().1) }
		}
		impl<#(#params),*> PartialEq for #name<#(#params),*> {
			fn eq(&self, o: &Self) -> bool { self.__index().0 == o.__index().0 }
		}
		impl<#(#params),*> From<#name<#(#params),*>> for &'static str {
			fn from(e: #name<#(#params),*>) -> &'static str { e.__index().1 }
		}
		impl<#(#params),*> From<#name<#(#params),*>> for ::sp_runtime::DispatchError {
			fn from(e: #name<#(#params),*>) -> ::sp_runtime::DispatchError {
				let (error, message) = e.__index();
				::sp_runtime::DispatchError::Module(::sp_runtime::ModuleError { index: 0, error: [error, 0, 0, 0], message: Some(message) })
			}
		}
	}
}

fn call(mut i: ItemImpl) -> Ts {
	let params: Vec<Ident> = i.generics.type_params().map(|p| p.ident.clone()).collect();
	let t = &params[0];
	let mut variants = vec![];
	let mut dispatch = vec![];
	for f in i.items.iter_mut() {
		let ImplItem::Fn(f) = f else { continue };
		take_pallet_attrs(&mut f.attrs);
		let name = f.sig.ident.clone();
		let mut names = vec![];
		let mut tys = vec![];
		for (n, a) in f.sig.inputs.iter_mut().enumerate() {
			let FnArg::Typed(a) = a else { continue };
			take_pallet_attrs(&mut a.attrs);
			if n == 0 {
				continue;
			}
			let Pat::Ident(p) = &*a.pat else { continue };
			let id = p.ident.to_string();
			names.push(format_ident!("{}", id.trim_start_matches('_')));
			tys.push((*a.ty).clone());
		}
		variants.push(quote!(#[allow(missing_docs)] #name { #(#names: #tys),* }));
		dispatch.push(quote! {
			Call::#name { #(#names),* } => Pallet::<#t>::#name(__origin, #(#names),*)
				.map(::core::convert::Into::into).map_err(::core::convert::Into::into)
		});
	}
	quote! {
		#i
		#[derive(::frame_support::CloneNoBound, ::frame_support::PartialEqNoBound, ::frame_support::EqNoBound, ::frame_support::DebugNoBound)]
		#[allow(non_camel_case_types)]
		pub enum Call<#t: Config> {
			#[doc(hidden)]
			__Ignore(::core::marker::PhantomData<#t>, ::frame_support::Never),
			#(#variants,)*
		}
		impl<#t: Config> ::frame_support::dispatch::UnfilteredDispatchable for Call<#t> {
			type RuntimeOrigin = <#t as ::frame_system::Config>::RuntimeOrigin;
			fn dispatch_bypass_filter(self, __origin: Self::RuntimeOrigin) -> ::frame_support::dispatch::DispatchResultWithPostInfo {
				match self { #(#dispatch,)* Call::__Ignore(..) => unreachable!() }
			}
		}
	}
}

// --- *NoBound derives -------------------------------------------------------------------

fn bindings(fields: &Fields, pre: &str) -> (Ts, Vec<Ident>) {
	match fields {
		Fields::Unit => (quote!(), vec![]),
		Fields::Named(n) => {
			let ids: Vec<Ident> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
			let b: Vec<Ident> = ids.iter().map(|i| format_ident!("{}{}", pre, i)).collect();
			(quote!({ #(#ids: #b),* }), b)
		}
		Fields::Unnamed(u) => {
			let b: Vec<Ident> = (0..u.unnamed.len()).map(|i| format_ident!("{}{}", pre, i)).collect();
			(quote!((#(#b),*)), b)
		}
	}
}

fn rebuild(fields: &Fields, vals: &[Ts]) -> Ts {
	match fields {
		Fields::Unit => quote!(),
		Fields::Named(n) => {
			let ids: Vec<_> = n.named.iter().map(|f| f.ident.clone().unwrap()).collect();
			quote!({ #(#ids: #vals),* })
		}
		Fields::Unnamed(_) => quote!((#(#vals),*)),
	}
}

fn shapes(d: &DeriveInput) -> Vec<(Ts, String, Fields)> {
	match &d.data {
		Data::Struct(s) => vec![(quote!(Self), d.ident.to_string(), s.fields.clone())],
		Data::Enum(e) => e
			.variants
			.iter()
			.map(|v| {
				let i = &v.ident;
				(quote!(Self::#i), i.to_string(), v.fields.clone())
			})
			.collect(),
		_ => vec![],
	}
}

fn generics(g: &Generics) -> (Ts, Ts, Ts) {
	let (a, b, c) = g.split_for_impl();
	(quote!(#a), quote!(#b), quote!(#c))
}

#[proc_macro_derive(CloneNoBound)]
pub fn clone_no_bound(input: TokenStream) -> TokenStream {
	let d = parse_macro_input!(input as DeriveInput);
	let (ig, tg, wh) = generics(&d.generics);
	let name = &d.ident;
	let arms = shapes(&d).into_iter().map(|(p, _, f)| {
		let (pat, b) = bindings(&f, "a_");
		let vals: Vec<Ts> = b.iter().map(|x| quote!(::core::clone::Clone::clone(#x))).collect();
		let r = rebuild(&f, &vals);
		quote!(#p #pat => #p #r)
	});
	quote!(impl #ig ::core::clone::Clone for #name #tg #wh { fn clone(&self) -> Self { match self { #(#arms),* } } }).into()
}

#[proc_macro_derive(PartialEqNoBound)]
pub fn partial_eq_no_bound(input: TokenStream) -> TokenStream {
	let d = parse_macro_input!(input as DeriveInput);
	let (ig, tg, wh) = generics(&d.generics);
	let name = &d.ident;
	let arms = shapes(&d).into_iter().map(|(p, _, f)| {
		let (pa, a) = bindings(&f, "a_");
		let (pb, b) = bindings(&f, "b_");
		quote!((#p #pa, #p #pb) => true #(&& #a == #b)*)
	});
	quote! {
		impl #ig ::core::cmp::PartialEq for #name #tg #wh {
			fn eq(&self, o: &Self) -> bool { #[allow(unreachable_patterns)] match (self, o) { #(#arms,)* _ => false } }
		}
	}
	.into()
}

#[proc_macro_derive(EqNoBound)]
pub fn eq_no_bound(input: TokenStream) -> TokenStream {
	let d = parse_macro_input!(input as DeriveInput);
	let (ig, tg, wh) = generics(&d.generics);
	let name = &d.ident;
	quote!(impl #ig ::core::cmp::Eq for #name #tg #wh {}).into()
}

#[proc_macro_derive(DebugNoBound)]
pub fn debug_no_bound(input: TokenStream) -> TokenStream {
	let d = parse_macro_input!(input as DeriveInput);
	let (ig, tg, wh) = generics(&d.generics);
	let name = &d.ident;
	let arms = shapes(&d).into_iter().map(|(p, s, f)| {
		let (pat, b) = bindings(&f, "a_");
		quote!(#p #pat => f.debug_tuple(#s) #(.field(#b))* .finish())
	});
	quote! {
		impl #ig ::core::fmt::Debug for #name #tg #wh {
			fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { match self { #(#arms),* } }
		}
	}
	.into()
}

#[proc_macro_derive(DefaultNoBound)]
pub fn default_no_bound(input: TokenStream) -> TokenStream {
	let d = parse_macro_input!(input as DeriveInput);
	let (ig, tg, wh) = generics(&d.generics);
	let name = &d.ident;
	let Data::Struct(s) = &d.data else {
		return syn::Error::new_spanned(&d, "struct only").to_compile_error().into();
	};
	let vals: Vec<Ts> = s.fields.iter().map(|_| quote!(::core::default::Default::default())).collect();
	let r = rebuild(&s.fields, &vals);
	quote!(impl #ig ::core::default::Default for #name #tg #wh { fn default() -> Self { Self #r } }).into()
}

/// `#[derive(RuntimeDebug)]`, `#[derive(RuntimeDebugNoBound)]`
#[proc_macro_derive(RuntimeDebug)]
pub fn runtime_debug(input: TokenStream) -> TokenStream {
	let d = parse_macro_input!(input as DeriveInput);
	let mut d2 = d.clone();
	for p in d2.generics.type_params_mut() {
		p.bounds.push(parse_quote!(::core::fmt::Debug));
	}
	let (ig, tg, wh) = generics(&d2.generics);
	let name = &d.ident;
	let arms = shapes(&d).into_iter().map(|(p, s, f)| {
		let (pat, b) = bindings(&f, "a_");
		quote!(#p #pat => f.debug_tuple(#s) #(.field(#b))* .finish())
	});
	quote! {
		impl #ig ::core::fmt::Debug for #name #tg #wh {
			fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { match self { #(#arms),* } }
		}
	}
	.into()
}

// --- the runtime -------------------------------------------------------------------------------

/// Pallets without calls, events or origins of their own.
const NO_CALLS: &[&str] = &[
	"parachain_info",
	"pallet_custom_origins",
	"pallet_transaction_payment",
	"pallet_assets_freezer",
	"pallet_asset_tx_payment",
	"pallet_skip_feeless_payment",
	"pallet_gas_transaction_payment",
	"pallet_authorship",
	"pallet_aura",
	"cumulus_pallet_aura_ext",
	"cumulus_pallet_xcm",
];
const ORIGINS: &[(&str, bool)] =
	&[("pallet_custom_origins", false), ("pallet_xcm", false), ("cumulus_pallet_xcm", false), ("pallet_communities", true)];
const EVENTS: &[&str] = &["frame_system", "pallet_payments", "pallet_communities", "pallet_communities_manager"];
const HOLDS: &[&str] = &["pallet_payments", "pallet_preimage"];
const FREEZES: &[&str] = &["pallet_communities"];

/// `#[frame_support::runtime]`: pallet aliases and the aggregate call, origin, event and reason types.
/// Calls are compared and dispatched never, encoded never; which call it is, is all there is to them.
#[proc_macro_attribute]
pub fn runtime(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let m = parse_macro_input!(item as ItemMod);
	let Some((_, items)) = m.content else {
		return syn::Error::new_spanned(m, "runtime module must be inline").to_compile_error().into();
	};
	let mut out: Vec<Ts> = vec![];
	let (mut calls, mut call_variants, mut call_from) = (vec![], vec![], vec![]);
	let mut call_names: Vec<Ts> = vec![];
	let (mut events, mut holds, mut freezes, mut origins) = (vec![], vec![], vec![], vec![]);
	let mut all = vec![];
	for it in items {
		let Item::Type(t) = it else { continue };
		let name = &t.ident;
		let Type::Path(p) = &*t.ty else { continue };
		let seg = p.path.segments.last().unwrap();
		let krate = &seg.ident;
		let k = krate.to_string();
		let inst: Option<Ident> = match &seg.arguments {
			PathArguments::AngleBracketed(a) => a.args.iter().find_map(|g| match g {
				GenericArgument::Type(Type::Path(p)) => p.path.get_ident().cloned(),
				_ => None,
			}),
			_ => None,
		};
		let index = t
			.attrs
			.iter()
			.find(|a| a.path().segments.last().map(|s| s.ident == "pallet_index").unwrap_or(false))
			.and_then(|a| match &a.meta {
				Meta::List(l) => l.tokens.to_string().parse::<usize>().ok(),
				_ => None,
			})
			.unwrap_or(255);
		let args = match &inst {
			Some(i) => quote!(<Runtime, #krate::#i>),
			None => quote!(<Runtime>),
		};
		out.push(quote! {
			pub type #name = #krate::Pallet #args;
			impl ::frame_support::PalletIndex<#krate::Pallet #args> for Runtime { const INDEX: usize = #index; }
		});
		all.push(quote!(#name));
		if !NO_CALLS.contains(&k.as_str()) {
			calls.push(quote!(#name(#krate::Call #args)));
			call_variants.push(name.clone());
			call_names.push(quote!(#krate::Call #args));
			call_from.push(quote! {
				impl From<#krate::Call #args> for RuntimeCall { fn from(c: #krate::Call #args) -> Self { RuntimeCall::#name(c) } }
				impl ::frame_support::traits::IsSubType<#krate::Call #args> for RuntimeCall {
					fn is_sub_type(&self) -> Option<&#krate::Call #args> { match self { RuntimeCall::#name(c) => Some(c), _ => None } }
				}
			});
		}
		if EVENTS.contains(&k.as_str()) {
			events.push((name.clone(), quote!(#krate::Event #args)));
		}
		if HOLDS.contains(&k.as_str()) {
			holds.push((name.clone(), quote!(#krate::HoldReason)));
		}
		if FREEZES.contains(&k.as_str()) {
			freezes.push((name.clone(), quote!(#krate::FreezeReason)));
		}
		if let Some((_, generic)) = ORIGINS.iter().find(|(n, _)| *n == k) {
			origins.push(if *generic { quote!(#name(#krate::Origin<Runtime>)) } else { quote!(#name(#krate::Origin)) });
		}
	}
	let aggregate = |ty: Ident, vs: &Vec<(Ident, Ts)>, derive: Ts| {
		let (n, t): (Vec<_>, Vec<_>) = vs.iter().cloned().unzip();
		quote! {
			#derive
			pub enum #ty { #( #n(#t), )* }
			#( impl From<#t> for #ty { fn from(x: #t) -> Self { #ty::#n(x) } } )*
			#( impl TryFrom<#ty> for #t { type Error = (); fn try_from(x: #ty) -> Result<#t, ()> { match x { #ty::#n(x) => Ok(x), #[allow(unreachable_patterns)] _ => Err(()) } } } )*
		}
	};
	let event_ty = aggregate(format_ident!("RuntimeEvent"), &events, quote!(#[derive(Clone, PartialEq, Debug)]));
	let reason = quote!(#[derive(Clone, Copy, PartialEq, Eq, Debug, ::parity_scale_codec::Encode, ::parity_scale_codec::Decode, ::parity_scale_codec::MaxEncodedLen, ::scale_info::TypeInfo)]);
	let hold_ty = aggregate(format_ident!("RuntimeHoldReason"), &holds, reason.clone());
	let freeze_ty = aggregate(format_ident!("RuntimeFreezeReason"), &freezes, reason);
	let pallet_names: Vec<String> = call_variants.iter().map(|c| c.to_string()).collect();
	quote! {
		#[derive(Clone, Copy, PartialEq, Eq, Debug, ::scale_info::TypeInfo)]
		pub struct Runtime;
		#( #out )*
		pub type AllPalletsWithSystem = ( #( #all, )* );
		#[derive(Clone, PartialEq, Eq, Debug)]
		pub enum RuntimeCall { #( #calls, )* }
		#( #call_from )*
		impl RuntimeCall {
			pub const PALLETS: &'static [&'static str] = &[ #( #pallet_names ),* ];
		}
		impl ::parity_scale_codec::Encode for RuntimeCall {
			fn encode_to<O: ::parity_scale_codec::Output + ?Sized>(&self, _: &mut O) { nd::model_gap!(false, "encoding of a call"); }
		}
		impl ::parity_scale_codec::EncodeLike for RuntimeCall {}
		impl ::parity_scale_codec::Decode for RuntimeCall {
			fn decode<I: ::parity_scale_codec::Input>(_: &mut I) -> Result<Self, ::parity_scale_codec::Error> {
				nd::model_gap!(false, "decoding of a call");
				Err("model".into())
			}
		}
		impl ::scale_info::TypeInfo for RuntimeCall {
			type Identity = Self;
			fn type_info() -> ::scale_info::Type { ::scale_info::Type::builder().path(::scale_info::Path::new("RuntimeCall", "model")).variant(::scale_info::build::Variants::new()) }
		}
		impl ::sp_runtime::traits::Dispatchable for RuntimeCall {
			type RuntimeOrigin = RuntimeOrigin;
			type Config = Runtime;
			type Info = ::frame_support::dispatch::DispatchInfo;
			type PostInfo = ::frame_support::dispatch::PostDispatchInfo;
			fn dispatch(self, _: RuntimeOrigin) -> ::sp_runtime::DispatchResultWithInfo<Self::PostInfo> {
				nd::model_gap!(false, "dispatch of a call");
				Ok(Default::default())
			}
		}
		impl ::frame_support::dispatch::GetDispatchInfo for RuntimeCall {
			fn get_dispatch_info(&self) -> ::frame_support::dispatch::DispatchInfo { Default::default() }
		}
		::frame_support::model_origin!(pub RuntimeOrigin, OriginCaller, AccountId, RuntimeCall, #( #origins ),*);
		#event_ty
		#hold_ty
		#freeze_ty
	}
	.into()
}

/// `#[derive_impl]` on `impl frame_system::Config`: keeps the items the model's configuration has.
#[proc_macro_attribute]
pub fn derive_impl(_attr: TokenStream, item: TokenStream) -> TokenStream {
	let mut i = parse_macro_input!(item as ItemImpl);
	let keep = ["AccountId", "Lookup", "Hash", "Nonce", "DbWeight"];
	i.items.retain(|x| match x {
		ImplItem::Type(t) => keep.contains(&t.ident.to_string().as_str()),
		_ => true,
	});
	for extra in [
		parse_quote!(type RuntimeOrigin = RuntimeOrigin;),
		parse_quote!(type RuntimeCall = RuntimeCall;),
		parse_quote!(type RuntimeEvent = RuntimeEvent;),
		parse_quote!(type Hashing = ::sp_runtime::traits::BlakeTwo256;),
		parse_quote!(type BlockNumber = BlockNumber;),
	] {
		i.items.push(ImplItem::Type(extra));
	}
	quote!(#i).into()
}

#[proc_macro_attribute]
pub fn runtime_version(_attr: TokenStream, item: TokenStream) -> TokenStream {
	item
}
