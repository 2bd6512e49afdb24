//! `#[wasm_bindgen]`: exported structs become values a `JsValue` can hold, imported types become typed `JsValue`s whose methods
//! call the function stored under the method's name.
use proc_macro::TokenStream;
use quote::{format_ident, quote, quote_spanned};
use syn::spanned::Spanned;
use syn::*;

#[derive(Default)]
struct Opts {
    catch: bool,
    method: bool,
    name: Option<String>,
}
fn opts(attrs: &mut Vec<Attribute>) -> Opts {
    let mut o = Opts::default();
    attrs.retain(|a| {
        if !a.path().is_ident("wasm_bindgen") {
            return true;
        }
        let _ = a.parse_nested_meta(|m| {
            if m.path.is_ident("catch") {
                o.catch = true;
            } else if m.path.is_ident("method") {
                o.method = true;
            } else if m.path.is_ident("js_name") {
                let v = m.value()?;
                o.name = Some(match v.parse::<Lit>() {
                    Ok(Lit::Str(s)) => s.value(),
                    _ => v.parse::<Ident>()?.to_string(),
                });
                return Ok(());
            }
            if m.input.peek(Token![=]) {
                m.value()?.parse::<Expr>()?;
            }
            Ok(())
        });
        false
    });
    o
}
#[proc_macro_attribute]
pub fn wasm_bindgen(_: TokenStream, item: TokenStream) -> TokenStream {
    match parse_macro_input!(item as Item) {
        // only text for the declarations of the types
        Item::Const(_) => TokenStream::new(),
        Item::Struct(mut s) => {
            opts(&mut s.attrs);
            for f in &mut s.fields {
                opts(&mut f.attrs);
            }
            let n = &s.ident;
            let text = n.to_string();
            quote! {
                #s
                impl From<#n> for ::wasm_bindgen::JsValue {
                    fn from(x: #n) -> Self { ::wasm_bindgen::JsValue::instance(#text, x) }
                }
            }
            .into()
        }
        Item::Impl(mut i) => {
            opts(&mut i.attrs);
            for x in &mut i.items {
                if let ImplItem::Fn(f) = x {
                    opts(&mut f.attrs);
                }
            }
            quote!(#i).into()
        }
        Item::Fn(mut f) => {
            opts(&mut f.attrs);
            quote!(#f).into()
        }
        Item::Enum(mut f) => {
            opts(&mut f.attrs);
            quote!(#f).into()
        }
        Item::ForeignMod(m) => m.items.into_iter().map(foreign).collect::<proc_macro2_tokens::Tokens>().0.into(),
        x => quote_spanned!(x.span() => compile_error!("the stand-in for wasm-bindgen does not know this kind of item");).into(),
    }
}
mod proc_macro2_tokens {
    use quote::{quote, ToTokens};
    pub struct Tokens(pub proc_macro2::TokenStream);
    impl<T: ToTokens> FromIterator<T> for Tokens {
        fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
            let i = i.into_iter();
            Tokens(quote!(#(#i)*))
        }
    }
}
fn foreign(x: ForeignItem) -> proc_macro2::TokenStream {
    match x {
        ForeignItem::Type(mut t) => {
            opts(&mut t.attrs);
            let (vis, n) = (&t.vis, &t.ident);
            quote! {
                #[derive(Clone, Debug)]
                #[repr(transparent)]
                #vis struct #n { obj: ::wasm_bindgen::JsValue }
                impl ::std::ops::Deref for #n {
                    type Target = ::wasm_bindgen::JsValue;
                    fn deref(&self) -> &::wasm_bindgen::JsValue { &self.obj }
                }
                impl AsRef<::wasm_bindgen::JsValue> for #n {
                    fn as_ref(&self) -> &::wasm_bindgen::JsValue { &self.obj }
                }
                impl From<#n> for ::wasm_bindgen::JsValue {
                    fn from(x: #n) -> Self { x.obj }
                }
                impl From<::wasm_bindgen::JsValue> for #n {
                    fn from(obj: ::wasm_bindgen::JsValue) -> Self { #n { obj } }
                }
                // SAFETY: repr(transparent) over JsValue
                unsafe impl ::wasm_bindgen::JsCast for #n {
                    fn instanceof(v: &::wasm_bindgen::JsValue) -> bool { v.is_object() }
                }
            }
        }
        ForeignItem::Fn(mut f) => {
            let o = opts(&mut f.attrs);
            if !o.method {
                return quote_spanned!(f.span() => compile_error!("the stand-in for wasm-bindgen knows imported methods only"););
            }
            let name = o.name.unwrap_or_else(|| f.sig.ident.to_string());
            let mut args = f.sig.inputs.iter();
            let this = match args.next() {
                Some(FnArg::Typed(p)) => match &*p.ty {
                    Type::Reference(r) => (*r.elem).clone(),
                    x => x.clone(),
                },
                x => return quote_spanned!(x.span() => compile_error!("no receiver");),
            };
            let rest: Vec<_> = args.collect();
            let names: Vec<_> = (0..rest.len()).map(|i| format_ident!("a{i}")).collect();
            let types: Vec<_> = rest.iter().map(|a| if let FnArg::Typed(p) = a { (*p.ty).clone() } else { parse_quote!(()) }).collect();
            let (vis, ident, out) = (&f.vis, &f.sig.ident, &f.sig.output);
            let aw = f.sig.asyncness;
            let call = quote!(::wasm_bindgen::call(&self.obj, #name, vec![#(::wasm_bindgen::JsValue::from(#names)),*]));
            let body = match (aw.is_some(), o.catch) {
                (true, true) => quote!(match #call { Ok(p) => ::wasm_bindgen::settled(p).await.map(|x| x.into()), Err(e) => Err(e) }),
                (false, true) => quote!(#call.map(|x| x.into())),
                (true, false) => quote!(::wasm_bindgen::settled(#call.unwrap()).await.unwrap().into()),
                (false, false) => quote!(#call.unwrap().into()),
            };
            quote! {
                impl #this {
                    #[allow(clippy::all)]
                    #vis #aw fn #ident(&self, #(#names: #types),*) #out { #body }
                }
            }
        }
        x => quote_spanned!(x.span() => compile_error!("the stand-in for wasm-bindgen does not know this kind of import");),
    }
}
