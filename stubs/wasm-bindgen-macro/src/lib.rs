//! Stand-in for `#[wasm_bindgen]` on `extern "C"` blocks: imported types become
//! transparent wrappers, imported functions call the controlled host.
use proc_macro::TokenStream;
use quote::{format_ident, quote, ToTokens};
use syn::{FnArg, ForeignItem, Item, ReturnType};

#[proc_macro_attribute]
pub fn wasm_bindgen(_attr: TokenStream, item: TokenStream) -> TokenStream {
    let item: Item = syn::parse(item).expect("item");
    let block = match item {
        Item::ForeignMod(block) => block,
        other => return other.into_token_stream().into(),
    };
    let mut out = quote!();
    for item in block.items {
        match item {
            ForeignItem::Type(ty) => {
                let (vis, name) = (&ty.vis, &ty.ident);
                let cfgs: Vec<_> = ty.attrs.iter().filter(|a| a.path().is_ident("cfg")).collect();
                out.extend(quote! {
                    #(#cfgs)*
                    #[repr(transparent)]
                    #[derive(Clone)]
                    #vis struct #name { obj: ::wasm_bindgen::JsValue }
                    #(#cfgs)*
                    impl AsRef<::wasm_bindgen::JsValue> for #name {
                        fn as_ref(&self) -> &::wasm_bindgen::JsValue { &self.obj }
                    }
                    #(#cfgs)*
                    impl ::wasm_bindgen::JsCast for #name {}
                });
            }
            ForeignItem::Fn(f) => {
                let mut js_name = f.sig.ident.to_string();
                let mut method = false;
                for attr in &f.attrs {
                    if attr.path().is_ident("wasm_bindgen") {
                        let text = attr.meta.to_token_stream().to_string();
                        let text = text.replace(' ', "");
                        if let Some(i) = text.find("js_name=") {
                            js_name = text[i + 8..]
                                .trim_start_matches('"')
                                .chars()
                                .take_while(|c| c.is_alphanumeric() || *c == '_')
                                .collect();
                        }
                        method |= text
                            .trim_start_matches("wasm_bindgen(")
                            .trim_end_matches(')')
                            .split(',')
                            .any(|w| w == "method");
                    }
                }
                let cfgs: Vec<_> = f.attrs.iter().filter(|a| a.path().is_ident("cfg")).collect();
                let (vis, name) = (&f.vis, &f.sig.ident);
                let mut args: Vec<_> = f
                    .sig
                    .inputs
                    .iter()
                    .filter_map(|a| match a {
                        FnArg::Typed(t) => Some(t.clone()),
                        FnArg::Receiver(_) => None,
                    })
                    .collect();
                let this = if method { Some(args.remove(0)) } else { None };
                let ret = match &f.sig.output {
                    ReturnType::Default => quote!(()),
                    ReturnType::Type(_, t) => quote!(#t),
                };
                let params: Vec<_> = args
                    .iter()
                    .enumerate()
                    .map(|(i, _)| format_ident!("a{i}"))
                    .collect();
                let tys: Vec<_> = args.iter().map(|a| a.ty.clone()).collect();
                let body = match js_name.as_str() {
                    "now" => quote!(::wasm_bindgen::host::performance_now()),
                    "performance" => {
                        quote!(::wasm_bindgen::JsCast::unchecked_into(::wasm_bindgen::JsValue::undefined()))
                    }
                    "setTimeout" => {
                        quote!(::wasm_bindgen::host::set_timeout((a0).as_ref(), a1))
                    }
                    other => quote!(unimplemented!("import {} has no stand-in", #other)),
                };
                let func = quote! {
                    #(#cfgs)*
                    #[allow(unused_variables, dead_code)]
                };
                match this {
                    Some(this) => {
                        let ty = match &*this.ty {
                            syn::Type::Reference(r) => r.elem.clone(),
                            t => Box::new(t.clone()),
                        };
                        out.extend(quote! {
                            #(#cfgs)*
                            impl #ty {
                                #func
                                #vis fn #name(&self #(, #params: #tys)*) -> #ret { #body }
                            }
                        });
                    }
                    None => out.extend(quote! {
                        #func
                        #vis fn #name(#(#params: #tys),*) -> #ret { #body }
                    }),
                }
            }
            _ => {}
        }
    }
    out.into()
}
