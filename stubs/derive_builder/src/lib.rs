//! Stand-in for `derive_builder` 0.20: owned-by-mut-ref setters and `build() -> Result<T, String>`.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
#[proc_macro_derive(Builder, attributes(builder, builder_field_attr, builder_struct_attr, builder_setter_attr))]
pub fn builder(input: TokenStream) -> TokenStream {
    let di = syn::parse_macro_input!(input as syn::DeriveInput);
    let (name, vis) = (&di.ident, &di.vis);
    let bname = format_ident!("{}Builder", name);
    let syn::Data::Struct(s) = &di.data else { panic!("struct expected") };
    let f: Vec<_> = s.fields.iter().map(|f| f.ident.clone().unwrap()).collect();
    let t: Vec<_> = s.fields.iter().map(|f| f.ty.clone()).collect();
    let n: Vec<_> = f.iter().map(|i| i.to_string()).collect();
    quote! {
        #[derive(Clone, Default)]
        #[allow(dead_code, missing_docs)]
        #vis struct #bname { #(#f: Option<#t>,)* }
        #[allow(dead_code, missing_docs)]
        impl #bname {
            #vis fn create_empty() -> Self { Self { #(#f: None,)* } }
            #(#vis fn #f(&mut self, v: #t) -> &mut Self { self.#f = Some(v); self })*
            #vis fn build(&self) -> Result<#name, String> {
                Ok(#name { #(#f: self.#f.clone().ok_or_else(|| format!("`{}` must be initialized", #n))?,)* })
            }
        }
    }
    .into()
}
