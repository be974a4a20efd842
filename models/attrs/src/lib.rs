//! Procedural macros of the modelled crates.
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, ItemFn, LitStr, Visibility};

/// `tracing::instrument`: no effect.
#[proc_macro_attribute]
pub fn instrument(_: TokenStream, item: TokenStream) -> TokenStream {
    item
}

/// `tokio::main`: the function becomes `tokio_main`, which the harness runs as a task.
#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut f = parse_macro_input!(item as ItemFn);
    f.sig.ident = syn::Ident::new("tokio_main", f.sig.ident.span());
    f.vis = Visibility::Public(Default::default());
    quote!(#f).into()
}

/// `argh::FromArgs` for structs with named fields that are options with defaults (or required).
#[proc_macro_derive(FromArgs, attributes(argh))]
pub fn from_args(item: TokenStream) -> TokenStream {
    let d = parse_macro_input!(item as DeriveInput);
    let name = &d.ident;
    let Data::Struct(s) = &d.data else { panic!("struct expected") };
    let mut fields = Vec::new();
    for f in &s.fields {
        let ident = f.ident.as_ref().unwrap();
        let mut default = None;
        let mut long = ident.to_string().replace('_', "-");
        let mut short = None;
        for a in f.attrs.iter().filter(|a| a.path().is_ident("argh")) {
            a.parse_nested_meta(|m| {
                if m.path.is_ident("default") {
                    let l: LitStr = m.value()?.parse()?;
                    default = Some(l.parse::<syn::Expr>()?);
                } else if m.path.is_ident("long") {
                    let l: LitStr = m.value()?.parse()?;
                    long = l.value();
                } else if m.path.is_ident("short") {
                    let l: syn::LitChar = m.value()?.parse()?;
                    short = Some(l.value().to_string());
                } else if let Ok(v) = m.value() {
                    let _: syn::Expr = v.parse()?;
                }
                Ok(())
            })
            .unwrap();
        }
        let none = match default {
            Some(e) => quote!(#e),
            None => quote!(panic!("required option")),
        };
        let short = short.unwrap_or_default();
        fields.push(quote!(#ident: match argh::value(#long, #short) {
            Some(v) => v.parse().unwrap(),
            None => #none,
        }));
    }
    quote!(impl argh::FromArgs for #name {
        fn from_model() -> Self { #name { #(#fields,)* } }
    })
    .into()
}
