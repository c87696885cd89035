extern crate proc_macro;
use proc_macro::TokenStream;
use quote::quote;
use syn::{parse_macro_input, Data, DeriveInput, Fields, Lit, Meta, NestedMeta};

struct Attr {
    short: Option<String>,
    long: Option<String>,
    default: Option<String>,
    subcommand: bool,
}

fn attrs(list: &[syn::Attribute]) -> Attr {
    let mut r = Attr { short: None, long: None, default: None, subcommand: false };
    for a in list {
        if !a.path.is_ident("clap") {
            continue;
        }
        if let Ok(Meta::List(l)) = a.parse_meta() {
            for n in l.nested {
                match n {
                    NestedMeta::Meta(Meta::NameValue(nv)) => {
                        let v = match nv.lit {
                            Lit::Str(s) => s.value(),
                            Lit::Char(c) => c.value().to_string(),
                            _ => continue,
                        };
                        if nv.path.is_ident("short") {
                            r.short = Some(v)
                        } else if nv.path.is_ident("long") {
                            r.long = Some(v)
                        } else if nv.path.is_ident("default_value") {
                            r.default = Some(v)
                        }
                    }
                    NestedMeta::Meta(Meta::Path(p)) => {
                        if p.is_ident("subcommand") {
                            r.subcommand = true
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    r
}

#[proc_macro_derive(Clap, attributes(clap))]
pub fn clap_derive(input: TokenStream) -> TokenStream {
    let ast = parse_macro_input!(input as DeriveInput);
    let name = &ast.ident;
    let body = match &ast.data {
        Data::Struct(s) => {
            let fields = match &s.fields {
                Fields::Named(f) => f.named.iter().collect::<Vec<_>>(),
                _ => vec![],
            };
            let inits = fields.iter().map(|f| {
                let id = f.ident.as_ref().unwrap();
                let ty = &f.ty;
                let a = attrs(&f.attrs);
                if a.subcommand {
                    quote! { #id: <#ty as ::clap::Clap>::from_args(args) }
                } else {
                    let long = a.long.unwrap_or_else(|| id.to_string());
                    let short = match a.short {
                        Some(s) => quote! { Some(#s) },
                        None => quote! { None },
                    };
                    let default = match a.default {
                        Some(s) => quote! { Some(#s) },
                        None => quote! { None },
                    };
                    quote! { #id: ::clap::lookup(args, #short, #long, #default) }
                }
            });
            quote! { Self { #(#inits),* } }
        }
        Data::Enum(e) => {
            let arms = e.variants.iter().map(|v| {
                let id = &v.ident;
                let n = id.to_string();
                quote! {
                    if cmd == ::clap::kebab(#n) {
                        return Self::#id(::clap::Clap::from_args(&args[1..]));
                    }
                }
            });
            quote! {
                let cmd = args.get(0).cloned().unwrap_or_default();
                #(#arms)*
                panic!("unknown subcommand {}", cmd)
            }
        }
        _ => panic!("unsupported"),
    };
    (quote! {
        impl ::clap::Clap for #name {
            fn from_args(args: &[String]) -> Self { #body }
        }
    })
    .into()
}
