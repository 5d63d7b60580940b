//! `Derivative` with `Debug` only: prints the name of the type.
use proc_macro::{TokenStream, TokenTree};

#[proc_macro_derive(Derivative, attributes(derivative))]
pub fn derivative(input: TokenStream) -> TokenStream {
	let mut it = input.into_iter();
	let mut debug = false;
	while let Some(t) = it.next() {
		match &t {
			// outer attributes
			TokenTree::Group(g) => {
				let s = g.to_string().replace(' ', "");
				debug |= s.starts_with("[derivative(") && s.contains("Debug");
			}
			TokenTree::Ident(i) if ["struct", "enum"].contains(&i.to_string().as_str()) => {
				let name = it.next().expect("a name").to_string();
				if !debug {
					return TokenStream::new();
				}
				return format!(
					"impl ::core::fmt::Debug for {name} {{ fn fmt(&self, f: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result {{ f.write_str({name:?}) }} }}"
				)
				.parse()
				.unwrap();
			}
			_ => (),
		}
	}
	panic!("no struct or enum")
}
