use crate::{Principal, Type, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Expr {
	Literal(Value),
	Symbol(String),
	/// `.name`
	Contract(String),
	List(Vec<Expr>),
	Tuple(Vec<(String, Expr)>),
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
	Open,
	Close,
	OpenT,
	CloseT,
	Colon,
	Comma,
	Str(String),
	Utf8(String),
	Word(String),
}

fn string(it: &mut std::iter::Peekable<std::str::Chars>, utf8: bool) -> Result<String, String> {
	let mut s = String::new();
	loop {
		match it.next().ok_or("unterminated string")? {
			'"' => return Ok(s),
			'\\' => match it.next().ok_or("unterminated string")? {
				'n' => s.push('\n'),
				't' => s.push('\t'),
				'r' => s.push('\r'),
				'0' => s.push('\0'),
				'u' if utf8 => {
					if it.next() != Some('{') {
						return Err("bad escape".into());
					}
					let h: String = it.by_ref().take_while(|c| *c != '}').collect();
					let c = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32);
					s.push(c.ok_or("bad escape")?);
				}
				c @ ('"' | '\\') => s.push(c),
				_ => return Err("bad escape".into()),
			},
			c => s.push(c),
		}
	}
}

fn lex(src: &str) -> Result<Vec<Tok>, String> {
	let mut out = vec![];
	let mut it = src.chars().peekable();
	while let Some(c) = it.next() {
		match c {
			c if c.is_whitespace() => {}
			';' => while it.next_if(|c| *c != '\n').is_some() {},
			'(' => out.push(Tok::Open),
			')' => out.push(Tok::Close),
			'{' => out.push(Tok::OpenT),
			'}' => out.push(Tok::CloseT),
			':' => out.push(Tok::Colon),
			',' => out.push(Tok::Comma),
			'"' => out.push(Tok::Str(string(&mut it, false)?)),
			'u' if it.peek() == Some(&'"') => {
				it.next();
				out.push(Tok::Utf8(string(&mut it, true)?));
			}
			c => {
				let mut w = c.to_string();
				while let Some(c) =
					it.next_if(|c| !c.is_whitespace() && !"(){}:,;\"".contains(*c))
				{
					w.push(c);
				}
				out.push(Tok::Word(w));
			}
		}
	}
	Ok(out)
}

fn word(w: &str) -> Result<Expr, String> {
	let lit = |v| Ok(Expr::Literal(v));
	if let Some(h) = w.strip_prefix("0x") {
		if h.len() % 2 != 0 || !h.is_ascii() {
			return Err(format!("bad buffer {w}"));
		}
		let b: Result<Vec<u8>, _> =
			(0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16)).collect();
		return lit(Value::Buff(b.map_err(|_| format!("bad buffer {w}"))?));
	}
	if let Some(p) = w.strip_prefix('\'') {
		return lit(Value::Principal(
			Principal::parse(p).ok_or_else(|| format!("bad principal {w}"))?,
		));
	}
	if let Some(c) = w.strip_prefix('.') {
		return Ok(Expr::Contract(c.into()));
	}
	if let Some(n) = w.strip_prefix('u').and_then(|n| n.parse::<u128>().ok()) {
		return lit(Value::UInt(n));
	}
	if let Ok(n) = w.parse::<i128>() {
		if !w.starts_with('+') {
			return lit(Value::Int(n));
		}
	}
	Ok(Expr::Symbol(w.into()))
}

fn expr(t: &[Tok], at: &mut usize) -> Result<Expr, String> {
	let tok = t.get(*at).ok_or("unexpected end")?;
	*at += 1;
	match tok {
		Tok::Str(s) => Ok(Expr::Literal(Value::Ascii(s.clone()))),
		Tok::Utf8(s) => Ok(Expr::Literal(Value::Utf8(s.clone()))),
		Tok::Word(w) => word(w),
		Tok::Open => {
			let mut v = vec![];
			while t.get(*at) != Some(&Tok::Close) {
				v.push(expr(t, at)?);
			}
			*at += 1;
			Ok(Expr::List(v))
		}
		Tok::OpenT => {
			let mut v = vec![];
			loop {
				match t.get(*at) {
					Some(Tok::CloseT) => break,
					Some(Tok::Word(k)) => {
						if t.get(*at + 1) != Some(&Tok::Colon) {
							return Err(format!("no colon after {k}"));
						}
						*at += 2;
						v.push((k.clone(), expr(t, at)?));
						if t.get(*at) == Some(&Tok::Comma) {
							*at += 1;
						}
					}
					x => return Err(format!("{x:?} in a tuple")),
				}
			}
			*at += 1;
			Ok(Expr::Tuple(v))
		}
		x => Err(format!("unexpected {x:?}")),
	}
}

pub fn parse(src: &str) -> Result<Vec<Expr>, String> {
	let t = lex(src)?;
	let mut at = 0;
	let mut out = vec![];
	while at < t.len() {
		out.push(expr(&t, &mut at)?);
	}
	Ok(out)
}

pub fn ty(e: &Expr) -> Result<Type, String> {
	let bad = || format!("unknown type {e:?}");
	let num = |e: &Expr| match e {
		Expr::Literal(Value::Int(n)) => Ok(*n as u128),
		Expr::Literal(Value::UInt(n)) => Ok(*n),
		_ => Err(bad()),
	};
	Ok(match e {
		Expr::Symbol(s) => match s.as_str() {
			"int" => Type::Int,
			"uint" => Type::UInt,
			"bool" => Type::Bool,
			"principal" => Type::Principal,
			_ => return Err(bad()),
		},
		Expr::Tuple(t) => Type::Tuple(fields(t)?),
		Expr::List(l) => match l.as_slice() {
			[Expr::Symbol(s), rest @ ..] => match (s.as_str(), rest) {
				("buff", [n]) => Type::Buff(num(n)?),
				("string-ascii", [n]) => Type::Ascii(num(n)?),
				("string-utf8", [n]) => Type::Utf8(num(n)?),
				("list", [n, t]) => Type::List(num(n)?, Box::new(ty(t)?)),
				("optional", [t]) => Type::Optional(Box::new(ty(t)?)),
				("response", [a, b]) => Type::Response(Box::new(ty(a)?), Box::new(ty(b)?)),
				("tuple", f) => {
					let mut m = BTreeMap::new();
					for x in f {
						match x {
							Expr::List(kv) => match kv.as_slice() {
								[Expr::Symbol(k), t] => m.insert(k.clone(), ty(t)?),
								_ => return Err(bad()),
							},
							_ => return Err(bad()),
						};
					}
					Type::Tuple(m)
				}
				_ => return Err(bad()),
			},
			_ => return Err(bad()),
		},
		_ => return Err(bad()),
	})
}

fn fields(t: &[(String, Expr)]) -> Result<BTreeMap<String, Type>, String> {
	t.iter().map(|(k, e)| Ok((k.clone(), ty(e)?))).collect()
}
