use crate::{
	compare, hash,
	parse::{ty, Expr},
	runtime, unknown, Code, Data, Eval, Function, Kind, Principal, Stop, Token, Value, World,
};
use std::{cmp::Ordering, collections::BTreeMap, sync::Arc};

struct Env<'a> {
	w: &'a mut World,
	contract: String,
	tx_sender: Principal,
	caller: Principal,
	depth: u32,
}

type Scope = Vec<(String, Value)>;

fn sym(e: &Expr) -> Result<&str, Stop> {
	match e {
		Expr::Symbol(s) => Ok(s),
		_ => unknown(format!("expected a name, got {e:?}")),
	}
}

pub fn call(
	w: &mut World,
	tx_sender: &Principal,
	caller: &Principal,
	contract: &str,
	function: &str,
	args: &[Value],
	any_kind: bool,
) -> Eval {
	let Some(code) = w.code.get(contract) else {
		return runtime(format!("no contract {contract}"));
	};
	let Some(f) = code.functions.get(function).cloned() else {
		return runtime(format!("no function {contract}.{function}"));
	};
	if f.kind == Kind::Private && !any_kind {
		return runtime(format!("{function} is private"));
	}
	let mut env = Env {
		w,
		contract: contract.into(),
		tx_sender: tx_sender.clone(),
		caller: caller.clone(),
		depth: 0,
	};
	env.apply(&f, args.to_vec())
}

pub fn deploy(w: &mut World, name: &str, program: &[Expr]) -> Result<(), Stop> {
	let me = w.deployer.clone();
	// functions may be used before they are defined
	let mut code = Code::default();
	for e in program {
		let Expr::List(l) = e else { continue };
		let [Expr::Symbol(d), rest @ ..] = l.as_slice() else { continue };
		let kind = match d.as_str() {
			"define-public" => Kind::Public,
			"define-read-only" => Kind::ReadOnly,
			"define-private" => Kind::Private,
			_ => continue,
		};
		let [Expr::List(sig), body @ ..] = rest else {
			return unknown("bad function definition");
		};
		let mut args = vec![];
		for a in &sig[1..] {
			match a {
				Expr::List(a) if a.len() == 2 => {
					args.push((sym(&a[0])?.to_string(), ty(&a[1]).map_err(Stop::Unknown)?))
				}
				_ => return unknown("bad argument"),
			}
		}
		let f = Function { kind, args, body: body.to_vec() };
		code.functions.insert(sym(&sig[0])?.into(), Arc::new(f));
	}
	w.code.insert(name.into(), code);
	let mut env =
		Env { w, contract: name.into(), tx_sender: me.clone(), caller: me, depth: 0 };
	for e in program {
		let Expr::List(l) = e else {
			env.eval(e, &mut vec![])?;
			continue;
		};
		let [Expr::Symbol(d), a @ ..] = l.as_slice() else {
			return unknown("bad top-level form");
		};
		match (d.as_str(), a) {
			("define-public" | "define-read-only" | "define-private", _) => {}
			("define-trait" | "impl-trait" | "use-trait", _) => {}
			("define-constant", [n, v]) => {
				let v = env.eval(v, &mut vec![])?;
				let n = sym(n)?.to_string();
				env.code().constants.insert(n, v);
			}
			("define-data-var", [n, t, v]) => {
				let t = ty(t).map_err(Stop::Unknown)?;
				let v = env.eval(v, &mut vec![])?;
				if !t.admits(&v) {
					return unknown("data var's value has the wrong type");
				}
				let n = sym(n)?.to_string();
				env.code().var_types.insert(n.clone(), t);
				env.data().vars.insert(n, v);
			}
			("define-map", [n, k, v]) => {
				let t = (ty(k).map_err(Stop::Unknown)?, ty(v).map_err(Stop::Unknown)?);
				let n = sym(n)?.to_string();
				env.code().map_types.insert(n.clone(), t);
				env.data().maps.insert(n, BTreeMap::new());
			}
			("define-fungible-token", [n, max @ ..]) => {
				let max = match max {
					[] => None,
					[m] => Some(uint(env.eval(m, &mut vec![])?)?),
					_ => return unknown("bad token"),
				};
				let n = sym(n)?.to_string();
				env.data().tokens.insert(n, Token { max, ..Default::default() });
			}
			("define-non-fungible-token", [n, _]) => {
				let n = sym(n)?.to_string();
				env.data().nfts.insert(n, BTreeMap::new());
			}
			_ => {
				env.eval(e, &mut vec![])?;
			}
		}
	}
	Ok(())
}

fn uint(v: Value) -> Result<u128, Stop> {
	match v {
		Value::UInt(n) => Ok(n),
		v => unknown(format!("expected a uint, got {v:?}")),
	}
}
fn bool(v: Value) -> Result<bool, Stop> {
	match v {
		Value::Bool(b) => Ok(b),
		v => unknown(format!("expected a bool, got {v:?}")),
	}
}
fn principal(v: Value) -> Result<Principal, Stop> {
	match v {
		Value::Principal(p) => Ok(p),
		v => unknown(format!("expected a principal, got {v:?}")),
	}
}
fn buff(v: Value) -> Result<Vec<u8>, Stop> {
	match v {
		Value::Buff(b) => Ok(b),
		v => unknown(format!("expected a buffer, got {v:?}")),
	}
}

fn sequence_len(v: &Value) -> Result<usize, Stop> {
	Ok(match v {
		Value::Buff(b) => b.len(),
		Value::Ascii(s) => s.len(),
		Value::Utf8(s) => s.chars().count(),
		Value::List(l) => l.len(),
		v => return unknown(format!("not a sequence: {v:?}")),
	})
}

fn slice(v: &Value, a: usize, b: usize) -> Value {
	match v {
		Value::Buff(x) => Value::Buff(x[a..b].to_vec()),
		Value::Ascii(x) => Value::Ascii(x[a..b].into()),
		Value::Utf8(x) => Value::Utf8(x.chars().skip(a).take(b - a).collect()),
		Value::List(x) => Value::List(x[a..b].to_vec()),
		_ => unreachable!(),
	}
}

fn elements(v: Value) -> Result<Vec<Value>, Stop> {
	Ok(match v {
		Value::List(l) => l,
		Value::Buff(b) => b.into_iter().map(|b| Value::Buff(vec![b])).collect(),
		Value::Ascii(s) => s.chars().map(|c| Value::Ascii(c.into())).collect(),
		Value::Utf8(s) => s.chars().map(|c| Value::Utf8(c.into())).collect(),
		v => return unknown(format!("not a sequence: {v:?}")),
	})
}

fn arith(op: &str, v: &[Value]) -> Eval {
	let over = || runtime(format!("arithmetic: {op} {v:?}"));
	match v {
		[Value::UInt(_), ..] => {
			let n: Vec<u128> = v.iter().cloned().map(uint).collect::<Result<_, _>>()?;
			let mut it = n.iter().copied();
			let first = it.next().unwrap();
			let r = match op {
				"+" => it.try_fold(first, |a, b| a.checked_add(b)),
				"*" => it.try_fold(first, |a, b| a.checked_mul(b)),
				"-" if n.len() == 1 => 0u128.checked_sub(first),
				"-" => it.try_fold(first, |a, b| a.checked_sub(b)),
				"/" => it.try_fold(first, |a, b| a.checked_div(b)),
				"mod" => it.try_fold(first, |a, b| a.checked_rem(b)),
				"pow" => match n[1] {
					_ if first <= 1 => Some(if n[1] == 0 { 1 } else { first }),
					e => u32::try_from(e).ok().and_then(|e| first.checked_pow(e)),
				},
				"bit-and" => Some(it.fold(first, |a, b| a & b)),
				"bit-or" => Some(it.fold(first, |a, b| a | b)),
				"bit-xor" | "xor" => Some(it.fold(first, |a, b| a ^ b)),
				"bit-not" => Some(!first),
				"bit-shift-left" => Some(first.wrapping_shl((n[1] % 128) as u32)),
				"bit-shift-right" => Some(first.wrapping_shr((n[1] % 128) as u32)),
				"sqrti" => {
					let mut lo = 0u128;
					let mut hi = 1u128 << 64;
					while lo + 1 < hi {
						let m = (lo + hi) / 2;
						if m.checked_mul(m).is_some_and(|x| x <= first) {
							lo = m
						} else {
							hi = m
						}
					}
					Some(lo)
				}
				"log2" => first.checked_ilog2().map(u128::from),
				_ => return unknown(op),
			};
			r.map_or_else(over, |r| Ok(Value::UInt(r)))
		}
		[Value::Int(_), ..] => {
			if op.starts_with("bit-shift") {
				let (Value::Int(a), [_, Value::UInt(s)]) = (v[0].clone(), v) else {
					return unknown(op);
				};
				let s = (s % 128) as u32;
				return Ok(Value::Int(if op == "bit-shift-left" {
					a.wrapping_shl(s)
				} else {
					a.wrapping_shr(s)
				}));
			}
			let n: Vec<i128> = v
				.iter()
				.map(|v| match v {
					Value::Int(i) => Ok(*i),
					v => unknown(format!("expected an int, got {v:?}")),
				})
				.collect::<Result<_, _>>()?;
			let mut it = n.iter().copied();
			let first = it.next().unwrap();
			let r = match op {
				"+" => it.try_fold(first, |a, b| a.checked_add(b)),
				"*" => it.try_fold(first, |a, b| a.checked_mul(b)),
				"-" if n.len() == 1 => first.checked_neg(),
				"-" => it.try_fold(first, |a, b| a.checked_sub(b)),
				"/" => it.try_fold(first, |a, b| a.checked_div(b)),
				"mod" => it.try_fold(first, |a, b| a.checked_rem(b)),
				"pow" => match n[1] {
					e if e < 0 => None,
					e if first == 0 || first == 1 => Some(if e == 0 { 1 } else { first }),
					e => u32::try_from(e).ok().and_then(|e| first.checked_pow(e)),
				},
				"bit-and" => Some(it.fold(first, |a, b| a & b)),
				"bit-or" => Some(it.fold(first, |a, b| a | b)),
				"bit-xor" | "xor" => Some(it.fold(first, |a, b| a ^ b)),
				"bit-not" => Some(!first),
				_ => return unknown(op),
			};
			r.map_or_else(over, |r| Ok(Value::Int(r)))
		}
		_ => unknown(format!("{op} {v:?}")),
	}
}

impl Env<'_> {
	fn code(&mut self) -> &mut Code {
		self.w.code.get_mut(&self.contract).unwrap()
	}
	fn data(&mut self) -> &mut Data {
		self.w.data.get_mut(&self.contract).unwrap()
	}
	fn token(&mut self, n: &Expr) -> Result<&mut Token, Stop> {
		let n = sym(n)?;
		match self.data().tokens.get_mut(n) {
			Some(t) => Ok(t),
			None => unknown(format!("no token {n}")),
		}
	}
	fn nft(&mut self, n: &Expr) -> Result<&mut BTreeMap<Value, Principal>, Stop> {
		let n = sym(n)?;
		match self.data().nfts.get_mut(n) {
			Some(t) => Ok(t),
			None => unknown(format!("no token {n}")),
		}
	}
	fn map(&mut self, n: &Expr) -> Result<&mut BTreeMap<Value, Value>, Stop> {
		let n = sym(n)?;
		match self.data().maps.get_mut(n) {
			Some(t) => Ok(t),
			None => unknown(format!("no map {n}")),
		}
	}
	/// The declared types of keys and values must admit what is stored.
	fn map_admits(&mut self, n: &Expr, k: &Value, v: Option<&Value>) -> Result<(), Stop> {
		let n = sym(n)?;
		let Some((tk, tv)) = self.code().map_types.get(n) else {
			return unknown(format!("no map {n}"));
		};
		if !tk.admits(k) || v.is_some_and(|v| !tv.admits(v)) {
			return unknown(format!("wrong type in map {n}: {k:?} {v:?}"));
		}
		Ok(())
	}

	fn apply(&mut self, f: &Function, args: Vec<Value>) -> Eval {
		if args.len() != f.args.len() {
			return runtime("wrong number of arguments");
		}
		let mut scope: Scope = vec![];
		for ((name, t), v) in f.args.iter().zip(args) {
			if !t.admits(&v) {
				return runtime(format!("argument {name}: {v:?} is no {t:?}"));
			}
			scope.push((name.clone(), v));
		}
		if self.depth > 64 {
			return runtime("call depth");
		}
		self.depth += 1;
		let r = self.block(&f.body, &mut scope);
		self.depth -= 1;
		match r {
			Err(Stop::Return(v)) => Ok(v),
			r => r,
		}
	}

	fn block(&mut self, body: &[Expr], s: &mut Scope) -> Eval {
		let mut last = unknown("empty body");
		for e in body {
			last = Ok(self.eval(e, s)?);
		}
		last
	}

	fn eval(&mut self, e: &Expr, s: &mut Scope) -> Eval {
		match e {
			Expr::Literal(v) => Ok(v.clone()),
			Expr::Contract(c) => Ok(Value::Principal(self.w.deployer.contract(c))),
			Expr::Symbol(n) => self.symbol(n, s),
			Expr::Tuple(t) => {
				let mut m = BTreeMap::new();
				for (k, e) in t {
					m.insert(k.clone(), self.eval(e, s)?);
				}
				Ok(Value::Tuple(m))
			}
			Expr::List(l) => {
				let [Expr::Symbol(f), a @ ..] = l.as_slice() else {
					return unknown(format!("not a call: {l:?}"));
				};
				self.form(f, a, s)
			}
		}
	}

	fn symbol(&mut self, n: &str, s: &Scope) -> Eval {
		if let Some((_, v)) = s.iter().rev().find(|(k, _)| k == n) {
			return Ok(v.clone());
		}
		Ok(match n {
			"true" => Value::Bool(true),
			"false" => Value::Bool(false),
			"none" => Value::none(),
			"tx-sender" => Value::Principal(self.tx_sender.clone()),
			"contract-caller" => Value::Principal(self.caller.clone()),
			"tx-sponsor?" => Value::none(),
			"block-height" | "stacks-block-height" => Value::UInt(self.w.block_height),
			"burn-block-height" => {
				Value::UInt(self.w.burn_headers.keys().last().copied().unwrap_or(0))
			}
			"is-in-regtest" | "is-in-mainnet" => Value::Bool(false),
			"chain-id" => Value::UInt(0x80000000),
			_ => match self.code().constants.get(n) {
				Some(v) => v.clone(),
				None => return unknown(format!("unbound {n}")),
			},
		})
	}

	fn all(&mut self, a: &[Expr], s: &mut Scope) -> Result<Vec<Value>, Stop> {
		a.iter().map(|e| self.eval(e, s)).collect()
	}

	/// Applies a function given by name to values, for fold, map and filter.
	fn by_name(&mut self, f: &str, args: Vec<Value>, s: &mut Scope) -> Eval {
		if let Some(f) = self.code().functions.get(f).cloned() {
			return self.apply(&f, args);
		}
		let lits: Vec<Expr> = args.into_iter().map(Expr::Literal).collect();
		self.form(f, &lits, s)
	}

	fn form(&mut self, f: &str, a: &[Expr], s: &mut Scope) -> Eval {
		if let Some(g) = self.code().functions.get(f).cloned() {
			let args = self.all(a, s)?;
			return self.apply(&g, args);
		}
		match (f, a) {
			("begin", _) => self.block(a, s),
			("let", [Expr::List(binds), body @ ..]) => {
				let depth = s.len();
				let r = (|| {
					for b in binds {
						match b {
							Expr::List(kv) if kv.len() == 2 => {
								let v = self.eval(&kv[1], s)?;
								s.push((sym(&kv[0])?.into(), v));
							}
							_ => return unknown("bad let"),
						}
					}
					self.block(body, s)
				})();
				s.truncate(depth);
				r
			}
			("if", [c, t, e]) => {
				if bool(self.eval(c, s)?)? {
					self.eval(t, s)
				} else {
					self.eval(e, s)
				}
			}
			("and", _) => {
				for x in a {
					if !bool(self.eval(x, s)?)? {
						return Ok(Value::Bool(false));
					}
				}
				Ok(Value::Bool(true))
			}
			("or", _) => {
				for x in a {
					if bool(self.eval(x, s)?)? {
						return Ok(Value::Bool(true));
					}
				}
				Ok(Value::Bool(false))
			}
			("asserts!", [c, e]) => {
				if bool(self.eval(c, s)?)? {
					Ok(Value::Bool(true))
				} else {
					let v = self.eval(e, s)?;
					Err(Stop::Return(v))
				}
			}
			("try!", [x]) => match self.eval(x, s)? {
				Value::Response(true, v) | Value::Optional(Some(v)) => Ok(*v),
				v @ (Value::Response(false, _) | Value::Optional(None)) => Err(Stop::Return(v)),
				v => unknown(format!("try! {v:?}")),
			},
			("unwrap!", [x, e]) => match self.eval(x, s)? {
				Value::Response(true, v) | Value::Optional(Some(v)) => Ok(*v),
				Value::Response(false, _) | Value::Optional(None) => {
					let v = self.eval(e, s)?;
					Err(Stop::Return(v))
				}
				v => unknown(format!("unwrap! {v:?}")),
			},
			("unwrap-err!", [x, e]) => match self.eval(x, s)? {
				Value::Response(false, v) => Ok(*v),
				Value::Response(true, _) => {
					let v = self.eval(e, s)?;
					Err(Stop::Return(v))
				}
				v => unknown(format!("unwrap-err! {v:?}")),
			},
			("unwrap-panic", [x]) => match self.eval(x, s)? {
				Value::Response(true, v) | Value::Optional(Some(v)) => Ok(*v),
				v @ (Value::Response(..) | Value::Optional(_)) => {
					runtime(format!("unwrap-panic of {v:?}"))
				}
				v => unknown(format!("unwrap-panic {v:?}")),
			},
			("unwrap-err-panic", [x]) => match self.eval(x, s)? {
				Value::Response(false, v) => Ok(*v),
				v => runtime(format!("unwrap-err-panic of {v:?}")),
			},
			("match", [x, n, some, none]) => match self.eval(x, s)? {
				Value::Optional(Some(v)) => self.bound(n, *v, some, s),
				Value::Optional(None) => self.eval(none, s),
				v => unknown(format!("match {v:?}")),
			},
			("match", [x, n, ok, m, err]) => match self.eval(x, s)? {
				Value::Response(true, v) => self.bound(n, *v, ok, s),
				Value::Response(false, v) => self.bound(m, *v, err, s),
				v => unknown(format!("match {v:?}")),
			},
			("default-to", [d, x]) => {
				let d = self.eval(d, s)?;
				match self.eval(x, s)? {
					Value::Optional(v) => Ok(v.map_or(d, |v| *v)),
					v => unknown(format!("default-to {v:?}")),
				}
			}
			("var-get", [n]) => {
				let n = sym(n)?;
				match self.data().vars.get(n) {
					Some(v) => Ok(v.clone()),
					None => unknown(format!("no var {n}")),
				}
			}
			("var-set", [n, v]) => {
				let v = self.eval(v, s)?;
				let n = sym(n)?;
				match self.code().var_types.get(n) {
					Some(t) if t.admits(&v) => {}
					_ => return unknown(format!("var-set {n} {v:?}")),
				}
				self.data().vars.insert(n.into(), v);
				Ok(Value::Bool(true))
			}
			("map-get?", [n, k]) => {
				let k = self.eval(k, s)?;
				self.map_admits(n, &k, None)?;
				Ok(Value::Optional(self.map(n)?.get(&k).cloned().map(Box::new)))
			}
			("map-insert" | "map-set", [n, k, v]) => {
				let k = self.eval(k, s)?;
				let v = self.eval(v, s)?;
				self.map_admits(n, &k, Some(&v))?;
				let m = self.map(n)?;
				if f == "map-insert" && m.contains_key(&k) {
					return Ok(Value::Bool(false));
				}
				m.insert(k, v);
				Ok(Value::Bool(true))
			}
			("map-delete", [n, k]) => {
				let k = self.eval(k, s)?;
				self.map_admits(n, &k, None)?;
				Ok(Value::Bool(self.map(n)?.remove(&k).is_some()))
			}
			("ft-get-supply", [t]) => Ok(Value::UInt(self.token(t)?.supply)),
			("ft-get-balance", [t, p]) => {
				let p = principal(self.eval(p, s)?)?;
				Ok(Value::UInt(self.token(t)?.balances.get(&p).copied().unwrap_or(0)))
			}
			("ft-mint?", [t, n, p]) => {
				let n = uint(self.eval(n, s)?)?;
				let p = principal(self.eval(p, s)?)?;
				let t = self.token(t)?;
				if n == 0 {
					return Ok(Value::err(Value::UInt(1)));
				}
				match t.supply.checked_add(n) {
					Some(x) if t.max.is_none_or(|m| x <= m) => t.supply = x,
					_ => return runtime("supply overflow"),
				}
				*t.balances.entry(p).or_default() += n;
				Ok(Value::ok(Value::Bool(true)))
			}
			("ft-burn?", [t, n, p]) => {
				let n = uint(self.eval(n, s)?)?;
				let p = principal(self.eval(p, s)?)?;
				let t = self.token(t)?;
				let b = t.balances.get(&p).copied().unwrap_or(0);
				if n == 0 || b < n {
					return Ok(Value::err(Value::UInt(1)));
				}
				t.supply -= n;
				t.balances.insert(p, b - n);
				Ok(Value::ok(Value::Bool(true)))
			}
			("ft-transfer?", [t, n, from, to]) => {
				let n = uint(self.eval(n, s)?)?;
				let from = principal(self.eval(from, s)?)?;
				let to = principal(self.eval(to, s)?)?;
				let t = self.token(t)?;
				if n == 0 {
					return Ok(Value::err(Value::UInt(3)));
				}
				if from == to {
					return Ok(Value::err(Value::UInt(2)));
				}
				let b = t.balances.get(&from).copied().unwrap_or(0);
				if b < n {
					return Ok(Value::err(Value::UInt(1)));
				}
				t.balances.insert(from, b - n);
				*t.balances.entry(to).or_default() += n;
				Ok(Value::ok(Value::Bool(true)))
			}
			("nft-get-owner?", [t, k]) => {
				let k = self.eval(k, s)?;
				let o = self.nft(t)?.get(&k).cloned();
				Ok(Value::Optional(o.map(|p| Box::new(Value::Principal(p)))))
			}
			("nft-mint?", [t, k, p]) => {
				let k = self.eval(k, s)?;
				let p = principal(self.eval(p, s)?)?;
				let t = self.nft(t)?;
				if t.contains_key(&k) {
					return Ok(Value::err(Value::UInt(1)));
				}
				t.insert(k, p);
				Ok(Value::ok(Value::Bool(true)))
			}
			("nft-burn?", [t, k, p]) => {
				let k = self.eval(k, s)?;
				let p = principal(self.eval(p, s)?)?;
				let t = self.nft(t)?;
				match t.get(&k) {
					None => Ok(Value::err(Value::UInt(1))),
					Some(o) if *o != p => Ok(Value::err(Value::UInt(3))),
					_ => {
						t.remove(&k);
						Ok(Value::ok(Value::Bool(true)))
					}
				}
			}
			("nft-transfer?", [t, k, from, to]) => {
				let k = self.eval(k, s)?;
				let from = principal(self.eval(from, s)?)?;
				let to = principal(self.eval(to, s)?)?;
				let t = self.nft(t)?;
				match t.get(&k) {
					_ if from == to => Ok(Value::err(Value::UInt(2))),
					None => Ok(Value::err(Value::UInt(3))),
					Some(o) if *o != from => Ok(Value::err(Value::UInt(1))),
					_ => {
						t.insert(k, to);
						Ok(Value::ok(Value::Bool(true)))
					}
				}
			}
			("print", [x]) => {
				let v = self.eval(x, s)?;
				self.w.events.push(v.clone());
				Ok(v)
			}
			("contract-call?", [c, f, rest @ ..]) => {
				let target = match c {
					Expr::Contract(c) => self.w.deployer.contract(c),
					c => principal(self.eval(c, s)?)?,
				};
				let args = self.all(rest, s)?;
				let f = sym(f)?;
				let Some(name) = target.contract.clone() else {
					return unknown("contract-call? of an account");
				};
				if !self.w.code.contains_key(&name) {
					return unknown(format!("no contract {name}"));
				}
				let Some(func) = self.w.code[&name].functions.get(f).cloned() else {
					return unknown(format!("no function {name}.{f}"));
				};
				if func.kind == Kind::Private {
					return unknown(format!("{name}.{f} is private"));
				}
				if self.depth > 64 {
					return runtime("call depth");
				}
				let saved = self.w.data.clone();
				let caller = self.w.deployer.contract(&self.contract);
				let mut inner = Env {
					w: &mut *self.w,
					contract: name,
					tx_sender: self.tx_sender.clone(),
					caller,
					depth: self.depth + 1,
				};
				let r = inner.apply(&func, args)?;
				if matches!(r, Value::Response(false, _)) {
					self.w.data = saved;
				}
				Ok(r)
			}
			("as-contract", [x]) => {
				let me = self.w.deployer.contract(&self.contract);
				let old = (
					std::mem::replace(&mut self.tx_sender, me.clone()),
					std::mem::replace(&mut self.caller, me),
				);
				let r = self.eval(x, s);
				(self.tx_sender, self.caller) = old;
				r
			}
			("fold", [f, seq, init]) => {
				let seq = elements(self.eval(seq, s)?)?;
				let mut acc = self.eval(init, s)?;
				let f = sym(f)?;
				for x in seq {
					acc = self.by_name(f, vec![x, acc], s)?;
				}
				Ok(acc)
			}
			("map", [f, seqs @ ..]) => {
				let mut cols = vec![];
				for q in seqs {
					cols.push(elements(self.eval(q, s)?)?);
				}
				let n = cols.iter().map(Vec::len).min().unwrap_or(0);
				let f = sym(f)?;
				let mut out = vec![];
				for i in 0..n {
					out.push(self.by_name(f, cols.iter().map(|c| c[i].clone()).collect(), s)?);
				}
				Ok(Value::List(out))
			}
			("filter", [f, seq]) => {
				let seq = self.eval(seq, s)?;
				let shape = slice(&seq, 0, 0);
				let f = sym(f)?;
				let mut out = vec![];
				for x in elements(seq)? {
					if bool(self.by_name(f, vec![x.clone()], s)?)? {
						out.push(x);
					}
				}
				Ok(match shape {
					Value::List(_) => Value::List(out),
					_ => out
						.into_iter()
						.try_fold(shape, |a, b| concat(a, b))?,
				})
			}
			("get", [k, x]) => match self.eval(x, s)? {
				Value::Tuple(mut t) => match t.remove(sym(k)?) {
					Some(v) => Ok(v),
					None => unknown(format!("no field {k:?}")),
				},
				Value::Optional(None) => Ok(Value::none()),
				Value::Optional(Some(t)) => match *t {
					Value::Tuple(mut t) => match t.remove(sym(k)?) {
						Some(v) => Ok(Value::some(v)),
						None => unknown(format!("no field {k:?}")),
					},
					v => unknown(format!("get {v:?}")),
				},
				v => unknown(format!("get {v:?}")),
			},
			("tuple", _) => {
				let mut m = BTreeMap::new();
				for x in a {
					match x {
						Expr::List(kv) if kv.len() == 2 => {
							let v = self.eval(&kv[1], s)?;
							m.insert(sym(&kv[0])?.into(), v);
						}
						_ => return unknown("bad tuple"),
					}
				}
				Ok(Value::Tuple(m))
			}
			("as-max-len?", [x, n]) => {
				let v = self.eval(x, s)?;
				let n = uint(self.eval(n, s)?)?;
				Ok(if sequence_len(&v)? as u128 <= n { Value::some(v) } else { Value::none() })
			}
			("get-burn-block-info?", [k, h]) => {
				let h = uint(self.eval(h, s)?)?;
				match sym(k)? {
					"header-hash" => Ok(Value::Optional(
						self.w.burn_headers.get(&h).map(|b| Box::new(Value::Buff(b.to_vec()))),
					)),
					k => unknown(format!("get-burn-block-info? {k}")),
				}
			}
			("from-consensus-buff?", [t, x]) => {
				let t = ty(t).map_err(Stop::Unknown)?;
				let b = buff(self.eval(x, s)?)?;
				Ok(match Value::deserialize(&b) {
					Some(v) if t.admits(&v) => Value::some(v),
					_ => Value::none(),
				})
			}
			_ => {
				let v = self.all(a, s)?;
				native(f, v)
			}
		}
	}

	fn bound(&mut self, n: &Expr, v: Value, body: &Expr, s: &mut Scope) -> Eval {
		s.push((sym(n)?.into(), v));
		let r = self.eval(body, s);
		s.pop();
		r
	}
}

fn concat(a: Value, b: Value) -> Eval {
	Ok(match (a, b) {
		(Value::Buff(mut a), Value::Buff(b)) => {
			a.extend(b);
			Value::Buff(a)
		}
		(Value::Ascii(a), Value::Ascii(b)) => Value::Ascii(a + &b),
		(Value::Utf8(a), Value::Utf8(b)) => Value::Utf8(a + &b),
		(Value::List(mut a), Value::List(b)) => {
			a.extend(b);
			Value::List(a)
		}
		(a, b) => return unknown(format!("concat {a:?} {b:?}")),
	})
}

/// Functions of values.
fn native(f: &str, mut v: Vec<Value>) -> Eval {
	let n = v.len();
	match (f, v.as_mut_slice()) {
		("ok", [x]) => Ok(Value::ok(x.clone())),
		("err", [x]) => Ok(Value::err(x.clone())),
		("some", [x]) => Ok(Value::some(x.clone())),
		("not", [Value::Bool(b)]) => Ok(Value::Bool(!*b)),
		("is-eq", all) if n > 0 => Ok(Value::Bool(all.windows(2).all(|w| w[0] == w[1]))),
		("is-ok", [Value::Response(b, _)]) => Ok(Value::Bool(*b)),
		("is-err", [Value::Response(b, _)]) => Ok(Value::Bool(!*b)),
		("is-some", [Value::Optional(o)]) => Ok(Value::Bool(o.is_some())),
		("is-none", [Value::Optional(o)]) => Ok(Value::Bool(o.is_none())),
		("<" | ">" | "<=" | ">=", [a, b]) => {
			let Some(o) = compare(a, b) else { return unknown(format!("{f} {a:?} {b:?}")) };
			Ok(Value::Bool(match f {
				"<" => o == Ordering::Less,
				">" => o == Ordering::Greater,
				"<=" => o != Ordering::Greater,
				_ => o != Ordering::Less,
			}))
		}
		("+" | "-" | "*" | "bit-and" | "bit-or" | "bit-xor", all) if n > 0 => arith(f, all),
		("/" | "mod" | "pow" | "xor" | "bit-shift-left" | "bit-shift-right", all) if n == 2 => {
			arith(f, all)
		}
		("bit-not" | "sqrti" | "log2", all) if n == 1 => arith(f, all),
		("to-int", [Value::UInt(x)]) => {
			i128::try_from(*x).map_or_else(|_| runtime("to-int overflow"), |x| Ok(Value::Int(x)))
		}
		("to-uint", [Value::Int(x)]) => {
			u128::try_from(*x).map_or_else(|_| runtime("to-uint underflow"), |x| Ok(Value::UInt(x)))
		}
		("len", [x]) => Ok(Value::UInt(sequence_len(x)? as u128)),
		("list", all) => Ok(Value::List(all.to_vec())),
		("concat", [a, b]) => concat(a.clone(), b.clone()),
		("append", [Value::List(l), x]) => {
			let mut l = l.clone();
			l.push(x.clone());
			Ok(Value::List(l))
		}
		("slice?", [q, Value::UInt(a), Value::UInt(b)]) => {
			let l = sequence_len(q)? as u128;
			Ok(if *b > l || a > b {
				Value::none()
			} else {
				Value::some(slice(q, *a as usize, *b as usize))
			})
		}
		("element-at" | "element-at?", [q, Value::UInt(i)]) => {
			let l = sequence_len(q)? as u128;
			if *i >= l {
				return Ok(Value::none());
			}
			let i = *i as usize;
			Ok(Value::some(match q {
				Value::List(l) => l[i].clone(),
				q => slice(q, i, i + 1),
			}))
		}
		("index-of" | "index-of?", [q, x]) => {
			let l = elements(q.clone())?;
			let i = l.iter().position(|y| y == x);
			Ok(Value::Optional(i.map(|i| Box::new(Value::UInt(i as u128)))))
		}
		("replace-at?", [Value::List(l), Value::UInt(i), x]) => {
			let mut l = l.clone();
			match l.get_mut(*i as usize) {
				Some(e) => {
					*e = x.clone();
					Ok(Value::some(Value::List(l)))
				}
				None => Ok(Value::none()),
			}
		}
		("replace-at?", [Value::Buff(l), Value::UInt(i), Value::Buff(x)]) if x.len() == 1 => {
			let mut l = l.clone();
			match l.get_mut(*i as usize) {
				Some(e) => {
					*e = x[0];
					Ok(Value::some(Value::Buff(l)))
				}
				None => Ok(Value::none()),
			}
		}
		("int-to-ascii", [Value::UInt(x)]) => Ok(Value::Ascii(x.to_string())),
		("int-to-ascii", [Value::Int(x)]) => Ok(Value::Ascii(x.to_string())),
		("int-to-utf8", [Value::UInt(x)]) => Ok(Value::Utf8(x.to_string())),
		("int-to-utf8", [Value::Int(x)]) => Ok(Value::Utf8(x.to_string())),
		("merge", [Value::Tuple(a), Value::Tuple(b)]) => {
			let mut a = std::mem::take(a);
			a.extend(std::mem::take(b));
			Ok(Value::Tuple(a))
		}
		("sha256", [x]) => Ok(Value::Buff(hash::sha256(&hashable(x)?).to_vec())),
		("to-consensus-buff?", [x]) => {
			let mut o = vec![];
			x.serialize(&mut o);
			Ok(Value::some(Value::Buff(o)))
		}
		("buff-to-uint-le" | "buff-to-uint-be" | "buff-to-int-le" | "buff-to-int-be", [Value::Buff(b)])
			if b.len() <= 16 =>
		{
			let mut x = [0u8; 16];
			if f.ends_with("le") {
				x[..b.len()].copy_from_slice(b);
				x.reverse();
			} else {
				x[16 - b.len()..].copy_from_slice(b);
			}
			let u = u128::from_be_bytes(x);
			Ok(if f.contains("uint") { Value::UInt(u) } else { Value::Int(u as i128) })
		}
		("is-standard", [Value::Principal(p)]) => {
			Ok(Value::Bool(matches!(p.version, 26 | 21)))
		}
		_ => unknown(format!("({f} {v:?})")),
	}
}

fn hashable(v: &Value) -> Result<Vec<u8>, Stop> {
	match v {
		Value::Buff(b) => Ok(b.clone()),
		Value::UInt(n) => Ok(n.to_le_bytes().to_vec()),
		Value::Int(n) => Ok(n.to_le_bytes().to_vec()),
		v => unknown(format!("hash of {v:?}")),
	}
}

#[cfg(test)]
mod tests {
	use super::*;
	use crate::Called;
	#[test]
	fn sha() {
		let h = hash::sha256(b"abc");
		assert_eq!(h[..4], [0xba, 0x78, 0x16, 0xbf]);
	}
	#[test]
	fn contract() {
		let base = "/repo/romeo/asset-contract/contracts/";
		let read = |n: &str| std::fs::read_to_string(format!("{base}{n}")).unwrap();
		for which in ["clarity-bitcoin-mini.clar", "clarity-bitcoin-mini-deploy.clar"] {
			let me = Principal::new(26, [1; 20]);
			let mut w = World::new(me.clone());
			w.deploy("clarity-bitcoin-mini", &read(which)).unwrap();
			w.deploy("asset", &read("asset.clar")).unwrap();
			// block of two transactions
			let (a, b) = ([3u8; 32], [4u8; 32]);
			let mut cat = a.to_vec();
			cat.extend(b);
			let root = hash::sha256d(&cat);
			let mut header = vec![7u8; 80];
			header[36..68].copy_from_slice(&root);
			let mut hh = hash::sha256d(&header);
			hh.reverse();
			w.burn_headers.insert(5, hh);
			let r = w.call(&me, &me, "clarity-bitcoin-mini", "debug-insert-burn-header-hash", &[Value::buff(hh), Value::UInt(5)]);
			println!("{r:?}");
			let to = Principal::new(26, [2; 20]);
			let mut args = vec![Value::UInt(10), Value::Principal(to.clone()), Value::buff(a), Value::UInt(5), Value::List(vec![Value::buff(b)]), Value::UInt(0), Value::Buff(header)];
			let r = w.call(&me, &me, "asset", "mint", &args).unwrap();
			println!("{r:?}");
			assert!(r.is_ok());
			assert_eq!(w.call(&me, &me, "asset", "mint", &args).unwrap(), Called::Value(Value::err(Value::UInt(500))));
			args[2] = Value::buff(b);
			assert_eq!(w.call(&me, &me, "asset", "mint", &args).unwrap(), Called::Value(Value::err(Value::UInt(7))));
			assert_eq!(w.read("asset", "get-balance", &[Value::Principal(to)]).unwrap(), Called::Value(Value::ok(Value::UInt(10))));
			println!("{:?}", w.read("asset", "get-token-uri", &[]));
		}
	}
}
