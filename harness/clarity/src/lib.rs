//! A small interpreter for the Clarity language: enough to run /repo's contracts (and
//! rewritten versions of them) the way a Stacks node does.
//!
//! Values are checked against the declared types of function arguments; everything else
//! that the real type checker decides before deployment is taken for granted.
//! Anything the interpreter does not know is `Stop::Unknown`, never a guess.
pub mod hash;
mod eval;
mod parse;

pub use parse::Expr;
use std::{
	cmp::Ordering,
	collections::{BTreeMap, HashMap},
	sync::Arc,
};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Principal {
	pub version: u8,
	pub hash: [u8; 20],
	pub contract: Option<String>,
}

impl std::fmt::Debug for Principal {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "'{}:", self.version)?;
		for b in self.hash {
			write!(f, "{b:02x}")?;
		}
		match &self.contract {
			Some(c) => write!(f, ".{c}"),
			None => Ok(()),
		}
	}
}

impl Principal {
	pub fn new(version: u8, hash: [u8; 20]) -> Self {
		Self { version, hash, contract: None }
	}
	pub fn contract(&self, name: &str) -> Self {
		Self { contract: Some(name.into()), ..self.clone() }
	}
	pub fn parse(text: &str) -> Option<Self> {
		let (a, c) = match text.split_once('.') {
			Some((a, c)) => (a, Some(c.to_string())),
			None => (text, None),
		};
		let (version, hash) = hash::c32_address(a)?;
		Some(Self { version, hash, contract: c })
	}
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum Value {
	Int(i128),
	UInt(u128),
	Bool(bool),
	Buff(Vec<u8>),
	Ascii(String),
	Utf8(String),
	List(Vec<Value>),
	Tuple(BTreeMap<String, Value>),
	Optional(Option<Box<Value>>),
	Response(bool, Box<Value>),
	Principal(Principal),
}

impl std::fmt::Debug for Value {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		match self {
			Value::Int(i) => write!(f, "{i}"),
			Value::UInt(i) => write!(f, "u{i}"),
			Value::Bool(b) => write!(f, "{b}"),
			Value::Buff(b) => {
				write!(f, "0x")?;
				b.iter().try_for_each(|b| write!(f, "{b:02x}"))
			}
			Value::Ascii(s) => write!(f, "{s:?}"),
			Value::Utf8(s) => write!(f, "u{s:?}"),
			Value::List(l) => f.debug_list().entries(l).finish(),
			Value::Tuple(t) => f.debug_map().entries(t).finish(),
			Value::Optional(None) => write!(f, "none"),
			Value::Optional(Some(v)) => write!(f, "(some {v:?})"),
			Value::Response(true, v) => write!(f, "(ok {v:?})"),
			Value::Response(false, v) => write!(f, "(err {v:?})"),
			Value::Principal(p) => write!(f, "{p:?}"),
		}
	}
}

impl Value {
	pub fn some(v: Value) -> Self {
		Value::Optional(Some(Box::new(v)))
	}
	pub fn none() -> Self {
		Value::Optional(None)
	}
	pub fn ok(v: Value) -> Self {
		Value::Response(true, Box::new(v))
	}
	pub fn err(v: Value) -> Self {
		Value::Response(false, Box::new(v))
	}
	pub fn buff(b: impl Into<Vec<u8>>) -> Self {
		Value::Buff(b.into())
	}

	/// The consensus serialisation.
	pub fn serialize(&self, out: &mut Vec<u8>) {
		let len = |out: &mut Vec<u8>, n: usize| out.extend((n as u32).to_be_bytes());
		match self {
			Value::Int(i) => {
				out.push(0);
				out.extend(i.to_be_bytes());
			}
			Value::UInt(i) => {
				out.push(1);
				out.extend(i.to_be_bytes());
			}
			Value::Buff(b) => {
				out.push(2);
				len(out, b.len());
				out.extend(b);
			}
			Value::Bool(true) => out.push(3),
			Value::Bool(false) => out.push(4),
			Value::Principal(p) => {
				out.push(if p.contract.is_some() { 6 } else { 5 });
				out.push(p.version);
				out.extend(p.hash);
				if let Some(c) = &p.contract {
					out.push(c.len() as u8);
					out.extend(c.bytes());
				}
			}
			Value::Response(ok, v) => {
				out.push(if *ok { 7 } else { 8 });
				v.serialize(out);
			}
			Value::Optional(None) => out.push(9),
			Value::Optional(Some(v)) => {
				out.push(10);
				v.serialize(out);
			}
			Value::List(l) => {
				out.push(11);
				len(out, l.len());
				l.iter().for_each(|v| v.serialize(out));
			}
			Value::Tuple(t) => {
				out.push(12);
				len(out, t.len());
				for (k, v) in t {
					out.push(k.len() as u8);
					out.extend(k.bytes());
					v.serialize(out);
				}
			}
			Value::Ascii(s) => {
				out.push(13);
				len(out, s.len());
				out.extend(s.bytes());
			}
			Value::Utf8(s) => {
				out.push(14);
				len(out, s.len());
				out.extend(s.bytes());
			}
		}
	}

	/// Reads a consensus serialisation that fills the whole slice.
	pub fn deserialize(data: &[u8]) -> Option<Self> {
		let mut at = data;
		let v = Self::read(&mut at)?;
		at.is_empty().then_some(v)
	}

	fn read(r: &mut &[u8]) -> Option<Self> {
		fn take<'a>(r: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
			(r.len() >= n).then(|| {
				let (a, b) = r.split_at(n);
				*r = b;
				a
			})
		}
		let byte = |r: &mut &[u8]| take(r, 1).map(|b| b[0]);
		let len = |r: &mut &[u8]| {
			take(r, 4).map(|b| u32::from_be_bytes(b.try_into().unwrap()) as usize)
		};
		Some(match byte(r)? {
			0 => Value::Int(i128::from_be_bytes(take(r, 16)?.try_into().unwrap())),
			1 => Value::UInt(u128::from_be_bytes(take(r, 16)?.try_into().unwrap())),
			2 => {
				let n = len(r)?;
				Value::Buff(take(r, n)?.to_vec())
			}
			3 => Value::Bool(true),
			4 => Value::Bool(false),
			t @ (5 | 6) => {
				let version = byte(r)?;
				let hash = take(r, 20)?.try_into().unwrap();
				let contract = if t == 6 {
					let n = byte(r)? as usize;
					Some(String::from_utf8(take(r, n)?.to_vec()).ok()?)
				} else {
					None
				};
				Value::Principal(Principal { version, hash, contract })
			}
			t @ (7 | 8) => Value::Response(t == 7, Box::new(Self::read(r)?)),
			9 => Value::Optional(None),
			10 => Value::some(Self::read(r)?),
			11 => {
				let n = len(r)?;
				Value::List((0..n).map(|_| Self::read(r)).collect::<Option<_>>()?)
			}
			12 => {
				let n = len(r)?;
				let mut t = BTreeMap::new();
				for _ in 0..n {
					let k = byte(r)? as usize;
					let k = String::from_utf8(take(r, k)?.to_vec()).ok()?;
					t.insert(k, Self::read(r)?);
				}
				Value::Tuple(t)
			}
			t @ (13 | 14) => {
				let n = len(r)?;
				let s = String::from_utf8(take(r, n)?.to_vec()).ok()?;
				if t == 13 {
					Value::Ascii(s)
				} else {
					Value::Utf8(s)
				}
			}
			_ => return None,
		})
	}
}

/// A declared type.
#[derive(Clone, Debug)]
pub enum Type {
	Int,
	UInt,
	Bool,
	Principal,
	Buff(u128),
	Ascii(u128),
	Utf8(u128),
	List(u128, Box<Type>),
	Tuple(BTreeMap<String, Type>),
	Optional(Box<Type>),
	Response(Box<Type>, Box<Type>),
}

impl Type {
	pub fn admits(&self, v: &Value) -> bool {
		match (self, v) {
			(Type::Int, Value::Int(_))
			| (Type::UInt, Value::UInt(_))
			| (Type::Bool, Value::Bool(_))
			| (Type::Principal, Value::Principal(_))
			| (Type::Optional(_), Value::Optional(None)) => true,
			(Type::Buff(n), Value::Buff(b)) => b.len() as u128 <= *n,
			(Type::Ascii(n), Value::Ascii(b)) => b.len() as u128 <= *n,
			(Type::Utf8(n), Value::Utf8(b)) => b.chars().count() as u128 <= *n,
			(Type::List(n, t), Value::List(l)) => {
				l.len() as u128 <= *n && l.iter().all(|v| t.admits(v))
			}
			(Type::Tuple(t), Value::Tuple(v)) => {
				t.len() == v.len()
					&& t.iter().all(|(k, t)| v.get(k).is_some_and(|v| t.admits(v)))
			}
			(Type::Optional(t), Value::Optional(Some(v))) => t.admits(v),
			(Type::Response(o, e), Value::Response(ok, v)) => {
				if *ok { o } else { e }.admits(v)
			}
			_ => false,
		}
	}
}

/// Why evaluation did not produce a value.
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
	/// `try!`, `asserts!` or `unwrap!` returned early from the function.
	Return(Value),
	/// A runtime error: the transaction fails.
	Runtime(String),
	/// The interpreter does not know what to do: says nothing about the contract.
	Unknown(String),
}

pub type Eval = Result<Value, Stop>;

pub(crate) fn runtime<T>(m: impl Into<String>) -> Result<T, Stop> {
	Err(Stop::Runtime(m.into()))
}
pub(crate) fn unknown<T>(m: impl Into<String>) -> Result<T, Stop> {
	Err(Stop::Unknown(m.into()))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
	Public,
	ReadOnly,
	Private,
}

#[derive(Debug)]
pub struct Function {
	pub kind: Kind,
	pub args: Vec<(String, Type)>,
	pub body: Vec<Expr>,
}

/// What a deployed contract consists of, apart from its data.
#[derive(Clone, Debug, Default)]
pub struct Code {
	pub functions: HashMap<String, Arc<Function>>,
	pub constants: HashMap<String, Value>,
	pub map_types: HashMap<String, (Type, Type)>,
	pub var_types: HashMap<String, Type>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Token {
	pub max: Option<u128>,
	pub supply: u128,
	pub balances: BTreeMap<Principal, u128>,
}

/// A contract's data.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Data {
	pub vars: BTreeMap<String, Value>,
	pub maps: BTreeMap<String, BTreeMap<Value, Value>>,
	pub tokens: BTreeMap<String, Token>,
	pub nfts: BTreeMap<String, BTreeMap<Value, Principal>>,
}

/// A chain with contracts deployed by one account.
#[derive(Clone, Debug)]
pub struct World {
	pub deployer: Principal,
	pub(crate) code: HashMap<String, Code>,
	pub data: BTreeMap<String, Data>,
	/// Hashes of the Bitcoin blocks the chain has seen, by height, as explorers print them.
	pub burn_headers: BTreeMap<u128, [u8; 32]>,
	pub block_height: u128,
	pub events: Vec<Value>,
}

/// The result of a transaction that calls a contract.
#[derive(Clone, Debug, PartialEq)]
pub enum Called {
	/// The function returned this; its effects are kept unless it is an `err`.
	Value(Value),
	/// The transaction failed.
	Failed(String),
}

impl Called {
	pub fn is_ok(&self) -> bool {
		matches!(self, Called::Value(Value::Response(true, _)))
	}
}

impl World {
	pub fn new(deployer: Principal) -> Self {
		Self {
			deployer,
			code: HashMap::new(),
			data: BTreeMap::new(),
			burn_headers: BTreeMap::new(),
			block_height: 1,
			events: vec![],
		}
	}

	pub fn deploy(&mut self, name: &str, source: &str) -> Result<(), Stop> {
		let program = parse::parse(source).map_err(Stop::Unknown)?;
		self.code.insert(name.into(), Code::default());
		self.data.insert(name.into(), Data::default());
		eval::deploy(self, name, &program)
	}

	/// Calls a function as a transaction of `tx_sender`, through the contract
	/// `contract_caller` if that differs.
	pub fn call(
		&mut self,
		tx_sender: &Principal,
		contract_caller: &Principal,
		contract: &str,
		function: &str,
		args: &[Value],
	) -> Result<Called, String> {
		let (data, events) = (self.data.clone(), self.events.len());
		let r = eval::call(self, tx_sender, contract_caller, contract, function, args, false);
		match r {
			Ok(v) => {
				if matches!(v, Value::Response(false, _)) {
					self.data = data;
					self.events.truncate(events);
				}
				Ok(Called::Value(v))
			}
			Err(Stop::Unknown(m)) => Err(m),
			Err(e) => {
				self.data = data;
				self.events.truncate(events);
				Ok(Called::Failed(format!("{e:?}")))
			}
		}
	}

	/// Evaluates a read-only (or private) function.
	pub fn read(&mut self, contract: &str, function: &str, args: &[Value]) -> Result<Called, String> {
		let (data, events) = (self.data.clone(), self.events.len());
		let me = self.deployer.clone();
		let r = eval::call(self, &me, &me, contract, function, args, true);
		self.data = data;
		self.events.truncate(events);
		match r {
			Ok(v) => Ok(Called::Value(v)),
			Err(Stop::Unknown(m)) => Err(m),
			Err(e) => Ok(Called::Failed(format!("{e:?}"))),
		}
	}

	pub fn has_function(&self, contract: &str, function: &str) -> bool {
		self.code.get(contract).is_some_and(|c| c.functions.contains_key(function))
	}
}

pub(crate) fn compare(a: &Value, b: &Value) -> Option<Ordering> {
	Some(match (a, b) {
		(Value::Int(a), Value::Int(b)) => a.cmp(b),
		(Value::UInt(a), Value::UInt(b)) => a.cmp(b),
		(Value::Buff(a), Value::Buff(b)) => a.cmp(b),
		(Value::Ascii(a), Value::Ascii(b)) => a.cmp(b),
		(Value::Utf8(a), Value::Utf8(b)) => a.cmp(b),
		_ => return None,
	})
}
