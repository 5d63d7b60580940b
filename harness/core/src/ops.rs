//! C01-C07: OP_RETURN operations.
use bdk::{
	bitcoin::{
		hashes::{sha256, Hash},
		secp256k1::{
			ecdsa::{RecoverableSignature, RecoveryId},
			Message, Secp256k1,
		},
		Address, Network, OutPoint, PackedLockTime, Script, Sequence, Transaction, TxIn, TxOut,
		Witness,
	},
};
use proptest::{collection::vec, prelude::*};
use sbtc_core::operations::op_return::{
	deposit::{build_deposit_transaction, Deposit},
	utils::reorder_outputs,
	withdrawal_fulfillment::{self as ful, build_withdrawal_fulfillment_tx},
	withdrawal_request::{self as wr, build_withdrawal_tx, try_parse_withdrawal_request},
};
use serde::{Deserialize, Serialize};
use stacks_core::{codec::Codec, uint::Uint256, BlockId};
use vkit::{ensure, ensure_eq, CheckResult, Outcome, Property, Stage};

use crate::{gens::*, wallets::*};

/// How an amount relates to the boundaries of the case.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Amt {
	Exact(u64),
	Dust(i64),
	TotalMinus(u64),
	Part(u16),
	/// so that the change equals the amount or differs from it by a bit
	Half(i64),
}

impl Amt {
	pub fn get(&self, dust: u64, total: u64) -> u64 {
		match self {
			Amt::Exact(v) => *v,
			Amt::Dust(d) => dust.saturating_add_signed(*d),
			Amt::TotalMinus(d) => total.saturating_sub(*d),
			Amt::Part(p) => (total as u128 * *p as u128 / 65_536) as u64,
			Amt::Half(d) => (total / 2).saturating_add_signed(*d),
		}
	}
}

pub fn amt() -> impl Strategy<Value = Amt> + Clone {
	prop_oneof![
		4 => any::<u16>().prop_map(Amt::Part),
		3 => (-3i64..=3).prop_map(Amt::Dust),
		2 => (0u64..2_000).prop_map(Amt::TotalMinus),
		2 => (-200i64..=0).prop_map(Amt::Half),
		1 => (0u64..200_000).prop_map(Amt::Exact),
		1 => Just(Amt::Exact(0)),
	]
}

/// The address, possibly the wallet's own.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum To {
	Other(Addr),
	Own,
}

impl To {
	pub fn addr(&self, coins: &Coins) -> Addr {
		match self {
			To::Other(a) => a.clone(),
			To::Own => Addr::P2wpkh(
				bdk::bitcoin::hashes::hash160::Hash::hash(&pk(&coins.key).serialize()).into_inner(),
			),
		}
	}
}

pub fn to() -> impl Strategy<Value = To> + Clone {
	prop_oneof![9 => addr().prop_map(To::Other), 1 => Just(To::Own)]
}

/// Common shape of a built transaction: the required outputs first, then at
/// most one change output back to the wallet.
fn check_outputs(
	tx: &Transaction,
	required: &[(Vec<u8>, u64)],
	change: &Script,
) -> Result<bool, String> {
	ensure!(
		tx.output.len() >= required.len(),
		"{} outputs, at least {} required: {:?}",
		tx.output.len(),
		required.len(),
		tx.output
	);
	for (i, (script, value)) in required.iter().enumerate() {
		ensure_eq!(
			hex::encode(&tx.output[i].script_pubkey),
			hex::encode(script),
			"script of output {i}"
		);
		ensure_eq!(tx.output[i].value, *value, "value of output {i}");
	}
	for o in &tx.output[required.len()..] {
		ensure!(
			&o.script_pubkey == change,
			"extra output {o:?} does not go back to the wallet"
		);
	}
	Ok(tx.output.len() > required.len())
}

/// Enough to fund `amount` at 1 sat/vB whatever coins are selected.
pub fn surely_funded(total: u64, amount: u64, coins: usize) -> bool {
	total >= amount.saturating_add(1_000 + 80 * coins as u64)
}

// ---------------------------------------------------------------- C01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DepositCase {
	net: u8,
	recipient: Principal,
	to: To,
	amount: Amt,
	coins: Coins,
}

fn deposit_case() -> impl Strategy<Value = DepositCase> {
	(0u8..4, principal(), to(), amt(), coins())
		.prop_map(|(net, recipient, to, amount, coins)| DepositCase { net, recipient, to, amount, coins })
}

fn deposit_data(net: Network, p: &Principal) -> Vec<u8> {
	let mut d = magic(net).to_vec();
	d.push(b'<');
	d.extend(p.wire());
	d
}

/// The outputs of a deposit; whether there is change.
pub fn deposit_layout(
	n: Network,
	tx: &Transaction,
	recipient: &Principal,
	wallet: &Addr,
	amount: u64,
	change: &Script,
) -> Result<bool, String> {
	let required = [(op_return(&deposit_data(n, recipient)), 0), (wallet.script(), amount)];
	check_outputs(tx, &required, change)
}

fn deposit_check(c: &DepositCase) -> CheckResult {
	let n = net(c.net);
	let addr = c.to.addr(&c.coins);
	let dust = addr.dust();
	let amount = c.amount.get(dust, c.coins.total());
	let (wallet, _) = c.coins.wallet(n);
	let res = build_deposit_transaction(wallet, c.recipient.build(), addr.build(n), amount, n);
	let o = Outcome::new(false)
		.label(addr.kind())
		.label_if(c.recipient.contract.is_some(), "contract")
		.label_if(matches!(c.to, To::Own), "own-address");
	if amount < dust {
		ensure!(res.is_err(), "amount {amount} below dust {dust} was accepted");
		return Ok(o.label("below-dust"));
	}
	let tx = match res {
		Ok(tx) => tx,
		Err(e) => {
			ensure!(
				!surely_funded(c.coins.total(), amount, c.coins.values.len()),
				"fundable deposit of {amount} refused: {e}"
			);
			return Ok(o.label("unfunded"));
		}
	};
	let change = deposit_layout(n, &tx, &c.recipient, &addr, amount, &c.coins.script())?;
	let d = Deposit::parse(n, tx.clone()).map_err(|e| format!("built deposit does not parse: {e}"))?;
	ensure_eq!(d.amount, amount, "parsed amount");
	ensure_eq!(Principal::of(&d.recipient), c.recipient, "parsed recipient");
	ensure_eq!(d.sbtc_wallet_address, addr.build(n), "parsed wallet address");
	ensure_eq!(d.network, n, "parsed network");
	ensure!(try_parse_withdrawal_request(n, tx).is_err(), "deposit also parses as a withdrawal");
	Ok(Outcome { nontrivial: true, ..o }
		.label(if change { "change" } else { "no-change" })
		.label_if(amount <= dust + 3, "near-dust"))
}

pub fn c01() -> Property {
	Property::new(
		"C01",
		"A case is a network, recipient, sBTC wallet address, amount (near dust, near or above the funds, half the funds, arbitrary) and a set of coins; non-trivial when a transaction was built and its layout and parse were compared.",
	)
	.assume("coin selection and output shuffling of the wallet library draw their own randomness; a case is one such draw")
	.stage(Stage::new("build-parse", 60_000, 1_500_000, deposit_case, deposit_check).attempts(40).shrink(3000))
}

// ---------------------------------------------------------------- C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WithdrawCase {
	net: u8,
	drawee: [u8; 32],
	payee: To,
	wallet: To,
	/// use the payee address as the sBTC wallet
	same: bool,
	amount: u64,
	fee: Amt,
	coins: Coins,
}

fn withdraw_case() -> impl Strategy<Value = WithdrawCase> {
	(
		0u8..4,
		seed32(),
		to(),
		to(),
		prop::bool::weighted(0.15),
		amount_any(),
		amt(),
		coins(),
	)
		.prop_map(|(net, drawee, payee, wallet, same, amount, fee, coins)| WithdrawCase {
			net,
			drawee,
			payee,
			wallet,
			same,
			amount,
			fee,
			coins,
		})
}

impl WithdrawCase {
	fn addrs(&self) -> (Addr, Addr) {
		let payee = self.payee.addr(&self.coins);
		let wallet = if self.same { payee.clone() } else { self.wallet.addr(&self.coins) };
		(payee, wallet)
	}
}

/// The documented signing message, built independently.
pub fn reference_message(amount: u64, payee: &Address, payee_script: &[u8]) -> Option<Vec<u8>> {
	let mut data = amount.to_be_bytes().to_vec();
	data.extend(payee_script);
	let text = format!(
		"Withdraw request for {amount} satoshis to the bitcoin address {payee} ({})",
		hex::encode(data)
	);
	if text.len() > 252 {
		return None; // outside the documented one-byte length
	}
	let mut m = vec![23u8];
	m.extend(b"Stacks Signed Message:\n");
	m.push(text.len() as u8);
	m.extend(text.as_bytes());
	Some(m)
}

pub fn stacks_p2pkh(n: Network, key: &bdk::bitcoin::secp256k1::PublicKey) -> (u8, [u8; 20]) {
	(
		if n == Network::Bitcoin { 22 } else { 26 },
		bdk::bitcoin::hashes::hash160::Hash::hash(&key.serialize()).into_inner(),
	)
}

/// The outputs of a withdrawal request; whether there is change, and the signature.
#[allow(clippy::too_many_arguments)]
pub fn withdrawal_layout(
	n: Network,
	tx: &Transaction,
	drawee: &[u8; 32],
	payee: &Addr,
	wallet_addr: &Addr,
	amount: u64,
	fee: u64,
	change: &Script,
) -> Result<(bool, Vec<u8>), String> {
	ensure!(!tx.output.is_empty(), "no outputs");
	let script = tx.output[0].script_pubkey.as_bytes().to_vec();
	let mut head = magic(n).to_vec();
	head.push(b'>');
	head.extend(amount.to_be_bytes());
	ensure!(script.len() >= 76, "data output has {} bytes", script.len());
	let data = &script[script.len() - 76..];
	ensure_eq!(hex::encode(&data[..11]), hex::encode(&head), "data output head");
	ensure_eq!(hex::encode(&script), hex::encode(op_return(data)), "data output script");
	let sig_bytes = data[11..].to_vec();
	let required =
		[(op_return(data), 0), (payee.script(), payee.dust()), (wallet_addr.script(), fee)];
	let change = check_outputs(tx, &required, change)?;
	let secp = Secp256k1::new();
	let key = pk(drawee);
	if let Some(m) = reference_message(amount, &payee.build(n), &payee.script()) {
		let sig = RecoverableSignature::from_compact(
			&sig_bytes[1..],
			RecoveryId::from_i32(sig_bytes[0] as i32).map_err(|e| e.to_string())?,
		)
		.map_err(|e| e.to_string())?;
		let got = secp
			.recover_ecdsa(&Message::from_slice(&sha256::Hash::hash(&m)).unwrap(), &sig)
			.map_err(|e| format!("signature recovers no key: {e}"))?;
		ensure_eq!(got, key, "key that signed the documented message");
	}
	Ok((change, sig_bytes))
}

fn withdraw_check(c: &WithdrawCase) -> CheckResult {
	let n = net(c.net);
	let (payee, wallet_addr) = c.addrs();
	let dust = wallet_addr.dust();
	let fee = c.fee.get(dust, c.coins.total());
	let (wallet, _) = c.coins.wallet(n);
	let res = build_withdrawal_tx(
		&wallet,
		n,
		sk(&c.drawee),
		payee.build(n),
		wallet_addr.build(n),
		c.amount,
		fee,
	);
	let o = Outcome::new(false)
		.label(payee.kind())
		.label_if(c.same, "payee-is-wallet")
		.label_if(c.same && fee == payee.dust(), "equal-outputs");
	if fee < dust {
		ensure!(res.is_err(), "fulfillment fee {fee} below dust {dust} was accepted");
		return Ok(o.label("below-dust"));
	}
	let tx = match res {
		Ok(tx) => tx,
		Err(e) => {
			ensure!(
				!surely_funded(c.coins.total(), fee.saturating_add(payee.dust()), c.coins.values.len()),
				"fundable withdrawal request refused: {e}"
			);
			return Ok(o.label("unfunded"));
		}
	};
	let (change, sig_bytes) = withdrawal_layout(
		n,
		&tx,
		&c.drawee,
		&payee,
		&wallet_addr,
		c.amount,
		fee,
		&c.coins.script(),
	)?;
	let key = pk(&c.drawee);
	let r = try_parse_withdrawal_request(n, tx.clone())
		.map_err(|e| format!("built withdrawal request does not parse: {e}"))?;
	ensure_eq!(r.amount, c.amount, "parsed amount");
	ensure_eq!(r.fulfillment_amount, fee, "parsed fee");
	ensure_eq!(r.payee_bitcoin_address, payee.build(n), "parsed payee");
	ensure_eq!(r.sbtc_wallet, wallet_addr.build(n), "parsed sBTC wallet");
	let (rid, compact) = r.signature.serialize_compact();
	ensure_eq!(rid.to_i32() as u8, sig_bytes[0], "parsed recovery id");
	ensure_eq!(hex::encode(compact), hex::encode(&sig_bytes[1..]), "parsed signature");
	let (v, h) = stacks_p2pkh(n, &key);
	ensure_eq!(r.drawee_stacks_address.version() as u8, v, "drawee version");
	ensure_eq!(hex::encode(r.drawee_stacks_address.hash()), hex::encode(h), "drawee hash");
	ensure!(Deposit::parse(n, tx).is_err(), "withdrawal request also parses as a deposit");
	Ok(Outcome { nontrivial: true, ..o }
		.label(if change { "change" } else { "no-change" })
		.label_if(fee <= dust + 3, "near-dust"))
}

pub fn c02() -> Property {
	Property::new(
		"C02",
		"A case is a network, drawee key, payee, sBTC wallet (15% equal to the payee), amount, fee (near dust, near the funds, arbitrary) and coins; non-trivial when a request was built and its layout, signature and parse were compared.",
	)
	.assume("for payees whose signing message exceeds 252 bytes (future witness versions with long programs) the one-byte length of the documented format is undefined; there only the library's own round trip is compared")
	.stage(Stage::new("build-parse", 50_000, 1_200_000, withdraw_case, withdraw_check).attempts(40).shrink(3000))
}

// ---------------------------------------------------------------- C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tamper {
	None,
	Amount(u64),
	AmountBit(u8),
	Payee(Addr),
	PayeeBit(u16),
	SigBit(u16),
	SigByte(u8, u8),
	OtherKey([u8; 32]),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AuthCase {
	net: u8,
	drawee: [u8; 32],
	payee: Addr,
	wallet: Addr,
	amount: u64,
	tamper: Tamper,
	/// sign with the library or with the reference implementation
	by_library: bool,
}

fn auth_case() -> impl Strategy<Value = AuthCase> {
	let tamper = prop_oneof![
		3 => Just(Tamper::None),
		2 => amount_any().prop_map(Tamper::Amount),
		2 => (0u8..64).prop_map(Tamper::AmountBit),
		2 => addr().prop_map(Tamper::Payee),
		2 => any::<u16>().prop_map(Tamper::PayeeBit),
		2 => any::<u16>().prop_map(Tamper::SigBit),
		2 => (0u8..65, any::<u8>()).prop_map(|(a, b)| Tamper::SigByte(a, b)),
		1 => seed32().prop_map(Tamper::OtherKey),
	];
	(0u8..4, seed32(), addr(), addr(), amount_any(), tamper, any::<bool>()).prop_map(
		|(net, drawee, payee, wallet, amount, tamper, by_library)| AuthCase {
			net,
			drawee,
			payee,
			wallet,
			amount,
			tamper,
			by_library,
		},
	)
}

fn flip(v: &mut [u8], bit: usize) {
	let n = v.len() * 8;
	let b = bit % n;
	v[b / 8] ^= 1 << (b % 8);
}

fn auth_check(c: &AuthCase) -> CheckResult {
	let n = net(c.net);
	let secp = Secp256k1::new();
	let key = sk(&c.drawee);
	let payee = c.payee.build(n);
	let reference = reference_message(c.amount, &payee, &c.payee.script());
	// the library's message is the documented one
	if let Some(m) = &reference {
		let got = wr::create_withdrawal_request_signing_message(c.amount, &payee);
		ensure_eq!(
			hex::encode(got.as_ref()),
			hex::encode(sha256::Hash::hash(m)),
			"hash of the signing message"
		);
	}
	let lib_sig = wr::create_signature(&key, &payee, c.amount);
	let sig = match (&reference, c.by_library) {
		(Some(m), false) => secp.sign_ecdsa_recoverable(
			&Message::from_slice(&sha256::Hash::hash(m)).unwrap(),
			&key,
		),
		_ => lib_sig,
	};
	let mut amount = c.amount;
	let mut payee_script = c.payee.script();
	let (rid, compact) = sig.serialize_compact();
	let mut sigb = vec![rid.to_i32() as u8];
	sigb.extend(compact);
	let (sig0, amount0, script0) = (sigb.clone(), amount, payee_script.clone());
	match &c.tamper {
		Tamper::None => {}
		Tamper::Amount(a) => amount = *a,
		Tamper::AmountBit(b) => amount ^= 1 << b,
		Tamper::Payee(a) => payee_script = a.script(),
		Tamper::PayeeBit(b) => flip(&mut payee_script, *b as usize),
		Tamper::SigBit(b) => flip(&mut sigb, *b as usize),
		Tamper::SigByte(i, v) => sigb[*i as usize] = *v,
		Tamper::OtherKey(k) => {
			let s = wr::create_signature(&sk(k), &payee, c.amount);
			let (rid, compact) = s.serialize_compact();
			sigb = vec![rid.to_i32() as u8];
			sigb.extend(compact);
		}
	}
	let mut data = magic(n).to_vec();
	data.push(b'>');
	data.extend(amount.to_be_bytes());
	data.extend(&sigb);
	let tx = Transaction {
		version: 2,
		lock_time: PackedLockTime::ZERO,
		input: vec![],
		output: vec![
			TxOut { value: 0, script_pubkey: Script::from(op_return(&data)) },
			TxOut { value: 1000, script_pubkey: Script::from(payee_script.clone()) },
			TxOut { value: 2000, script_pubkey: Script::from(c.wallet.script()) },
		],
	};
	let changed = sigb != sig0 || amount != amount0 || payee_script != script0;
	let parsed = try_parse_withdrawal_request(n, tx);
	let signer = stacks_p2pkh(n, &pk(&c.drawee));
	let o = Outcome::new(true).label(match c.tamper {
		Tamper::None => "genuine",
		Tamper::Amount(_) | Tamper::AmountBit(_) => "amount-changed",
		Tamper::Payee(_) | Tamper::PayeeBit(_) => "payee-changed",
		Tamper::SigBit(_) | Tamper::SigByte(..) => "signature-changed",
		Tamper::OtherKey(_) => "other-key",
	});
	match parsed {
		Ok(r) => {
			let got = (
				r.drawee_stacks_address.version() as u8,
				<[u8; 20]>::try_from(r.drawee_stacks_address.hash().as_ref()).unwrap(),
			);
			if changed {
				ensure!(
					got != signer,
					"request changed by {:?} is still attributed to the original signer",
					c.tamper
				);
				if let Tamper::OtherKey(k) = &c.tamper {
					ensure_eq!(got, stacks_p2pkh(n, &pk(k)), "signer");
				}
				// whoever it is attributed to must have signed exactly this
				let recovered = wr::recover_signature(r.amount, &r.payee_bitcoin_address, &r.signature)
					.map_err(|e| e.to_string())?;
				ensure_eq!(got, stacks_p2pkh(n, &recovered), "attributed account");
				Ok(o.label("attributed-elsewhere"))
			} else {
				ensure_eq!(got, signer, "attributed account");
				Ok(o)
			}
		}
		Err(e) => {
			ensure!(changed, "genuine request refused: {e}");
			Ok(o.label("refused"))
		}
	}
}

pub fn c03() -> Property {
	Property::new(
		"C03",
		"A case is a key, amount, payee, network and one modification (none, amount value or bit, payee address or bit, signature bit or byte, signature by another key), signed by the library or by an independent implementation of the documented message; every case is non-trivial.",
	)
	.stage(Stage::new("tamper", 150_000, 4_000_000, auth_case, auth_check))
}

// ---------------------------------------------------------------- C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FulfillCase {
	net: u8,
	tip: [u8; 32],
	payee: To,
	amount: Amt,
	coins: Coins,
}

fn fulfill_case() -> impl Strategy<Value = FulfillCase> {
	(0u8..4, any::<[u8; 32]>(), to(), amt(), coins())
		.prop_map(|(net, tip, payee, amount, coins)| FulfillCase { net, tip, payee, amount, coins })
}

fn block_id(tip: &[u8; 32]) -> BlockId {
	// words of the number, least significant first
	let mut w = [0u64; 4];
	for i in 0..4 {
		w[3 - i] = u64::from_be_bytes(tip[i * 8..i * 8 + 8].try_into().unwrap());
	}
	BlockId::new(Uint256::from_u64_array(w))
}

fn fulfill_check(c: &FulfillCase) -> CheckResult {
	let n = net(c.net);
	let addr = c.payee.addr(&c.coins);
	let amount = c.amount.get(addr.dust(), c.coins.total());
	let (wallet, _) = c.coins.wallet(n);
	let res = build_withdrawal_fulfillment_tx(&wallet, block_id(&c.tip), n, &addr.build(n), amount);
	let o = Outcome::new(false).label(addr.kind());
	let tx = match res {
		Ok(tx) => tx,
		Err(e) => {
			ensure!(
				amount < addr.dust()
					|| !surely_funded(c.coins.total(), amount, c.coins.values.len()),
				"fundable fulfillment of {amount} refused: {e}"
			);
			return Ok(o.label("refused"));
		}
	};
	let mut data = magic(n).to_vec();
	data.push(b'!');
	data.extend(c.tip);
	let change =
		check_outputs(&tx, &[(op_return(&data), 0), (addr.script(), amount)], &c.coins.script())?;
	let got = ful::ParsedWithdrawalFulfillmentData::codec_deserialize(&mut &data[..])
		.map_err(|e| format!("data output does not decode: {e}"))?;
	ensure_eq!(hex::encode(got.chain_tip.serialize_to_vec()), hex::encode(c.tip), "decoded tip");
	ensure_eq!(magic(got.network), magic(n), "decoded network");
	ensure!(Deposit::parse(n, tx.clone()).is_err(), "fulfillment parses as a deposit");
	ensure!(
		try_parse_withdrawal_request(n, tx).is_err(),
		"fulfillment parses as a withdrawal request"
	);
	Ok(Outcome { nontrivial: true, ..o }.label(if change { "change" } else { "no-change" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FulfillBytes(Vec<u8>);

fn fulfill_bytes() -> impl Strategy<Value = FulfillBytes> {
	(
		prop_oneof![
			6 => prop::sample::select(vec![*b"X2", *b"T2", *b"id"]),
			1 => any::<[u8; 2]>()
		],
		prop_oneof![5 => Just(b'!'), 2 => prop::sample::select(vec![b'<', b'>', b'H']), 1 => any::<u8>()],
		prop_oneof![4 => vec(any::<u8>(), 32..=32), 1 => vec(any::<u8>(), 0..70)],
	)
		.prop_map(|(m, op, rest)| {
			let mut v = m.to_vec();
			v.push(op);
			v.extend(rest);
			FulfillBytes(v)
		})
}

fn fulfill_bytes_check(c: &FulfillBytes) -> CheckResult {
	let b = &c.0;
	let valid = b.len() >= 35 && [*b"X2", *b"T2", *b"id"].contains(&[b[0], b[1]]) && b[2] == b'!';
	let mut r = &b[..];
	match ful::ParsedWithdrawalFulfillmentData::codec_deserialize(&mut r) {
		Ok(d) => {
			ensure!(valid, "malformed fulfillment data accepted");
			ensure_eq!(r.len(), b.len() - 35, "unread bytes");
			ensure_eq!(magic(d.network), [b[0], b[1]], "magic");
			ensure_eq!(
				hex::encode(d.chain_tip.serialize_to_vec()),
				hex::encode(&b[3..35]),
				"chain tip"
			);
			ensure_eq!(hex::encode(d.serialize_to_vec()), hex::encode(&b[..35]), "serialised again");
		}
		Err(e) => ensure!(!valid, "valid fulfillment data refused: {e}"),
	}
	Ok(Outcome::new(valid || b.len() >= 3).label(if valid { "valid" } else { "invalid" }))
}

pub fn c04() -> Property {
	Property::new(
		"C04",
		"build: network, chain tip, payee, amount and coins, non-trivial when a transaction was built and compared; decode: fulfillment payloads, valid or with another opcode, magic or length, non-trivial when long enough to carry an opcode.",
	)
	.stage(Stage::new("build", 50_000, 1_200_000, fulfill_case, fulfill_check).attempts(40).shrink(3000))
	.stage(Stage::new("decode", 600_000, 20_000_000, fulfill_bytes, fulfill_bytes_check))
}

// ---------------------------------------------------------------- C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Push {
	Direct,
	Data1,
	Data2,
	Data4,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Payload {
	Raw(Vec<u8>),
	Deposit { version: u8, hash: [u8; 20], ptype: u8, name: Option<Vec<u8>>, name_len: Option<u8> },
	Withdraw { amount: u64, sig: Vec<u8> },
	/// signed by the given key for the payee in output 1
	Signed { amount: u64, key: [u8; 32] },
	Fulfill([u8; 32]),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DataOut {
	first: u8,
	/// other than the network's own
	magic: Option<[u8; 2]>,
	op: u8,
	payload: Payload,
	push: Push,
	cut: Option<u16>,
	mutate: Option<(u16, u8)>,
	extra: Vec<u8>,
	/// bytes after the push
	tail: Vec<u8>,
	/// lie about the push length by this much
	lie: i8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum OutSpec {
	Data(DataOut, u64),
	Addr(Addr, u64),
	Raw(Vec<u8>, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TxCase {
	net: u8,
	outputs: Vec<OutSpec>,
	inputs: u8,
}

fn magic_bytes() -> impl Strategy<Value = Option<[u8; 2]>> + Clone {
	prop_oneof![
		12 => Just(None),
		2 => prop::sample::select(vec![*b"X2", *b"T2", *b"id"]).prop_map(Some),
		1 => any::<[u8; 2]>().prop_map(Some)
	]
}

fn payload() -> impl Strategy<Value = (u8, Payload)> + Clone {
	let ver = prop_oneof![8 => version(), 1 => any::<u8>()];
	let name = prop_oneof![
		6 => contract_name().prop_map(String::into_bytes),
		1 => "[a-zA-Z0-9_-]{0,45}".prop_map(String::into_bytes),
		1 => vec(any::<u8>(), 0..50),
	];
	let dep = (
		ver,
		hash20(),
		prop_oneof![6 => prop::sample::select(vec![5u8, 6]), 1 => any::<u8>()],
		prop::option::weighted(0.7, name),
		prop::option::weighted(0.1, any::<u8>()),
	)
		.prop_map(|(version, hash, ptype, name, name_len)| Payload::Deposit {
			version,
			hash,
			ptype: if ptype == 5 && name.is_some() || ptype == 6 && name.is_none() {
				11 - ptype
			} else {
				ptype
			},
			name,
			name_len,
		});
	let sig = prop_oneof![
		3 => (0u8..5, vec(any::<u8>(), 64..=64)).prop_map(|(r, mut s)| { s.insert(0, r); s }),
		1 => (0u8..5, vec(any::<u8>(), 32..=32), any::<bool>()).prop_map(|(r, s, hi)| {
			// r or s at or above the group order
			let big = hex::decode("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141").unwrap();
			let mut v = vec![r];
			if hi { v.extend(&big); v.extend(s) } else { v.extend(s); v.extend(&big) }
			v
		}),
		1 => vec(any::<u8>(), 0..70),
		1 => Just(vec![0; 65]),
	];
	let wit = (amount_any(), sig).prop_map(|(amount, sig)| Payload::Withdraw { amount, sig });
	let signed = (amount_any(), seed32()).prop_map(|(amount, key)| Payload::Signed { amount, key });
	prop_oneof![
		5 => (prop_oneof![8 => Just(b'<'), 1 => any::<u8>()], dep),
		3 => (prop_oneof![8 => Just(b'>'), 1 => any::<u8>()], wit),
		3 => (prop_oneof![12 => Just(b'>'), 1 => any::<u8>()], signed),
		1 => (prop_oneof![8 => Just(b'!'), 1 => any::<u8>()], any::<[u8; 32]>().prop_map(Payload::Fulfill)),
		1 => (any::<u8>(), vec(any::<u8>(), 0..100).prop_map(Payload::Raw)),
	]
}

fn data_out() -> impl Strategy<Value = DataOut> + Clone {
	(
		prop_oneof![20 => Just(0x6au8), 1 => any::<u8>()],
		magic_bytes(),
		payload(),
		prop_oneof![
			8 => Just(Push::Direct),
			1 => Just(Push::Data1),
			1 => Just(Push::Data2),
			1 => Just(Push::Data4)
		],
		prop::option::weighted(0.12, any::<u16>()),
		prop::option::weighted(0.12, (any::<u16>(), any::<u8>())),
		prop_oneof![8 => Just(vec![]), 1 => vec(any::<u8>(), 1..12)],
		prop_oneof![8 => Just(vec![]), 1 => vec(any::<u8>(), 1..12)],
		prop_oneof![15 => Just(0i8), 1 => -3i8..=3],
	)
		.prop_map(|(first, magic, (op, payload), push, cut, mutate, extra, tail, lie)| DataOut {
			first,
			magic,
			op,
			payload,
			push,
			cut,
			mutate,
			extra,
			tail,
			lie,
		})
}

fn value() -> impl Strategy<Value = u64> + Clone {
	prop_oneof![3 => 0u64..100_000, 1 => any::<u64>(), 1 => Just(0)]
}

fn out_other() -> impl Strategy<Value = OutSpec> + Clone {
	prop_oneof![
		12 => (addr(), value()).prop_map(|(a, v)| OutSpec::Addr(a, v)),
		1 => (vec(any::<u8>(), 0..50), value()).prop_map(|(s, v)| OutSpec::Raw(s, v)),
		1 => (0u8..=96, vec(any::<u8>(), 0..45), value()).prop_map(|(ver, p, v)| {
			let mut s = vec![ver, p.len() as u8];
			s.extend(p);
			OutSpec::Raw(s, v)
		}),
		1 => (addr(), any::<u16>(), value()).prop_map(|(a, bit, v)| {
			let mut s = a.script();
			flip(&mut s, bit as usize);
			OutSpec::Raw(s, v)
		}),
	]
}

fn tx_case() -> impl Strategy<Value = TxCase> {
	let first = prop_oneof![
		20 => (data_out(), value()).prop_map(|(d, v)| OutSpec::Data(d, v)),
		1 => out_other(),
		1 => (vec(any::<u8>(), 0..90), value()).prop_map(|(mut s, v)| { s.insert(0, 0x6a); OutSpec::Raw(s, v) }),
	];
	let rest = prop_oneof![
		12 => vec(out_other(), 2..5),
		2 => vec(out_other(), 0..2),
		1 => vec((data_out(), value()).prop_map(|(d, v)| OutSpec::Data(d, v)), 1..3),
	];
	(0u8..4, first, rest, 0u8..3, prop::bool::weighted(0.02)).prop_map(
		|(net, first, rest, inputs, empty)| TxCase {
			net,
			outputs: if empty { vec![] } else { std::iter::once(first).chain(rest).collect() },
			inputs,
		},
	)
}

impl DataOut {
	fn script(&self, n: Network, payee: Option<&OutSpec>) -> Vec<u8> {
		let mut d = self.magic.unwrap_or(magic(n)).to_vec();
		d.push(self.op);
		match &self.payload {
			Payload::Raw(b) => d.extend(b),
			Payload::Deposit { version, hash, ptype, name, name_len } => {
				d.push(*ptype);
				d.push(*version);
				d.extend(hash);
				if let Some(nm) = name {
					d.push(name_len.unwrap_or(nm.len() as u8));
					d.extend(nm);
				}
			}
			Payload::Withdraw { amount, sig } => {
				d.extend(amount.to_be_bytes());
				d.extend(sig);
			}
			Payload::Signed { amount, key } => {
				d.extend(amount.to_be_bytes());
				if let Some(OutSpec::Addr(a, _)) = payee {
					let addr = a.build(n);
					if let Some(m) = reference_message(*amount, &addr, &a.script()) {
						let s = Secp256k1::new().sign_ecdsa_recoverable(
							&Message::from_slice(&sha256::Hash::hash(&m)).unwrap(),
							&sk(key),
						);
						let (rid, c) = s.serialize_compact();
						d.push(rid.to_i32() as u8);
						d.extend(c);
					}
				}
			}
			Payload::Fulfill(t) => d.extend(t),
		}
		if let Some((i, v)) = self.mutate {
			let n = d.len();
			d[i as usize % n] ^= v;
		}
		if let Some(k) = self.cut {
			let n = d.len();
			d.truncate(k as usize % (n + 1));
		}
		d.extend(&self.extra);
		let mut s = vec![self.first];
		let len = d.len() as i64 + self.lie as i64;
		let len = len.max(0) as usize;
		match self.push {
			Push::Direct if len <= 75 => s.push(len as u8),
			Push::Direct | Push::Data1 => s.extend([0x4c, len as u8]),
			Push::Data2 => {
				s.push(0x4d);
				s.extend((len as u16).to_le_bytes());
			}
			Push::Data4 => {
				s.push(0x4e);
				s.extend((len as u32).to_le_bytes());
			}
		}
		s.extend(d);
		s.extend(&self.tail);
		s
	}
}

fn build_tx(c: &TxCase) -> Transaction {
	let n = net(c.net);
	let out = c
		.outputs
		.iter()
		.map(|o| match o {
			OutSpec::Data(d, v) => TxOut {
				value: *v,
				script_pubkey: Script::from(d.script(n, c.outputs.get(1))),
			},
			OutSpec::Addr(a, v) => TxOut { value: *v, script_pubkey: Script::from(a.script()) },
			OutSpec::Raw(s, v) => TxOut { value: *v, script_pubkey: Script::from(s.clone()) },
		})
		.collect();
	Transaction {
		version: 2,
		lock_time: PackedLockTime::ZERO,
		input: (0..c.inputs)
			.map(|i| TxIn {
				previous_output: OutPoint { txid: txid_of([i; 32]), vout: i as u32 },
				script_sig: Script::new(),
				sequence: Sequence::MAX,
				witness: Witness::new(),
			})
			.collect(),
		output: out,
	}
}

/// First pushed data after OP_RETURN, independently decoded.
pub fn ref_data(script: &[u8]) -> Option<Vec<u8>> {
	let (&op, s) = script.split_first()?;
	if op != 0x6a {
		return None;
	}
	let (&p, s) = s.split_first()?;
	let (len, s) = match p {
		0..=75 => (p as usize, s),
		0x4c => (*s.first()? as usize, &s[1..]),
		0x4d if s.len() >= 2 => (u16::from_le_bytes([s[0], s[1]]) as usize, &s[2..]),
		0x4e if s.len() >= 4 => {
			(u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as usize, &s[4..])
		}
		_ => return None,
	};
	s.get(..len).map(<[u8]>::to_vec)
}

pub fn ref_is_address(s: &[u8]) -> bool {
	match s {
		[0x76, 0xa9, 20, h @ .., 0x88, 0xac] => h.len() == 20,
		[0xa9, 20, h @ .., 0x87] if h.len() == 20 => true,
		[0, l, p @ ..] => *l as usize == p.len() && (p.len() == 20 || p.len() == 32),
		[0x51..=0x60, l, p @ ..] => *l as usize == p.len() && (2..=40).contains(&p.len()),
		_ => false,
	}
}

pub fn ref_contract_name(b: &[u8]) -> bool {
	b == b"__transient"
		|| (!b.is_empty()
			&& b.len() <= 40
			&& b[0].is_ascii_alphabetic()
			&& b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b'-' || *c == b'_'))
}

/// Decodes a principal; gives it and the number of bytes used.
pub fn ref_principal(d: &[u8]) -> Option<(Principal, usize)> {
	let (t, v) = (*d.first()?, *d.get(1)?);
	if t != 5 && t != 6 || !VERSIONS.iter().any(|x| x.0 == v) {
		return None;
	}
	let hash: [u8; 20] = d.get(2..22)?.try_into().unwrap();
	if t == 5 {
		return Some((Principal { version: v, hash, contract: None }, 22));
	}
	let len = *d.get(22)? as usize;
	let name = d.get(23..23 + len)?;
	ref_contract_name(name).then(|| {
		(
			Principal {
				version: v,
				hash,
				contract: Some(String::from_utf8(name.to_vec()).unwrap()),
			},
			23 + len,
		)
	})
}

fn known_magic(m: &[u8]) -> bool {
	[b"X2", b"T2", b"id"].iter().any(|k| &k[..] == m)
}

fn tx_check(c: &TxCase) -> CheckResult {
	let n = net(c.net);
	check_parse(n, build_tx(c))
}

pub fn check_parse(n: Network, tx: Transaction) -> CheckResult {
	let script = |i: usize| tx.output.get(i).map(|o| o.script_pubkey.as_bytes().to_vec());
	let data = script(0).and_then(|s| ref_data(&s));
	let head_ok = |op: u8| {
		data.as_ref().filter(|d| d.len() >= 3 && known_magic(&d[..2]) && d[2] == op)
	};
	// a transaction for another network's magic may be refused or accepted
	let foreign = data.as_ref().is_some_and(|d| d.len() >= 2 && d[..2] != magic(n));

	let want_dep = head_ok(b'<').and_then(|d| ref_principal(&d[3..])).and_then(|(p, _)| {
		let s = script(1)?;
		ref_is_address(&s).then(|| (p, tx.output[1].value, s))
	});
	let got_dep = Deposit::parse(n, tx.clone());
	match (&want_dep, &got_dep) {
		(Some((p, v, s)), Ok(d)) => {
			ensure_eq!(&Principal::of(&d.recipient), p, "deposit recipient");
			ensure_eq!(d.amount, *v, "deposit amount");
			ensure_eq!(
				hex::encode(d.sbtc_wallet_address.script_pubkey()),
				hex::encode(s),
				"deposit wallet script"
			);
			ensure_eq!(d.sbtc_wallet_address.network, n, "deposit wallet network");
			ensure_eq!(d.network, n, "deposit network");
		}
		(Some(_), Err(_)) if foreign => {}
		(Some(w), Err(e)) => return Err(format!("deposit {w:?} refused: {e}")),
		(None, Ok(d)) => {
			return Err(format!("not a deposit, but parsed as {:?} {}", d.recipient, d.amount))
		}
		(None, Err(_)) => {}
	}

	let want_wd = head_ok(b'>').and_then(|d| {
		let amount = u64::from_be_bytes(d.get(3..11)?.try_into().unwrap());
		let sig = d.get(11..76)?;
		let rs = RecoverableSignature::from_compact(
			&sig[1..],
			RecoveryId::from_i32(sig[0] as i32).ok()?,
		)
		.ok()?;
		let (payee, wallet) = (script(1)?, script(2)?);
		if !ref_is_address(&payee) || !ref_is_address(&wallet) {
			return None;
		}
		let addr = Address::from_script(&Script::from(payee.clone()), n).ok()?;
		let m = match reference_message(amount, &addr, &payee) {
			Some(m) => Message::from_slice(&sha256::Hash::hash(&m)).unwrap(),
			None => wr::create_withdrawal_request_signing_message(amount, &addr),
		};
		let key = Secp256k1::new().recover_ecdsa(&m, &rs).ok()?;
		Some((amount, sig.to_vec(), payee, wallet, stacks_p2pkh(n, &key)))
	});
	let got_wd = try_parse_withdrawal_request(n, tx.clone());
	match (&want_wd, &got_wd) {
		(Some((amount, sig, payee, wallet, drawee)), Ok(w)) => {
			ensure_eq!(w.amount, *amount, "withdrawal amount");
			ensure_eq!(w.fulfillment_amount, tx.output[2].value, "withdrawal fee");
			let (rid, s) = w.signature.serialize_compact();
			ensure_eq!(rid.to_i32() as u8, sig[0], "recovery id");
			ensure_eq!(hex::encode(s), hex::encode(&sig[1..]), "signature");
			ensure_eq!(
				hex::encode(w.payee_bitcoin_address.script_pubkey()),
				hex::encode(payee),
				"payee"
			);
			ensure_eq!(hex::encode(w.sbtc_wallet.script_pubkey()), hex::encode(wallet), "wallet");
			ensure_eq!(w.payee_bitcoin_address.network, n, "payee network");
			ensure_eq!(w.sbtc_wallet.network, n, "wallet network");
			let got = (
				w.drawee_stacks_address.version() as u8,
				<[u8; 20]>::try_from(w.drawee_stacks_address.hash().as_ref()).unwrap(),
			);
			ensure_eq!(got, *drawee, "drawee");
		}
		(Some(_), Err(_)) if foreign => {}
		(Some(w), Err(e)) => return Err(format!("withdrawal request {w:?} refused: {e}")),
		(None, Ok(w)) => {
			return Err(format!("not a withdrawal request, but parsed: amount {}", w.amount))
		}
		(None, Err(_)) => {}
	}
	ensure!(
		got_dep.is_err() || got_wd.is_err(),
		"transaction is both a deposit and a withdrawal request"
	);
	let class = if want_dep.is_some() {
		"deposit"
	} else if want_wd.is_some() {
		"withdrawal"
	} else if head_ok(b'<').is_some() {
		"broken-deposit"
	} else if head_ok(b'>').is_some() {
		"broken-withdrawal"
	} else if data.is_some() {
		"other-data"
	} else {
		"no-data"
	};
	Ok(Outcome::new(data.is_some()).label(class).label_if(foreign, "foreign-magic"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RawTx {
	net: u8,
	tx: TxCase,
	flips: Vec<(u16, u8)>,
}

fn raw_case() -> impl Strategy<Value = RawTx> {
	(0u8..4, tx_case(), vec((any::<u16>(), any::<u8>()), 0..4))
		.prop_map(|(net, tx, flips)| RawTx { net, tx, flips })
}

/// Mutates the serialised transaction and parses whatever still decodes.
fn raw_check(c: &RawTx) -> CheckResult {
	let mut b = bdk::bitcoin::consensus::serialize(&build_tx(&c.tx));
	for (i, v) in &c.flips {
		let n = b.len();
		b[*i as usize % n] ^= v;
	}
	match bdk::bitcoin::consensus::deserialize::<Transaction>(&b) {
		Ok(tx) => check_parse(net(c.net), tx),
		Err(_) => Ok(Outcome::new(false).label("undecodable")),
	}
}

pub fn c05() -> Property {
	Property::new(
		"C05",
		"A case is a transaction whose first output is usually a data output built from a valid or broken payload (opcode, magic, version, principal type, name, signature, push encoding, truncation, byte change, extra bytes, wrong push length) followed by address or arbitrary outputs; or such a transaction with bytes of its serialisation changed. Non-trivial when output 0 carries pushed data after OP_RETURN. The oracle is an independent decoder of the documented layout.",
	)
	.assume("a transaction with the magic bytes of another network may be accepted or refused, but if accepted its values must be exact")
	.assume("extra bytes after the payload, further script bytes after the push and any push encoding are tolerated, as the documentation of the layout shows")
	.stage(Stage::new("structured", 500_000, 15_000_000, tx_case, tx_check))
	.stage(Stage::new("mutated-bytes", 250_000, 8_000_000, raw_case, raw_check))
}

// ---------------------------------------------------------------- C06

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
	Deposit { recipient: Principal, to: To, amount: Amt },
	Withdraw { drawee: [u8; 32], payee: To, wallet: To, same: bool, amount: u64, fee: Amt },
	Fulfill { tip: [u8; 32], payee: To, amount: Amt },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SpendCase {
	net: u8,
	op: Op,
	coins: Coins,
}

fn spend_case() -> impl Strategy<Value = SpendCase> {
	let op = prop_oneof![
		(principal(), to(), amt()).prop_map(|(recipient, to, amount)| Op::Deposit { recipient, to, amount }),
		(seed32(), to(), to(), prop::bool::weighted(0.2), amount_any(), amt()).prop_map(
			|(drawee, payee, wallet, same, amount, fee)| Op::Withdraw { drawee, payee, wallet, same, amount, fee }
		),
		(any::<[u8; 32]>(), to(), amt()).prop_map(|(tip, payee, amount)| Op::Fulfill { tip, payee, amount }),
	];
	(0u8..4, op, coins()).prop_map(|(net, op, coins)| SpendCase { net, op, coins })
}

fn spend_check(c: &SpendCase) -> CheckResult {
	let n = net(c.net);
	let (wallet, coins) = c.coins.wallet(n);
	let total = c.coins.total();
	let (res, need, label) = match &c.op {
		Op::Deposit { recipient, to, amount } => {
			let a = to.addr(&c.coins);
			let v = amount.get(a.dust(), total);
			(build_deposit_transaction(wallet, recipient.build(), a.build(n), v, n), v, "deposit")
		}
		Op::Withdraw { drawee, payee, wallet: w, same, amount, fee } => {
			let p = payee.addr(&c.coins);
			let w = if *same { p.clone() } else { w.addr(&c.coins) };
			let f = fee.get(w.dust(), total);
			(
				build_withdrawal_tx(&wallet, n, sk(drawee), p.build(n), w.build(n), *amount, f),
				f.saturating_add(p.dust()),
				"withdraw",
			)
		}
		Op::Fulfill { tip, payee, amount } => {
			let a = payee.addr(&c.coins);
			let v = amount.get(a.dust(), total);
			(build_withdrawal_fulfillment_tx(&wallet, block_id(tip), n, &a.build(n), v), v, "fulfill")
		}
	};
	let o = Outcome::new(false).label(label);
	match res {
		Err(_) => Ok(o.label("refused")),
		Ok(tx) => {
			ensure!(need < total, "built a transaction for {need} from coins of {total}");
			let fee = verify_spend(&tx, &coins, &c.coins.key)?;
			sane_fee(&tx, fee)?;
			Ok(Outcome { nontrivial: true, ..o }
				.label(if tx.input.len() > 1 { "many-inputs" } else { "one-input" }))
		}
	}
}

pub fn c06() -> Property {
	Property::new(
		"C06",
		"A case is one of the three operations with its parameters and a set of coins; non-trivial when a signed transaction was returned, whose every input is then verified (coin ownership, no double use, BIP143 signature over the final outputs) and whose totals are compared.",
	)
	.assume("the wallet library targets 1 sat/vB and drops change below dust, so a fee above size + 2 sat per input + 334 means an output was lost")
	.stage(Stage::new("sign", 50_000, 1_200_000, spend_case, spend_check).attempts(40).shrink(3000))
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ReorderCase {
	/// (script, value) of the requested outputs, in order
	order: Vec<(u8, u8)>,
	/// further outputs
	extra: Vec<(u8, u8)>,
	/// shuffle of all outputs
	perm: Vec<u16>,
}

fn reorder_case() -> impl Strategy<Value = ReorderCase> {
	// few scripts and values, so that outputs coincide often
	let out = (0u8..4, 0u8..4);
	(vec(out.clone(), 0..6), vec(out, 0..5), vec(any::<u16>(), 12))
		.prop_map(|(order, extra, perm)| ReorderCase { order, extra, perm })
}

fn reorder_check(c: &ReorderCase) -> CheckResult {
	let conv = |(s, v): &(u8, u8)| (Script::from(vec![0x51, 2, *s, *s]), *v as u64 * 1000);
	let order: Vec<(Script, u64)> = c.order.iter().map(conv).collect();
	let mut outs: Vec<(Script, u64)> = order.iter().cloned().chain(c.extra.iter().map(conv)).collect();
	// a permutation from the generated numbers
	for i in (1..outs.len()).rev() {
		let j = c.perm[i % c.perm.len()] as usize % (i + 1);
		outs.swap(i, j);
	}
	let txouts: Vec<TxOut> =
		outs.iter().map(|(s, v)| TxOut { script_pubkey: s.clone(), value: *v }).collect();
	let got: Vec<(Script, u64)> = reorder_outputs(txouts, order.clone())
		.into_iter()
		.map(|o| (o.script_pubkey, o.value))
		.collect();
	// expected: requested ones first, then the rest in original order (taking
	// the earliest equal output for each requested one; equal outputs are
	// indistinguishable except in the rest, where any occurrence may remain)
	let mut a = outs.clone();
	let mut b = got.clone();
	a.sort();
	b.sort();
	ensure_eq!(b, a, "multiset of outputs");
	ensure_eq!(got[..order.len()], order[..], "requested prefix");
	let mut left = outs.clone();
	for w in &order {
		let i = left.iter().position(|x| x == w).unwrap();
		left.remove(i);
	}
	// the rest keeps its original order; where an output equal to a requested one
	// remains, either occurrence may have been used up
	let ambiguous = left.iter().any(|x| order.contains(x));
	if !ambiguous {
		ensure_eq!(got[order.len()..], left[..], "order of the remaining outputs");
	}
	let mut all = outs.iter();
	ensure!(
		got[order.len()..].iter().all(|x| all.any(|y| y == x)),
		"remaining outputs {:?} are not in their original order {:?}",
		&got[order.len()..],
		outs
	);
	let dup = {
		let mut s = order.clone();
		s.sort();
		s.windows(2).any(|w| w[0] == w[1])
	};
	Ok(Outcome::new(!c.order.is_empty() && got.len() > 1)
		.label_if(dup, "duplicate-requested")
		.label_if(ambiguous, "change-equals-requested")
		.label_if(c.extra.len() > 1, "several-remaining"))
}

pub fn c07() -> Property {
	Property::new(
		"C07",
		"A case is a requested order, further outputs and a shuffle, over 4 scripts and 4 values so that outputs coincide often; non-trivial when at least one output is requested and there are at least two outputs.",
	)
	.stage(Stage::new("permutation", 2_000_000, 40_000_000, reorder_case, reorder_check))
}
