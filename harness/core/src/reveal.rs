//! C09: commit addresses and reveal transactions.
use bdk::bitcoin::{
	hashes::{sha256, Hash, HashEngine},
	secp256k1::{Scalar, Secp256k1, XOnlyPublicKey},
	Amount, OutPoint, Transaction,
};
use proptest::prelude::*;
use sbtc_core::operations::commit_reveal::{
	deposit::{deposit_commit_address, deposit_reveal_unsigned_tx, DepositData},
	utils::{commit, reveal as reveal_tx, RevealInputs},
	withdrawal_request::{
		withdrawal_request_commit_address, withdrawal_request_reveal_unsigned_tx, WithdrawalData,
	},
};
use serde::{Deserialize, Serialize};
use vkit::{ensure, ensure_eq, CheckResult, Outcome, Property, Stage};

use crate::{gens::*, wallets::txid_of, wire::signature};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
	Deposit(Principal),
	Withdraw { amount: u64, key: [u8; 32], msg: [u8; 32], fulfillment_fee: u64, recipient: Addr },
	/// any bytes a script can push
	Raw(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RevealCase {
	what: What,
	reveal_fee: u64,
	/// left for the first paid output
	rest: u64,
	revealer: [u8; 32],
	reclaimer: [u8; 32],
	same_keys: bool,
	magic: [u8; 2],
	txid: [u8; 32],
	vout: u32,
	wallet: Addr,
	net: u8,
}

fn reveal_case() -> impl Strategy<Value = RevealCase> {
	let sat = || prop_oneof![3 => 0u64..10_000_000, 1 => 0u64..2_100_000_000_000_000, 1 => Just(0), 1 => any::<u64>().prop_map(|x| x >> 2)];
	let what = prop_oneof![
		4 => principal().prop_map(What::Deposit),
		1 => prop_oneof![
			Just(0usize), 0usize..4, 70usize..80, 250usize..260, 510usize..=530, 0usize..=520, 0usize..=3000
		]
		.prop_flat_map(|n| proptest::collection::vec(any::<u8>(), n))
		.prop_map(What::Raw),
		4 => (amount_any(), seed32(), any::<[u8; 32]>(), sat(), addr()).prop_map(
			|(amount, key, msg, fulfillment_fee, recipient)| What::Withdraw {
				amount,
				key,
				msg,
				fulfillment_fee,
				recipient
			}
		),
	];
	(
		(what, sat(), sat(), seed32(), seed32(), prop::bool::weighted(0.1)),
		(
			prop_oneof![2 => prop::sample::select(vec![*b"X2", *b"T2", *b"id"]), 1 => any::<[u8; 2]>()],
			any::<[u8; 32]>(),
			any::<u32>(),
			addr(),
			0u8..4,
		),
	)
		.prop_map(
			|((what, reveal_fee, rest, revealer, reclaimer, same_keys), (magic, txid, vout, wallet, net))| {
				RevealCase {
					what,
					reveal_fee,
					rest,
					revealer,
					reclaimer,
					same_keys,
					magic,
					txid,
					vout,
					wallet,
					net,
				}
			},
		)
}

fn tagged(tag: &str, parts: &[&[u8]]) -> [u8; 32] {
	let t = sha256::Hash::hash(tag.as_bytes());
	let mut e = sha256::Hash::engine();
	e.input(&t);
	e.input(&t);
	for p in parts {
		e.input(p);
	}
	sha256::Hash::from_engine(e).into_inner()
}

fn leaf_hash(script: &[u8]) -> [u8; 32] {
	let n = script.len();
	let len = if n < 253 { vec![n as u8] } else { vec![253, n as u8, (n >> 8) as u8] };
	tagged("TapLeaf", &[&[0xc0], &len, script])
}

fn branch(a: [u8; 32], b: [u8; 32]) -> [u8; 32] {
	if a < b {
		tagged("TapBranch", &[&a, &b])
	} else {
		tagged("TapBranch", &[&b, &a])
	}
}

const INTERNAL: &str = "50929b74c1a04954b78b4b6035e97a5e078a5a0f28ec96d547bfee9ace803ac0";

fn tweaked(root: &[u8; 32]) -> ([u8; 32], u8) {
	let internal = hex::decode(INTERNAL).unwrap();
	let t = tagged("TapTweak", &[&internal, root]);
	let (key, parity) = XOnlyPublicKey::from_slice(&internal)
		.unwrap()
		.add_tweak(&Secp256k1::new(), &Scalar::from_be_bytes(t).unwrap())
		.unwrap();
	(key.serialize(), parity.to_u8())
}

fn push(data: &[u8]) -> Vec<u8> {
	let n = data.len();
	let mut v = match n {
		0..=75 => vec![n as u8],
		76..=255 => vec![0x4c, n as u8],
		_ => vec![0x4d, n as u8, (n >> 8) as u8],
	};
	v.extend(data);
	v
}

fn reveal_check(c: &RevealCase) -> CheckResult {
	let n = net(c.net);
	let revealer = xonly(&c.revealer);
	let reclaimer = if c.same_keys { revealer } else { xonly(&c.reclaimer) };
	let outpoint = OutPoint { txid: txid_of(c.txid), vout: c.vout };
	let inputs = || RevealInputs {
		commit_output: outpoint,
		stacks_magic_bytes: &c.magic,
		revealer_key: &revealer,
		reclaim_key: &reclaimer,
	};
	let wallet = c.wallet.build(n);
	let (payload, address, tx, paid): (Vec<u8>, _, Transaction, Vec<(Vec<u8>, u64)>) = match &c.what {
		What::Deposit(p) => {
			let d = || DepositData { principal: p.build(), reveal_fee: Amount::from_sat(c.reveal_fee) };
			let mut payload = vec![b'<'];
			payload.extend(p.wire());
			payload.extend(c.reveal_fee.to_be_bytes());
			let commit = Amount::from_sat(c.reveal_fee + c.rest);
			(
				payload,
				deposit_commit_address(d(), &revealer, &reclaimer).map_err(|e| e.to_string())?,
				deposit_reveal_unsigned_tx(d(), inputs(), commit, wallet).map_err(|e| e.to_string())?,
				vec![(c.wallet.script(), c.rest)],
			)
		}
		What::Raw(data) => (
			data.clone(),
			commit(data, &revealer, &reclaimer).map_err(|e| e.to_string())?,
			reveal_tx(data, inputs()).map_err(|e| e.to_string())?,
			vec![],
		),
		What::Withdraw { amount, key, msg, fulfillment_fee, recipient } => {
			let sig = signature(key, msg);
			let d = || WithdrawalData {
				amount: Amount::from_sat(*amount),
				signature: sig,
				reveal_fee: Amount::from_sat(c.reveal_fee),
			};
			let (id, compact) = sig.serialize_compact();
			let mut payload = vec![b'>'];
			payload.extend(amount.to_be_bytes());
			payload.push(id.to_i32() as u8);
			payload.extend(compact);
			payload.extend(c.reveal_fee.to_be_bytes());
			let commit = Amount::from_sat(c.reveal_fee + c.rest + fulfillment_fee);
			(
				payload,
				withdrawal_request_commit_address(d(), &revealer, &reclaimer)
					.map_err(|e| e.to_string())?,
				withdrawal_request_reveal_unsigned_tx(
					d(),
					inputs(),
					Amount::from_sat(*fulfillment_fee),
					commit,
					wallet,
					recipient.build(n),
				)
				.map_err(|e| e.to_string())?,
				vec![(recipient.script(), c.rest), (c.wallet.script(), *fulfillment_fee)],
			)
		}
	};
	// the two leaves and the output key, computed independently
	let mut reveal = push(&payload);
	reveal.push(0x75);
	reveal.extend(push(&revealer.serialize()));
	reveal.push(0xac);
	let mut reclaim = push(&reclaimer.serialize());
	reclaim.push(0xac);
	let (l1, l2) = (leaf_hash(&reveal), leaf_hash(&reclaim));
	let root = branch(l1, l2);
	let (key, parity) = tweaked(&root);
	let mut spk = vec![0x51, 32];
	spk.extend(key);
	ensure_eq!(
		hex::encode(address.script_pubkey()),
		hex::encode(&spk),
		"commit output script"
	);
	// the reveal transaction spends it through the first leaf
	ensure_eq!(tx.input.len(), 1, "number of inputs");
	ensure_eq!(tx.input[0].previous_output, outpoint, "spent output");
	ensure!(tx.input[0].script_sig.is_empty(), "script_sig is not empty");
	let w = tx.input[0].witness.to_vec();
	ensure!(w.len() >= 2, "witness has {} items", w.len());
	let (control, script) = (&w[w.len() - 1], &w[w.len() - 2]);
	ensure_eq!(hex::encode(script), hex::encode(&reveal), "revealed script");
	ensure_eq!(control.len(), 65, "length of the control block");
	ensure_eq!(control[0], 0xc0 | parity, "leaf version and parity");
	ensure_eq!(hex::encode(&control[1..33]), INTERNAL, "internal key");
	let sibling: [u8; 32] = control[33..].try_into().unwrap();
	let (proved, _) = tweaked(&branch(leaf_hash(script), sibling));
	ensure_eq!(hex::encode(proved), hex::encode(key), "output key proved by the control block");
	// outputs
	let mut want = vec![(op_return(&[c.magic[0], c.magic[1], b'w']), 0)];
	want.extend(paid);
	let got: Vec<_> =
		tx.output.iter().map(|o| (hex::encode(&o.script_pubkey), o.value)).collect();
	let want: Vec<_> = want.into_iter().map(|(s, v)| (hex::encode(s), v)).collect();
	ensure_eq!(got, want, "outputs");
	Ok(Outcome::new(true)
		.label(match &c.what {
			What::Deposit(p) if p.contract.is_some() => "deposit-contract",
			What::Deposit(_) => "deposit",
			What::Withdraw { .. } => "withdrawal",
			What::Raw(_) => "raw",
		})
		.label_if(c.same_keys, "same-keys")
		.label_if(payload.len() > 75, "long-payload"))
}

/// A commit that does not cover the fees gives no reveal transaction.
fn overdrawn_check(c: &RevealCase) -> CheckResult {
	let n = net(c.net);
	let revealer = xonly(&c.revealer);
	let reclaimer = if c.same_keys { revealer } else { xonly(&c.reclaimer) };
	let inputs = || RevealInputs {
		commit_output: OutPoint { txid: txid_of(c.txid), vout: c.vout },
		stacks_magic_bytes: &c.magic,
		revealer_key: &revealer,
		reclaim_key: &reclaimer,
	};
	let wallet = c.wallet.build(n);
	let (fees, label) = match &c.what {
		What::Deposit(_) => (c.reveal_fee, "deposit"),
		What::Withdraw { fulfillment_fee, .. } => (c.reveal_fee + fulfillment_fee, "withdrawal"),
		What::Raw(_) => return Ok(Outcome::new(false).label("raw")),
	};
	if fees == 0 {
		return Ok(Outcome::new(false).label("no-fees"));
	}
	let commit = Amount::from_sat(c.rest % fees);
	let made = std::panic::catch_unwind(|| match &c.what {
		What::Deposit(p) => deposit_reveal_unsigned_tx(
			DepositData { principal: p.build(), reveal_fee: Amount::from_sat(c.reveal_fee) },
			inputs(),
			commit,
			wallet.clone(),
		)
		.ok(),
		What::Withdraw { amount, key, msg, fulfillment_fee, recipient } => {
			withdrawal_request_reveal_unsigned_tx(
				WithdrawalData {
					amount: Amount::from_sat(*amount),
					signature: signature(key, msg),
					reveal_fee: Amount::from_sat(c.reveal_fee),
				},
				inputs(),
				Amount::from_sat(*fulfillment_fee),
				commit,
				wallet.clone(),
				recipient.build(n),
			)
			.ok()
		}
		What::Raw(_) => None,
	});
	if let Ok(Some(tx)) = made {
		return Err(format!(
			"a commit of {commit} with fees of {fees} satoshis gave a transaction paying {:?}",
			tx.output.iter().map(|o| o.value).collect::<Vec<_>>()
		));
	}
	Ok(Outcome::new(true).label(label))
}

pub fn c09() -> Property {
	Property::new(
		"C09",
		"A case is a payload (deposit, withdrawal or up to 3000 raw bytes), revealer and reclaimer keys (10% equal), magic bytes, commit outpoint, amounts and addresses; every case is non-trivial; in overdrawn the commit amount is below the fees (non-trivial when there are fees). Leaf, branch and tweak hashes are recomputed from BIP341's tagged hashes.",
	)
	.assume("a commit amount below the fees may give an error or a panic, but no transaction")
	.assume("the network of the commit address text is not part of the property (the library documents it as unconfigurable)")
	.stage(Stage::new("commit-reveal", 60_000, 2_000_000, reveal_case, reveal_check))
	.stage(Stage::new("overdrawn", 20_000, 500_000, reveal_case, overdrawn_check))
}
