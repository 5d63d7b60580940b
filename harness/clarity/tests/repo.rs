//! The interpreter runs the contracts' own Clarity tests, as Clarinet would.
use vclarity::*;

const BASE: &str = "/repo/romeo/asset-contract/";

fn read(n: &str) -> String {
	std::fs::read_to_string(format!("{BASE}{n}")).unwrap()
}

fn run(file: &str, name: &str) -> usize {
	let deployer = Principal::parse("ST1PQHQKV0RJXZFY1DGX8MNSNYVE3VGZJSRTPGZGM").unwrap();
	let wallet_1 = Principal::parse("ST1SJ3DTE5DN7X54YDH5D64R3BCB6A2AG2ZQ8YPD5").unwrap();
	let src = read(file);
	let mut n = 0;
	let mut notes: Vec<String> = vec![];
	for line in src.lines() {
		if let Some(c) = line.strip_prefix(";; @") {
			notes.push(c.trim().to_string());
			continue;
		}
		let Some(f) = line.strip_prefix("(define-public (test-") else {
			if line.starts_with('(') {
				notes.clear();
			}
			continue;
		};
		let f = format!("test-{}", f.split([' ', ')']).next().unwrap());
		let mut w = World::new(deployer.clone());
		w.deploy("clarity-bitcoin-mini", &read("contracts/clarity-bitcoin-mini.clar")).unwrap();
		w.deploy("asset", &read("contracts/asset.clar")).unwrap();
		w.deploy(name, &src).unwrap();
		let me = Value::Principal(deployer.contract(name));
		assert!(w.call(&deployer, &deployer, "asset", "set-contract-owner", &[me]).unwrap().is_ok());
		let note = |k: &str| notes.iter().find_map(|x| x.strip_prefix(k)).map(|x| x.trim().to_string());
		if note("no-prepare").is_none() {
			let p = note("prepare ").unwrap_or("prepare".into());
			let r = w.call(&deployer, &deployer, name, &p, &[]).unwrap();
			assert!(r.is_ok(), "{p}: {r:?}");
		}
		let caller = if note("caller wallet_1").is_some() { &wallet_1 } else { &deployer };
		let r = w.call(caller, caller, name, &f, &[]).unwrap();
		assert!(r.is_ok(), "{f}: {r:?}");
		println!("{f}: {r:?}");
		notes.clear();
		n += 1;
	}
	n
}

#[test]
fn asset() {
	assert!(run("tests/asset_test.clar", "asset_test") > 15);
}

#[test]
fn mini() {
	assert!(run("tests/clarity-bitcoin-mini_test.clar", "clarity-bitcoin-mini_test") > 5);
}
