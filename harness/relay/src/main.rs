mod blocks;
mod chain;
mod config;
mod contract;
mod engine;
mod live;
mod proof;

fn main() {
	std::process::exit(vkit::main(vec![engine::c25(), engine::c26(), engine::c27(), proof::c28(), contract::c29(), contract::c30(), contract::c31(), live::c32(), config::c33(), live::c34()]));
}
