use vcore::*;

fn main() {
	let props = vec![
		ops::c01(),
		ops::c02(),
		ops::c03(),
		ops::c04(),
		ops::c05(),
		ops::c06(),
		ops::c07(),
		wire::c08(),
		reveal::c09(),
		text::c10(),
		text::c11(),
		wire::c12(),
		wire::c13(),
		wire::c14(),
		num::c15(),
		num::c16(),
		keys::c17(),
		keys::c18(),
		keys::c19(),
		keys::c20(),
	];
	std::process::exit(vkit::main(props));
}
