# Sourced by check.sh: builds a harness crate against /repo's current working tree.
export CARGO_TARGET_DIR="$VERIF_DIR/target" CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS

crate_of() {
	case "$1" in
	C0[1-9] | C1[0-9] | C20) echo vcore ;;
	C2[1-4] | C35) echo vcli ;;
	C2[5-9] | C3[0-4]) echo vrelay ;;
	*) return 1 ;;
	esac
}

# The packages a harness consists of, in build order.
dirs_of() {
	case "$1" in
	vcore) echo core ;;
	vcli) echo sbtc-cli cli ;;
	vrelay) echo relay ;;
	esac
}

CRATES="vcore vcli vrelay"

# Contents, not time stamps, decide whether the packages of /repo are rebuilt.
repo_hash() {
	(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o \
		\( -name '*.rs' -o -name 'Cargo.toml' -o -name '*.clar' \) -type f -print0 |
		LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
}

# One cargo build in harness/$1; what it contains of /repo is rebuilt if /repo changed.
build_dir() {
	h=$(repo_hash)
	stamp="$CARGO_TARGET_DIR/.repo-$1"
	log="$CARGO_TARGET_DIR/$1.log"
	cd "$VERIF_DIR/harness/$1" || return 3
	if [ -e "$stamp" ] && [ "$(cat "$stamp")" != "$h" ]; then
		for p in stacks-core sbtc-core $(shadow_of "$1"); do
			cargo clean --offline -q -p "$p" 2>/dev/null
		done
	fi
	rm -f "$stamp"
	cargo build --offline --locked -q 2>"$log" || {
		grep -A12 '^error' "$log" | tail -n 80 >&2
		echo "cannot build harness/$1 against /repo" >&2
		return 3
	}
	echo "$h" >"$stamp"
}

build() {
	mkdir -p "$CARGO_TARGET_DIR"
	(
		flock 9
		for d in $(dirs_of "$1"); do (build_dir "$d") || exit 3; done
	) 9>"$CARGO_TARGET_DIR/.lock"
}

# The package that wraps sources of /repo.
shadow_of() {
	case "$1" in
	sbtc-cli) echo sbtc-cli ;;
	relay) echo romeo ;;
	esac
}

build_all() {
	for c in $CRATES; do build "$c" || return 3; done
}
