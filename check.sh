#!/bin/bash
# check.sh ID [quick|thorough]   checks a property on /repo's working tree
# check.sh replay FILE           runs one recorded case again
# check.sh build                 builds everything (setup)
# check.sh selftest              the two models of the grammar against each other
cd "$(dirname "$(realpath "$0")")" || exit 2
V=$PWD
for d in /root/.cargo/bin /usr/local/bin /usr/bin /bin; do
	case ":$PATH:" in *":$d:"*) ;; *) PATH="${PATH:+$PATH:}$d" ;; esac
done
export PATH
[ -z "$RUSTUP_TOOLCHAIN" ] && export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
T=$V/target
mkdir -p "$T" "$V/evidence" "$V/replays"

# builds never reuse objects made from other sources, whatever their time stamps say
fresh() {
	local h
	h=$( (cd /repo && find Cargo.toml src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum)
	if [ "$(cat "$T/stamp" 2>/dev/null)" != "$h" ]; then
		find "$T" -type d -path '*/.fingerprint/langtag-*' -exec rm -rf {} + 2>/dev/null
		echo "$h" >"$T/stamp"
	fi
}
# cargo build, quietly unless it fails
cb() {
	local log
	log=$(mktemp)
	if ! (cd "$V/mc" && cargo build --offline --quiet "$@") >"$log" 2>&1; then
		grep -E '^(error|warning: unused)' -A 12 "$log" | head -60 >&2
		rm -f "$log"
		return 1
	fi
	rm -f "$log"
}
# the checker, with the view into the generated automata if they still have their interface
build_main() {
	export CARGO_TARGET_DIR=$T/main
	RUSTFLAGS="--cfg langtag_verif --cfg whitebox" cb --release && return 0
	echo "note: building without the hooks" >&2
	cb --release
}
# the unoptimised build of C24 and C21
build_deep() {
	(
		export CARGO_TARGET_DIR=$T/deep
		cb --profile deep
	)
}
# the build of C26 that Miri runs, and Miri's own
miri() {
	MIRIFLAGS=-Zmiri-disable-isolation CARGO_TARGET_DIR=$T/miri MIRI_SYSROOT=$T/miri-sysroot RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu cargo miri "$@"
}
build_miri() {
	local log
	log=$(mktemp)
	if (cd "$V/mc" && miri setup && miri run --offline --quiet --profile deep -- soak </dev/null) >"$log" 2>&1; then
		export MC_MIRI=$V/check.sh
	else
		echo "note: without Miri" >&2
		tail -3 "$log" >&2
	fi
	rm -f "$log"
}
# the optimised builds compared by C21
CONFIGS="none std serde std_serde"
build_configs() {
	local f p
	pids=()
	for c in $CONFIGS; do
		case $c in none) f= ;; std) f=owned ;; serde) f=serde ;; std_serde) f=owned,serde ;; esac
		(
			export CARGO_TARGET_DIR=$T/cfg-$c
			for p in release plain; do cb --profile $p --no-default-features --features "$f" || exit 1; done
		) &
		pids+=($!)
	done
	for p in "${pids[@]}"; do wait "$p" || return 1; done
}
locked() {
	exec 9>"$T/lock"
	flock 9
	fresh
	"$@" || { echo "the build failed" >&2; exit 2; }
}
bins() {
	local b=
	for c in $CONFIGS; do for p in release plain; do b="$b,$c/$p=$T/cfg-$c/$p/mc"; done; done
	echo "${b#,},std_serde/deep=$T/deep/deep/mc"
}
export MC_CONST_DIR=$T/c20 MC_REPLAYS=$V/replays
export MC_BINS; MC_BINS=$(bins)
export MC_DEEP=$T/deep/deep/mc
MC=$T/main/release/mc
KNOWN=$V/known-findings.txt

case $1 in
build)
	locked build_main
	build_configs && build_deep || exit 2
	"$MC" selftest
	;;
soak) cd "$V/mc" && miri run --offline --quiet --profile deep -- soak ;;
selftest) locked build_main; "$MC" selftest ;;
replay)
	locked build_main
	case $(grep -o '"property": "C[0-9]*"' "$2") in *C21*) build_configs && build_deep || exit 2 ;; *C24*) build_deep || exit 2 ;; *C26*) build_miri ;; esac
	"$MC" replay "$2"
	;;
C[0-9][0-9])
	tier=${2:-${VERIF_TIER:-quick}}
	locked build_main
	[ "$1" = C21 ] && { build_configs && build_deep || exit 2; }
	[ "$1" = C26 ] && build_miri
	[ "$1" = C24 ] && { build_deep || exit 2; }
	case $1 in C20 | C21 | C26) ;; *) exec 9>&- ;; esac
	"$MC" check "$1" --tier "$tier" --evidence "$V/evidence/$1.json" --replays "$V/replays" --known "$KNOWN"
	;;
*)
	sed -n 2,6p "$0" >&2
	exit 2
	;;
esac
