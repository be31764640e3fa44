#!/bin/bash
# ./check.sh build | ID [thorough] | replay FILE
#
# Builds the harness with /repo's current working tree and runs one check.
# Exit: 0 held, 1 violated (with a VIOLATION line), anything else an error.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true
export VERIF_ROOT="$PWD"
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
if ! cargo build --release --offline --quiet --manifest-path harness/Cargo.toml >harness-build.log 2>&1; then
	cat harness-build.log >&2
	exit 2
fi
case "${1:-}" in
	build) exit 0 ;;
	replay) exec harness/target/release/harness replay "$2" ;;
	*) exec harness/target/release/harness "$1" ;;
esac
