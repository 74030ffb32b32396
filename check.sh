#!/bin/bash
# check.sh <property>       run one check (VERIF_SEED, VERIF_TIER)
# check.sh --replay <file>  run one recorded scenario again
# check.sh --conformance [n [from]]  the simulated kernel against the host's (as root)
# check.sh --selftest       determinism of the simulator itself
set -u
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off VERIF_DIR="$here" VERIF_REPO="${VERIF_REPO:-/repo}"
mkdir -p "$here/.work" || exit 2
bin="$here/.work/simctl.$$"
trap 'rm -f "$bin"' EXIT
(cd "$here/sim" && GOFLAGS=-mod=mod go build -o "$bin" .) || exit 2
case "${1:-}" in
--replay) "$bin" replay "$2" ;;
--selftest) shift; "$bin" selftest "$@" ;;
--conformance) shift; "$bin" conformance "$@" ;;
--build) "$bin" build ;;
C*) "$bin" check "$@" ;;
*) echo "usage: check.sh <property> | --replay <file> | --selftest" >&2; exit 2 ;;
esac
