#!/bin/bash
# check.sh <property> [quick|thorough]   builds the simulator with /repo's working tree and runs the check
# check.sh replay <file>                 replays a violation (VSIM_TRACE=1: with every memory operation)
# check.sh selftest [property|all] [n]   the same seed twice, and its recorded schedule, must give the same run
cd "$(dirname "$0")" || exit 2
log=$(mktemp /tmp/vsim-build.XXXXXX) || exit 2
if ! bash ./build.sh >"$log" 2>&1; then
    echo "the simulator does not build:" >&2
    tail -40 "$log" >&2
    rm -f "$log"
    exit 2
fi
rm -f "$log"
export VSIM_VERIF=$PWD
case "$1" in
    replay | selftest) exec sim/build/release/vsim "$@" ;;
    *) exec sim/build/release/vsim check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
