#!/bin/bash
# scratchrun.sh REPO ID TIER...: run a check of this tree against another copy of the repository
R=$1; shift
V=$(mktemp -d /tmp/scratchv.XXXX); trap 'rm -rf "$V"' EXIT
D=$(cd "$(dirname "$0")/.." && pwd)
cp -a "$D/mc" "$D/run.sh" "$D/known_findings.json" "$V"/; mkdir -p "$V/evidence" "$V/replays"
sed -i "s#=> /repo#=> $R#" "$V/mc/go.mod"
"$V/run.sh" "$@"
rc=$?
[ -n "$KEEP" ] && cp -a "$V/evidence" "$V/replays" "$KEEP"
exit $rc
