#!/bin/bash
# run_check.sh ID TIER [options of the check binary]: build the check from /repo's current tree and run it.
# PBT_INCREMENTAL=1 (development only) rebuilds only what changed.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LANG=C.UTF-8
cd "$(dirname "$(realpath "$0")")" || exit 2
ID=$1
TIER=${2:-quick}
shift 2
OUT=${PBT_OUT:-build/$ID}
mkdir -p "$OUT/scratch" replays evidence || exit 2
FORCE=-B
[ -n "$PBT_INCREMENTAL" ] && FORCE=
if ! make $FORCE -s -j8 -f Makefile.check ID="$ID" OUT="$OUT" REPO="${PBT_REPO:-/repo}" >"$OUT/build.log" 2>&1; then
  tail -40 "$OUT/build.log"
  echo "the check does not build against the current tree"
  exit 2
fi
if [ "$TIER" = replay ]; then
  exec "$OUT/check" replay "$@"
fi
exec "$OUT/check" "$TIER" --evidence "${PBT_EVIDENCE:-evidence/$ID.json}" --replays replays --known known_findings.txt --scratch "$OUT/scratch" "$@"
