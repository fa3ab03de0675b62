#!/bin/bash
# Usage: run.sh ID [extra harness flags]. Builds the simulator from /repo's
# working tree and explores one property. VERIF_TIER and VERIF_SEED apply.
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; shift
. /opt/vp/env.sh
scr=$(mktemp -d /tmp/verif-sim.XXXXXX)
trap 'rm -rf "$scr"' EXIT
fail() { echo "run.sh: $1" >&2; exit 2; }
(cd "$here/instr" && GOFLAGS=-mod=mod go build -trimpath -o "$scr/instr" .) || fail "cannot build the instrumenter"
race=; norace=
[ "$id" = C27 ] && race=-race
for try in 1 2 3 4 5 6; do
  rm -rf "$scr/src"; mkdir "$scr/src"
  "$scr/instr" $race -norace "$norace" -src "${REPO:-/repo}" -dst "$scr/src" -sim "$here/sim" -harness "$here/harness" || fail "cannot instrument the repository"
  (cd "$scr/src" && go build -trimpath -o "$scr/dst" ./internal/zzsim/harness) 2>"$scr/log" && break
  cat "$scr/log" >&2
  [ -n "$race" ] || fail "cannot build the simulation"
  # Functions whose accesses cannot be rewritten are left as they are.
  more=$("$scr/instr" -blame "$scr/log" -dst "$scr/src")
  [ -n "$more" ] || fail "cannot build the simulation"
  norace="$norace,$more"
  echo "run.sh: accesses in $more are not reported" >&2
done
[ -x "$scr/dst" ] || fail "cannot build the simulation"
rm -rf "$scr/src"
mkdir -p "$here/evidence" "$here/replays"
"$scr/dst" -prop "$id" -tier "${TIER:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" \
  -evidence "$here/evidence/$id.json" -known "$here/known-findings.txt" -outdir "$here/replays" "$@"
