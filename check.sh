#!/bin/bash
# check.sh ID [quick|thorough]: builds the harness of one property against /repo's working tree and runs it.
# Exit 0: the property held on everything observed. Exit 1 + VIOLATION line: it did not. Anything else: no answer.
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}; seed=${VERIF_SEED:-1}; shift; shift
race=; area=; command=
case $id in
    C01|C02|C03|C04|C06|C07|C08|C09|C10|C11) area=handlers ;;
    C05|C19) area=handlers; race=-race ;;
    C14|C15) area=support ;;
    C12|C13|C27) area=support; race=-race ;;
    C16|C17|C18) area=data ;;
    C25) area=data; command=cmd/tabular ;;
    C26) area=data; command=cmd/server; race=-race ;;
    C20|C21) area=scoring ;;
    C22) area=scoring; race=-race ;;
    C23) area=suites ;;
    C24) area=suites; race=-race ;;
    *) echo "unknown property $id" >&2; exit 2 ;;
esac
mkdir -p "$here/evidence/replays"
work=$(mktemp -d /tmp/verif-$id-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
trap 'exit 2' INT TERM
if ! "$here/build.sh" "$area" "$work/harness" $race >"$work/build.log" 2>&1 ||
    { [ -n "$command" ] && ! "$here/build.sh" "$command" "$work/command" $race >>"$work/build.log" 2>&1; }; then
    echo "cannot build the harness for $id:" >&2
    head -c 4000 "$work/build.log" >&2
    exit 2
fi
limit=840
[ "$tier" = thorough ] && limit=7200
cd "$work" || exit 2
export VERIF_BIN=$work/command
export GORACE="log_path=$work/race exitcode=0 halt_on_error=0 history_size=3" GOTRACEBACK=all TMPDIR="$work"
timeout -k 10 "$limit" "$work/harness" -prop "$id" -tier "$tier" -seed "$seed" -out "$here/evidence/$id.json" \
    -replays "$here/evidence/replays" -known "$here/known_findings.json" -racelog "$work/race" "$@" \
    >"$work/out" 2> >(tail -c 2000000 >"$work/err")
rc=$?
sleep 0.2
case $rc in
    0) grep -a '^KNOWN-FINDING: ' "$work/out"; grep -av '^KNOWN-FINDING: ' "$work/out" | cut -c1-600 | head -n 60; exit 0 ;;
    1) grep -a '^KNOWN-FINDING: ' "$work/out"
       grep -av -e '^KNOWN-FINDING: ' -e '^VIOLATION ' "$work/out" | cut -c1-600 | head -n 60
       grep -a "^VIOLATION property=$id " "$work/out" && exit 1 ;;
esac
# The process died: a panic or fatal error that comes out of the code under test is a violation as well.
if [ "$rc" != 124 ] && [ "$rc" != 137 ] && [ "$rc" != 3 ] && [ "$rc" != 4 ] &&
    grep -qE '^(panic:|fatal error:|runtime:|SIG)' "$work/err" &&
    sed 's#go-slog/internal/zverif##g' "$work/err" | grep -q 'madkins23/go-slog/'; then
    replay=$here/evidence/replays/$id.json
    python3 - "$id" "$tier" "$seed" "$work/err" "$replay" "$here/evidence/$id.json" <<'P'
import json, sys
pid, tier, seed, err, replay, ev = sys.argv[1:]
t = open(err, errors='replace').read()
import re
m = re.search(r'^(panic:|fatal error:|runtime:|SIG).*', t, re.M)
at = m.start() if m else 0
json.dump({"property": pid, "tier": tier, "seed": int(seed), "violations": [{"what": "the process died: " + m.group(0)[:300], "detail": t[at:at + 20000]}]}, open(replay, 'w'), indent=1)
json.dump({"property": pid, "tier": tier, "seed": int(seed), "level": "exploration", "violations": 1, "wall_s": 0,
           "coverage": {"evaluations": 1, "distinct_nontrivial": 1, "rule": "the process of the code under test died", "samples": [m.group(0)[:300]]}}, open(ev, 'w'), indent=1)
print("  the process died:", m.group(0)[:300])
P
    echo "VIOLATION property=$id replay=$replay"
    exit 1
fi
echo "no answer for $id (exit $rc)" >&2
tail -c 3000 "$work/out" >&2
tail -c 3000 "$work/err" >&2
exit 2
