#!/bin/bash
# build.sh AREA OUT [-race]: builds one harness against /repo's current working tree, offline.
# The harness sources stay in /verif: an overlay shows them to the go command as packages of the module,
# under internal/zverif, which exists nowhere on disk.
set -e -o pipefail
here=$(cd "$(dirname "$0")" && pwd)
area=$1; out=$2; shift 2
repo=${VERIF_REPO:-/repo}
export PATH=/opt/veriftools/go1.23.12/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOSUMDB=off GOWORK=off
overlay=$(dirname "$out")/overlay-${area//\//-}.json
python3 - "$here/harness" "$repo" >"$overlay" <<'P'
import json, os, sys
src, repo = sys.argv[1:]
rep = {}
for d, _, fs in os.walk(src):
    for f in fs:
        p = os.path.join(d, f)
        if os.sep + 'stub' + os.sep in p:
            rep[os.path.join(repo, os.path.relpath(p, os.path.join(src, 'stub')))] = p
        else:
            rep[os.path.join(repo, 'internal/zverif', os.path.relpath(p, src))] = p
json.dump({'Replace': rep}, sys.stdout)
P
cd "$repo"
case $area in
    */*) pkg=./$area ;;            # a command of the repository itself
    *) pkg=./internal/zverif/$area ;;
esac
# The module file is a copy, so that nothing writes to the repository's own.
mod=$(dirname "$out")/${area//\//-}.mod
cp go.mod "$mod"; cp go.sum "${mod%.mod}.sum"
go build -modfile "$mod" -overlay "$overlay" "$@" -o "$out" "$pkg"
