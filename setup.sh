#!/bin/bash
# setup.sh: nothing has to be kept between runs; this only shows that the tool chain is there and the harnesses build.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/verif-setup-XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
for area in handlers support data scoring suites; do
    "$here/build.sh" $area "$work/$area" || exit 2
done
echo ready
