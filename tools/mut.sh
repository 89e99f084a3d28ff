#!/bin/bash
# tools/mut.sh PATCH|- [Cxx ...]: dump the MIR of a patched scratch copy of /repo and run rules on it
set -e
W=${W:-/tmp/mut}
mkdir -p $W
rm -rf $W/src
cp -a /repo/src /repo/Cargo.toml /repo/Cargo.lock $W/
[ -d /repo/tests ] && rm -rf $W/tests && cp -a /repo/tests $W/
cd $W
if [ "$1" != "-" ]; then patch -s -p1 < "$1"; fi
shift
cd /verif
for c in "$@"; do REPO=$W python3 check.py $c --no-evidence; done
