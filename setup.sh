#!/bin/bash
# checks that everything the checks need is there; the checks build what they use themselves
set -e
cd "$(dirname "$0")"
mkdir -p evidence
T=$(mktemp -d /tmp/jqv-setup-XXXXXX)
trap 'rm -r "$T"' EXIT
gcc -O2 -w -shared -fPIC -o "$T/libvt.so" shim/vt.c -ldl
cp specs/*.tla "$T"
cd "$T"
for s in *.tla; do
  java -Djava.io.tmpdir="$T" -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$s" > sany.out 2>&1 || { cat sany.out; exit 1; }
done
/opt/venv/bin/python -c "import pandas, pyuv, portalocker"
echo setup ok
