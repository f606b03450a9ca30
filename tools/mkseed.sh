#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS : turns /repo's uncommitted diff into /verif/seeded/ID and reverts it
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C ${SEED_REPO:-/repo} diff > $d/patch.diff
test -s $d/patch.diff
git -C ${SEED_REPO:-/repo} checkout -- .
python3 - "$@" <<'P' > $d/meta.json
import json,sys
print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
[ -e $d/demo.sh ] || cat > $d/demo.sh <<'P'
#!/bin/bash
# compiles demo.cc against the installed library and runs it in a scratch directory
D=$(dirname "$(readlink -f "$0")")
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I=/opt/cyclus/install
g++ -std=c++17 -w -O0 -DHDF_NO_NAMESPACE -DNDEBUG -I$I/include/cyclus -I$I/include -I$I/include/cyclus/toolkit \
  -I/usr/include/libxml2 -I/usr/include/glibmm-2.4 -I/usr/include/libxml++-2.6 -I/usr/include/hdf5/serial -I/usr/include/coin \
  $(pkg-config --cflags libxml++-2.6 libxml-2.0 glibmm-2.4 2>/dev/null) \
  "$D/demo.cc" -o "$T/demo" -L$I/lib -lcyclus -Wl,-rpath,$I/lib -lhdf5_serial -lsqlite3 -lboost_filesystem -lboost_system || exit 2
cd "$T" && timeout 120 ./demo
P
chmod +x $d/demo.sh
ls $d
