#!/bin/bash
# newseed.sh ID: turn /repo's uncommitted change into seeded/ID/patch.diff, with the standard demo.sh, then restore /repo
set -e
d=/verif/seeded/$1
mkdir -p "$d"
git -C /repo diff > "$d/patch.diff"
test -s "$d/patch.diff"
if [ ! -e "$d/demo.sh" ]; then
cat > "$d/demo.sh" <<'EOS'
#!/bin/bash
# Builds demo.cc against the library in _build and runs it: 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -w -O1 -I src -o "$T/demo" "$D/demo.cc" -Wl,--unresolved-symbols=ignore-all \
	-L_build/src -l:libdcp-1.0.so -Wl,-rpath,"$PWD/_build/src" -lboost_filesystem -lboost_date_time -lboost_thread -lboost_system -pthread || exit 1
cd "$T"
timeout 120 ./demo
EOS
chmod +x "$d/demo.sh"
fi
git -C /repo checkout -- .
