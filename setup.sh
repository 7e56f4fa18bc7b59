#!/bin/bash
# The checks build their harnesses from /repo's current tree themselves; this
# only verifies that the tools they need are present and that the engine works.
set -e
cd "$(dirname "$0")"
for t in clang++ g++ python3; do command -v $t >/dev/null || { echo "missing $t" >&2; exit 1; }; done
d=$(mktemp -d /tmp/verif-setup-XXXXXX)
trap 'rm -rf -- "$d"' EXIT
cat > "$d/t.cpp" <<'X'
#include "engine/pbt.hpp"
void pbt::setup(const std::string&) {}
PBT_PROP(finds, 1) { auto n = g.below(1000); auto s = g.bytes(n); PBT_CHECK("big", n < 700, "%zu", s.size()); }
X
g++ -std=gnu++20 -I. "$d/t.cpp" -o "$d/t" -pthread
if "$d/t" --seed 1 --workers 2 --cases 1000 --scratch "$d/s" --result "$d/r.json"; then
  echo "engine self-test: the planted failure was not found" >&2; exit 1
fi
grep -q '"choices": \[0, 700' "$d/r.json" || { echo "engine self-test: not shrunk" >&2; cat "$d/r.json" >&2; exit 1; }
echo "setup ok"
