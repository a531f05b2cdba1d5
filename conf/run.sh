#!/bin/bash
# The contracts of jax.numpy and jax.lax against the installed jax: conf/run.sh [seed] [cases per expression]
# A part that crashes (some XLA versions crash on rare half precision programs) loses only what came after.
cd "$(dirname "$0")" || exit 2
d=$(mktemp -d) || exit 2
for i in 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15; do
  (JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python cases.py "${1:-0}" "${2:-6}" $i 16 > "$d/$i" 2>/dev/null) &
  [ $((i % 8)) = 7 ] && wait 2>/dev/null
done
wait
cat "$d"/* | PYTHONDONTWRITEBYTECODE=1 python3-vt compare.py
r=$?
rm -rf "$d"
exit $r
