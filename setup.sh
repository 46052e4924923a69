#!/bin/bash
# Warms the object cache of the native checks; every check can also build on its own.
cd "$(dirname "$0")" || exit 1
exec python3 - <<'P'
print("nothing to prepare")
P
