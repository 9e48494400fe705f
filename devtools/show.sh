#!/bin/bash
for f in "$@"; do echo "== $f"; sed -e '/^ *\/\//d' -e '/^$/d' -e '/^#include/d' "$f"; done
