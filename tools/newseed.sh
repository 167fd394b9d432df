#!/bin/bash
# usage: newseed.sh ID targets...   copies the kit into seeded/ID (demo.py, meta.json, patch.diff are added by hand)
r=$(cd "$(dirname "$0")/.." && pwd); s=$r/seeded/$1; mkdir -p $s
cp -r $r/tools/seedkit/* $s/; shift; echo "$@" > $s/targets
