#!/bin/bash
# mut.sh FILE 'python-ish sed expr' mods fn... : verify with a mutated copy of one source file (development aid)
rm -rf /tmp/mut; mkdir /tmp/mut; cp -a /repo/. /tmp/mut/
f=$1; e=$2; shift 2
sed -i -E "$e" /tmp/mut/src/$f; diff /repo/src/$f /tmp/mut/src/$f | head -8
VF_REPO=/tmp/mut timeout 600 python3-vt run1.py "$@" 2>&1 | grep -v drop | cut -c1-200 | tail -6
