#!/bin/bash
# Builds the framework's copy of LattE (plain and sanitizer flavours) from /repo's working tree.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C
cd "$(dirname "$(realpath "$0")")" || exit 1
/opt/veriftools/pyvenv/bin/python lib/build.py plain && /opt/veriftools/pyvenv/bin/python lib/build.py asan
