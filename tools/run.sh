#!/bin/bash
# tools/run.sh PROP [args]: run a check, show only what is not clean
cd /verif
/opt/venv/bin/python check.py "$@" -v 2>&1 | grep -v '^VIOLATION' | grep -v 'uns=0 unk=0 spur=0 viol=0 known=0 mm=0' | cut -c1-330
