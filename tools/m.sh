#!/bin/bash
# tools/m.sh FILE SED CHECK [args]: verdict of a check on a scratch copy with an edit
"$(dirname "$0")"/mut.sh "$1" "$2" -- timeout 400 /opt/venv/bin/python run_check.py "${@:3}" 2>&1 | grep -E "^[<>]|VIOL|undec|^C[0-9]" | cut -c1-220; echo ---
