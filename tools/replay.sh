#!/bin/sh
# replay.sh FILE : runs the script of a reported violation again and prints the trace
V=$(cd "$(dirname "$0")/.." && pwd)
exec python3 "$V/tools/kverif.py" replay "$1"
