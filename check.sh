#!/bin/sh
# check.sh <ID> quick|thorough ; check.sh replay <file> ; check.sh setup
exec python3 "$(dirname "$0")/tools/check.py" "$@"
