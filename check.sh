#!/bin/sh
# check.sh ID [quick|thorough] | check.sh ID replay FILE
exec python3 "$(dirname "$0")/sim/driver.py" "$@"
