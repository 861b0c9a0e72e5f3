#!/bin/bash
# usage: replay.sh replay/<file>.txt : re-executes one recorded case and prints it
F=$(realpath "$1")
ID=$(sed -n 's/^property //p' "$F")
exec "$(dirname "$0")/check.sh" "$ID" quick --replay "$F"
