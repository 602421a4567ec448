#!/bin/bash
# usage: replay.sh REPLAY.json   -- re-runs the recorded input against the real code of /repo (exit 1 if the contract is violated)
cd "$(dirname "$0")" && exec python3-vt run.py --replay "$1"
