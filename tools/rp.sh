#!/bin/bash
# rp.sh PID n : verbose replay
cd /verif; bin/replay build/replays/$1-$2.json 2>&1 | tail -${3:-8}
