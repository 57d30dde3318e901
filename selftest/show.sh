#!/bin/bash
# show.sh MODULE NAME FUNCTION [WIDTH]: smallest differing subterms for one edit
cd "$(dirname "$0")"
python3 apply_edit.py $1 $2 && cd ../engine && GPB_REPO=$GPB_W timeout 300 python3 tdiff.py $3 2>&1 | cut -c1-${4:-400} | head -${5:-40}
