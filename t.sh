#!/bin/bash
# dev helper: run a check with a time limit and show slow or odd jobs
P=$1; shift
VP_TIME=${VP_TIME:-250} timeout 400 python3-vt /verif/check.py $P --stats "$@" 2>&1 | awk '{w=$0; sub(/.*wall /,"",w); if ($1!="#" || w+0>20 || /viol [1-9]|unk [1-9]|bound [1-9]|INCOMP/ || !/err \[\]/) print}' | cut -c1-420
