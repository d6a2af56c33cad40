#!/bin/bash
# full stable test run on a copy of /repo's working tree; result in $1
rm -rf /tmp/rtcopy; cp -a /repo /tmp/rtcopy
python3 /verif/tools/rt.py -r /tmp/rtcopy tests > "$1" 2>&1
rm -rf /tmp/rtcopy
