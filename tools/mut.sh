#!/bin/bash
# mut.sh <seed id>: fresh /tmp/mut with the planted bug applied
rm -rf /tmp/mut; mkdir /tmp/mut; cp -a /repo/peak /tmp/mut/peak; cd / && git apply --unsafe-paths --directory=/tmp/mut /verif/seeded/$1/patch.diff
