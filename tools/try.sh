#!/bin/bash
# try.sh ID [scale]: development helper, short output
cd /verif; VERIF_SCALE=${2:-0.2} ./check.sh $1 ${3:-quick} > /tmp/o.$1 2>&1; echo rc=$?; cut -c1-400 /tmp/o.$1 | head -${4:-70}
