#!/bin/bash
# runs the given (default: all) checks one after another; prints exit code and time
cd "$(dirname "$0")/.."
for c in ${@:-$(ls checks/[A-Z]*.py | xargs -n1 basename | sed s/.py//)}; do
  s=$(date +%s); ./run.py $c > /tmp/out_$c.txt 2>&1; r=$?; e=$(date +%s)
  echo "$c rc=$r $((e-s))s $(tail -1 /tmp/out_$c.txt | cut -c1-200)"
done
