#!/bin/bash
for f in "$@"; do echo "=== $f";  awk '!(NR<39 && /^\/\//)' $f | grep -v '^#include' | grep -v '^$'; done
