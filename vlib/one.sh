#!/bin/bash
# one.sh file...: read/write each, showing library messages
for f in "$@"; do
printf 'CASE a\nnew m\nread m %s\nwrite m /tmp/w/one.igs 1\nEND\n' $f > /tmp/w/one.s; rm -f /tmp/w/one.o
echo "== $f"; ASAN_OPTIONS=detect_leaks=0 UBSAN_OPTIONS=print_stacktrace=1 /verif/build/san/h_vh /tmp/w/one.s /tmp/w/one.o 2>&1 | grep -v "^$" | sed 's,/verif/build/src/src/,,' | head -${N:-12}; grep R /tmp/w/one.o | tr '\n' ' '; echo
done
