#!/bin/bash
# Runs the repository's own (here unbuildable) unit tests against the stand-ins.
set -u; export LSAN_OPTIONS=detect_leaks=0
O=$(mktemp -d /tmp/selftest.XXXXXX)
V=/verif/shim
R=/repo/c
INC="-I$V/include -I$V/selftest"
for d in librtcm libubx libixcom gnss_converters gnss_converters_extra rtcm3tosbp ubx2sbp ixcom2sbp sbp2rtcm; do INC="$INC -I$R/$d/include -I$R/$d/src"; done
SRC=$(find $R/librtcm/src $R/libubx/src $R/libixcom/src $R/gnss_converters/src $R/gnss_converters_extra/src -name '*.c')
for f in $SRC $V/src/*.c $V/selftest/check.c; do echo "$f"; done | xargs -P8 -I{} sh -c 'gcc -std=gnu99 -w -g -O1 -fsanitize=address -D_GNU_SOURCE '"$INC"' -c {} -o '$O'/$(echo {} | tr / _).o'
ar rc $O/lib.a $O/*.o
for d in librtcm libubx libixcom gnss_converters gnss_converters_extra rtcm3tosbp ubx2sbp ixcom2sbp; do
  [ -d $R/$d/test ] || continue; [ $d = librtcm ] && continue
  F=$(ls $R/$d/test/*.c)

  [ $d = gnss_converters ] && F=$(ls $R/$d/test/*.c | grep -v "check_nmea.c\|check_gnss_conv")
  [ $d = gnss_converters ] && F="$F $V/selftest/gc_main.c"
  X=""; [ $d = rtcm3tosbp ] && X="-I$R/rtcm3tosbp/test"
  mkdir -p $O/cfg; echo "#define RELATIVE_PATH_PREFIX \"$R/$d/test\"" > $O/cfg/config.h
  gcc -std=gnu99 -w -g -O1 -fsanitize=address -D_GNU_SOURCE -I$O/cfg $INC -I$R/$d/test $X $F $O/lib.a -lm -o $O/t_$d 2>$O/log_$d || { echo "== $d: build failed"; head -5 $O/log_$d; continue; }
  echo "== $d"; (cd $R/$d/test; ASAN_OPTIONS=detect_leaks=0 timeout 20 $O/t_$d 2>&1 | grep -v '^Running' | tail -${LINES_MAX:-25})
done
rm -rf "$O"
