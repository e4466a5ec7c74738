#!/bin/bash
# Upstream's NMEA tests against the stand-ins.  test_nmea_gpgga fails: the geoid is a stand-in.
R=${R:-/repo}
H=$(cd "$(dirname "$0")" && pwd); V=$(cd "$H/../.." && pwd); T=$(mktemp -d /tmp/nmea.XXXXXX); trap 'rm -rf "$T"' EXIT
echo '#define RELATIVE_PATH_PREFIX "/repo/c/gnss_converters/test"' > "$T/config.h"
INC="-I$V/include -I$V/selftest -I$T -I$R/c/gnss_converters/test"; for d in gnss_converters librtcm libubx libixcom; do INC="$INC -I$R/c/$d/include -I$R/c/$d/src"; done
gcc -std=gnu99 -w -g -fsanitize=address,undefined -D_GNU_SOURCE $INC "$H"/main.c "$H"/rd.c "$R"/c/gnss_converters/src/nmea.c "$R"/c/gnss_converters/src/sbp_nmea.c "$V"/src/*.c "$V"/selftest/check.c -lm -o "$T/t" || exit 1
cd "$T" && ASAN_OPTIONS=detect_leaks=0 ./t
