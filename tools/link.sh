#!/bin/bash
# link.sh OUT driver.c [gcc args]: link a driver with /repo's built objects (run with cwd /repo)
out=$1; src=$2; shift 2
objs=$(find _build/lib _build/lib-platform _build/libcperciva -name '*.o' -not -path '*/.libs/*' -not -name 'libscrypt_kdf*')
inc=$(find lib lib-platform libcperciva -type d -printf '-I%p ')
exec gcc -w -O1 -g -D_GNU_SOURCE -DHAVE_CONFIG_H -I_build $inc -DCPUSUPPORT_CONFIG_FILE='"cpusupport-config.h"' -DAPISUPPORT_CONFIG_FILE='"apisupport-config.h"' "$src" $objs "$@" -lcrypto -lm -lpthread -o "$out"
