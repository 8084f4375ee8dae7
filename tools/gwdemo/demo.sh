#!/bin/bash
# builds the gateway's sources with demo.cpp and runs it
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$t"' EXIT
g=$PWD/MQTTSNGateway/src
inc="-I$g -I$g/linux -I$g/linux/udp -I$PWD/MQTTSNPacket/src -I$here"
ls "$g"/*.cpp "$g"/linux/*.cpp "$g"/linux/udp/*.cpp "$PWD"/MQTTSNPacket/src/*.c "$here"/*.cpp | grep -v -e mainGateway -e mainLogmonitor > "$t/l"
cd "$t" || exit 2
export inc SAN
xargs -P 8 -n 1 sh -c 'case $0 in *.c) gcc -g -w $SAN $inc -c $0;; *) g++ -g -w -std=gnu++11 $SAN $inc -c $0;; esac || exit 255' < l || exit 2
g++ $SAN *.o -o demo -lpthread -lssl -lcrypto -lrt || exit 2
ASAN_OPTIONS=detect_leaks=${LEAKS:-0} timeout 100 ./demo > log 2>&1
rc=$?
tail -5 log
exit $rc
