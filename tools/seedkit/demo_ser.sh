#!/bin/bash
# builds a small driver over the public API of the checked-out serializer and compares its answers with what the wire format demands
D="$(cd "$(dirname "$0")" && pwd)"; R="$(pwd)"; W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
QT=/usr/include/x86_64-linux-gnu/qt5
F=(-DQT_CORE_LIB -DQT_QML_LIB -DQT_BUILD_PROTOBUF_LIB -DQT_NO_DEBUG_OUTPUT -DQT_NO_WARNING_OUTPUT -DQT_PROTOBUF_VERSION_MAJOR=0 -DQT_PROTOBUF_VERSION_MINOR=6 '-DQT_PROTOBUF_PLUGIN_PATH="x"' -I"$R/src/protobuf" -I"$R/src/protobuf/quick" -I"$D/inc" -I"$D/gen" -isystem $QT -isystem $QT/QtCore -isystem $QT/QtQml -isystem $QT/QtNetwork -isystem /usr/lib/x86_64-linux-gnu/qt5/mkspecs/linux-g++ -fPIC -std=gnu++14 -O1 -w -fno-access-control)
/usr/lib/qt5/bin/moc -I"$D/inc" -I"$R/src/protobuf" -I$QT -I$QT/QtCore "$D/gen/vmsg.qpb.h" -o "$W/moc_vmsg.cpp" || exit 99
SRC=("$D/nat_ser.cpp" "$D/gen/vmsg.qpb.cpp" "$W/moc_vmsg.cpp")
for f in "$R"/src/protobuf/*.cpp; do case "$f" in *json*|*serializerregistry*) ;; *) SRC+=("$f");; esac; done
i=0; for s in "${SRC[@]}"; do i=$((i+1)); g++ "${F[@]}" -c "$s" -o "$W/$i.o" & done; wait
g++ "$W"/*.o -o "$W/t" -lQt5Core -lQt5Qml -lpthread || exit 99
timeout 60 "$W/t" < "$D/cmd.txt" > "$W/out.txt"; rc=$?
[ $rc -eq 0 ] || { echo "driver ended with $rc"; exit 1; }
if ! cmp -s "$W/out.txt" "$D/expected.txt"; then echo "behaviour differs:"; diff "$W/out.txt" "$D/expected.txt" | cut -c1-300 | head -8; exit 1; fi
echo ok
