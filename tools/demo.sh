#!/bin/bash
# builds demo.cpp against the freshly built library, runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
L=/usr/lib/x86_64-linux-gnu
g++ -std=c++17 -O1 -w -fno-access-control -I "$R/McCalib/include" -I "$R" -I /usr/include/opencv4 -I /usr/include/eigen3 "$D/demo.cpp" "$R/_build/McCalib/libMcCalib.a" \
  -lceres -lglog -lopencv_aruco -lopencv_calib3d -lopencv_imgcodecs -lopencv_imgproc -lopencv_features2d -lopencv_core $L/libboost_log.a $L/libboost_thread.a $L/libboost_filesystem.a $L/libboost_regex.a $L/libboost_chrono.a $L/libboost_atomic.a $L/libboost_system.a -lpthread -lrt -o "$T/demo" 2>"$T/log" || { tail -5 "$T/log"; exit 2; }
cd "$T" && timeout 200 ./demo >"$T/log" 2>&1; rc=$?; grep FAILED "$T/log"; exit $rc
