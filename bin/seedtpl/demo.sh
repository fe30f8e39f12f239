#!/bin/bash
# compiles demo.cpp against the library built in the current directory (/repo) and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); W=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$W"' EXIT
I="-I$D -I$R/_build/src/Common"; for d in Common LinAlg LinAlg/TMatrices Algorithm Algorithm/LinearSolvers contrib/CGPenalty Interfaces; do I="$I -I$R/src/$d"; done
g++ -std=c++14 -O1 -w $I "$D/demo.cpp" -o "$W/demo" -L"$R/_build/inst/lib" -lipopt -lsipopt -I"$R/contrib/sIPOPT/src" -Wl,-rpath,"$R/_build/inst/lib" > "$W/log" 2>&1 || { cat "$W/log"; echo "demo does not compile"; exit 99; }
cd "$W" && timeout 120 ./demo; rc=$?; exit $rc
