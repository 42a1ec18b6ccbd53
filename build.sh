#!/bin/bash
# builds the analyser; everything else is interpreted.  -mno-mmx: gcc 13 otherwise copies 128-bit integers through mm0 without emms, which corrupts the x87 stack
cd "$(dirname "$0")" && mkdir -p build && g++ -std=c++17 -O2 -mno-mmx -w -fext-numeric-literals engine/main.cpp -o build/ana.tmp -lquadmath && mv build/ana.tmp build/ana
