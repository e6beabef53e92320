#!/bin/bash
# developer helper: extract all TUs
cd /verif
B=${1:-build}; R=${2:-/repo}
I="-I$R"
for d in io geo; do build/extract $B/$d.json /verif/drivers/$d.cpp $R/,/verif/drivers -- -std=c++20 -fopenmp $I & done
for a in compress decompress diff filter info merge srs tile tool transform; do build/extract $B/$a.json $R/apps/$a/$a.cpp $R/ -- -std=c++20 -fopenmp $I -I$R/apps/$a & done; wait
