#!/bin/bash
# cwd: the repository after a build; builds the small program beside this file against it and runs it
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
L=src
g++ -std=c++11 -w -include map -DKENLM_MAX_ORDER=6 -Isrc/include -Isrc/kenlm -Isrc/tercpp -Isrc/marisa -Isrc/liblbfgs -Isrc "$D/demo.cc" -o "$T/demo" src/lib/.libs/libtravatar.a \
  src/kenlm/search/.libs/libklm_search.a src/kenlm/lm/.libs/libklm.a src/kenlm/util/.libs/libklm_util.a src/tercpp/.libs/libter.a src/marisa/.libs/libmarisa.a src/liblbfgs/.libs/liblbfgs.a \
  -lboost_program_options -lboost_iostreams -lboost_filesystem -lboost_regex -lboost_thread -lboost_system -lz -lbz2 -llzma -lpthread -lrt 2>"$T/err" || \
g++ -std=c++11 -w -include map -DKENLM_MAX_ORDER=6 -Isrc/include -Isrc/kenlm -Isrc/tercpp -Isrc/marisa -Isrc/liblbfgs -Isrc "$D/demo.cc" -o "$T/demo" src/lib/.libs/libtravatar.a \
  src/kenlm/search/.libs/libklm_search.a src/kenlm/lm/.libs/libklm.a src/kenlm/util/.libs/libklm_util.a src/tercpp/.libs/libter.a src/marisa/.libs/libmarisa.a src/liblbfgs/.libs/liblbfgs.a \
  -lboost_program_options -lboost_iostreams -lboost_thread -lboost_system -lz -lpthread 2>"$T/err" || { cat "$T/err"; exit 2; }
cd "$T" && timeout 120 ./demo
