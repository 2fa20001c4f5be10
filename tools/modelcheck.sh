#!/bin/bash
# Compares the reference preprocessor with `gcc -E` on generated macro tables.
cd "$(dirname "$0")/.." || exit 3
bash checks/build.sh || exit 3
for s in ${@:-1 2 3 4 5}; do /verif/target/debug/cmv gcccheck "$s" 20000; done
