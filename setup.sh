#!/bin/bash
# build the symbolic executor (std-only Rust, no network); the checks build it too if this has not run
set -e
cd "$(dirname "$0")"
bash symex/build.sh "$PWD/target/symex"
bash harness/build.sh "$PWD/target/harness"
