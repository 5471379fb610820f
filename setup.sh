#!/bin/bash
# build the driver and the engine from the committed sources
set -e
cd "$(dirname "$0")/sa"
cargo +nightly build --release --offline
