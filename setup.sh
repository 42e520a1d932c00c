#!/bin/bash
# Builds the extractor from the committed files, offline. (The replay harness is built afresh by every check.)
set -e
cd "$(dirname "$0")"
export CARGO_NET_OFFLINE=true
(cd extract && cargo build --release --offline -q)
mkdir -p work evidence
