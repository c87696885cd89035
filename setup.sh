#!/bin/bash
# Builds the simulator from the committed files.
cd "$(dirname "$0")/sim" && cargo build --release --offline
