#!/bin/bash
# Builds the dependencies and binaries once; the checks then rebuild only the limabean crate.
cd "$(dirname "$0")" && exec bash ./build.sh
