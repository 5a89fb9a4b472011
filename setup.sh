#!/bin/bash
# Warms the build cache: builds the instrumenter and the instrumented tree once.
cd "$(dirname "${BASH_SOURCE[0]}")" && exec bash check.sh build
