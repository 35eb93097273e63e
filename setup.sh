#!/bin/bash
# Build the harnesses, so that the checks only rebuild what changed.
cd "$(dirname "$0")" && exec python3 check.py --build
