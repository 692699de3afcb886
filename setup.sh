#!/bin/bash
# builds the MIR exporter and warms the dependency metadata of /repo
set -e
cd "$(dirname "$0")"
python3 analysis/dump.py
