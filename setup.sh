#!/bin/bash
# checks build what they need themselves; this only shows early that the tools are there
cd "$(dirname "$(readlink -f "$0")")" && python3-vt -c 'import z3; from engine import build; print(build.extractor())'
