#!/bin/bash
# builds the one native helper (a numpy data allocator that fails on demand) from source
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore -m nvsim.native_build
exit 0
