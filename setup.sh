#!/bin/bash
# Builds the instrumented and the native harness once (checks rebuild what changed).
cd "$(dirname "$0")" || exit 1
shadow/build.sh harness && shadow/build.sh native && python3 tools/props.py
