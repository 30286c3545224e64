#!/bin/sh
# builds the IR dumper; everything else is built by the checks from the current sources
cd "$(dirname "$0")" && python3-vt -c "import sys; sys.path.insert(0,'vc'); import build; print(build.irdump())"
