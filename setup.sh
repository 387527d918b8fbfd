#!/bin/bash
# Builds the symbolic executor once; every check rebuilds what it needs anyway.
cd "$(dirname "$0")" && python3 -c "
import sys; sys.argv=['x']; import run; B=run.Build(); B.gen(); print(B.engine())"
