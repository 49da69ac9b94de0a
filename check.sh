#!/bin/bash
# check.sh PROPERTY
cd "$(dirname "$0")" && exec /usr/bin/env python3 -B harness/run.py "$1"
