#!/bin/bash
# builds the TLC module overrides (exact rational arithmetic) from java/
set -e
cd "$(dirname "$0")"
mkdir -p build evidence
javac -cp /opt/veriftools/tla/tla2tools.jar -d build java/Rat.java
