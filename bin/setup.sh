#!/bin/bash
# compiles the TLC module override and parses every specification; the checks build their drivers themselves
set -e
cd "$(dirname "$0")/.."
mkdir -p build/java
J=/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar
javac -cp $J -d build/java java/*.java
