#!/bin/sh
# Builds the Java operators of the specification (each check also does this itself when they are missing).
cd "$(dirname "$0")" && python3 -c 'import check; print(check.build_java())'
