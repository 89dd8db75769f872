#!/bin/bash
# builds the rustc driver (offline) and analyses the crate once
set -e
cd "$(dirname "$0")"
python3 -c "import sys; sys.path.insert(0, 'lib'); import facts; print(facts.extract()[1])"
