#!/bin/bash
# builds the IR extractor (offline); checks build it themselves if it is missing
cd "$(dirname "$0")/vc" && python3 -c 'import check; print(check.tools())'
