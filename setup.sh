#!/bin/bash
# Everything is built by the checks themselves; this only confirms that the tools are there.
set -e
cd "$(dirname "$0")"
node --version
cargo --version
test -d /opt/veriftools/quint/node_modules/@informalsystems/quint/dist/src
python3 -c "import json; json.load(open('MANIFEST.json'))"
