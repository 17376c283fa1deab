#!/bin/bash
# Builds the engine, the harness IR and the native replay binary.
cd "$(dirname "$0")" && exec python3 -c 'import check; ll, fr = check.build(); rc, out = fr.result(); print(ll); raise SystemExit(rc)'
