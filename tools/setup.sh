#!/bin/bash
# builds the executor; checks rebuild it when missing
cd "$(dirname "$0")/.."; mkdir -p .build evidence
bash rsym/build.sh .build/rsym && sha256sum rsym/rsym.cpp | cut -d' ' -f1 | tr -d '\n' > .build/rsym.sha
