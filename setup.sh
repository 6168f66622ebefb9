#!/bin/sh
# build the extraction tool and the replay harness from the committed files, offline
cd "$(dirname "$0")" || exit 1
PATH="$PATH:/root/.cargo/bin"; export PATH
(cd tool && cargo build --offline --quiet) || exit 1
(cd harness && cargo build --offline --quiet) || exit 1
exit 0
