#!/bin/bash
# Everything is built by the checks themselves; this warms the build and makes sure that the tools are there.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 2
. tools/env.sh
command -v node >/dev/null && [ -x "$WBG" ] && cargo --version && bash tools/build_threads.sh thr thrt && exec bash tools/build.sh build dev tu rel turel
