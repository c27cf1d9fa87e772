#!/bin/bash
# Install the property-testing library from the offline wheel directory into
# /verif/.deps (not committed).  Idempotent.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
if [ ! -e "$here/.deps/.complete" ]; then
    tmp="$(mktemp -d "$here/.deps.XXXXXX")"
    /opt/venv/bin/python -m pip install --quiet --disable-pip-version-check \
        --no-index --find-links /opt/veriftools/wheels --target "$tmp" hypothesis
    touch "$tmp/.complete"
    if [ -e "$here/.deps" ]; then mv "$here/.deps" "$tmp/old"; fi
    mv "$tmp" "$here/.deps"
fi
