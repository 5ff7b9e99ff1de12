#!/bin/bash
# Nothing has to be kept from here: every check builds the extensions of /repo
# (ignored by git there) and provides itself with Hypothesis. This only verifies it can.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence"
exec bash "$here/check" --selftest
