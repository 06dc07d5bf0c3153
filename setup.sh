#!/bin/bash
# Builds the harness in both profiles, so that checks start quickly.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
bash "$here/build.sh" dev && bash "$here/build.sh" plain
