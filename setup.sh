#!/bin/bash
. "$(dirname "$0")/tools/build.sh"
[ -n "$NAT" ] && [ -n "$PKG" ] && echo "built"
