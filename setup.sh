#!/bin/bash
# Warms the build cache; every check builds what it needs itself.
cd "$(dirname "$0")" || exit 1
VERIF_BUILD=setup ./check.sh C01 quick -runs 8 -evidence "" >/dev/null
