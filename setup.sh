#!/bin/bash
# nothing to prepare: each check builds what it needs from /repo's working tree
cd "$(dirname "$0")" && mkdir -p evidence target && command -v cargo python3-vt >/dev/null
