#!/bin/bash
# builds the extractor and extracts every translation unit of /repo's current tree (cached by content)
cd "$(dirname "$0")" || exit 2
exec python3 -c "
import sys; sys.path.insert(0, '.')
from dgv import load
load.prepare()
"
