#!/bin/bash
# Builds the verifier's two helper rlibs and the bounded stand-in driver; every check builds what it finds missing.
cd "$(dirname "$0")" || exit 1
mkdir -p .build && bash vt/deps.sh .build/deps || exit 1
for w in 64 16; do
  python3 -c "import sys; sys.path.insert(0, 'vt'); import check; b, e = check.build_drv('$w'); print(b or e)" &
done
wait
exit 0
