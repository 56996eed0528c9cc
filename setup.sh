#!/bin/bash
# Everything is built from source by the checks themselves (content-hash cache in ./build); this only warms that cache.
cd "$(dirname "$0")/harness" || exit 1
export PYTHONDONTWRITEBYTECODE=1
/opt/veriftools/pyvenv/bin/python -c "import hypothesis, numpy, scipy" || exit 1
/opt/veriftools/pyvenv/bin/python -m vp.build || echo "the tree does not build; the checks will say so"
exit 0
