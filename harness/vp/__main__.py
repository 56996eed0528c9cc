import sys

from vp.runner import main

sys.exit(main())
