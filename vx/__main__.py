import sys

from vx.runner import main

sys.exit(main())
