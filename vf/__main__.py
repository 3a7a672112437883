import sys

from vf.run import main

sys.exit(main())
