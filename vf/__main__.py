import sys
from vf.runner import main
sys.exit(main())
