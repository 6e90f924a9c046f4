import sys
from .core import main

if __name__ == '__main__':
    # Run under the module name ``harness.core`` so that checks and workers share its classes
    sys.exit(main())
