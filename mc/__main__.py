import sys

from mc.harness import main

if __name__ == "__main__":
    sys.exit(main())
