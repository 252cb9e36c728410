import sys
import traceback

from .runner import main

if __name__ == "__main__":
    try:
        code = main(sys.argv[1])
    except Exception:  # an error of the check itself is never reported as a violation
        traceback.print_exc()
        code = 2
    sys.exit(code)
