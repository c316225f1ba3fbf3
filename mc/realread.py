"""Reads realms with the real git in this process; prints one result per line."""
import os
import sys
import tempfile

import logging
logging.disable(logging.CRITICAL)


def main(paths):
    from . import content
    from . import gitmodel
    gitmodel.uninstall()
    for path in paths:
        try:
            print(repr(("ok", content.read_realm(path))))
        except Exception as error:
            print(repr(("error", type(error).__name__, str(error)[:300])))


if __name__ == "__main__":
    main(sys.argv[1:])
