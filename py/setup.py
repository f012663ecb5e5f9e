"""Build the extractor and parse the whole library into the cache; every check does the same by
itself if it has to."""

import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import ir    # noqa

if __name__ == '__main__':
    p = ir.load(tools=True)
    print('%d translation units, %d functions' % (len(p.tus), len(p.functions)))
    for source, count, msg in p.errors:
        print('%s: %d errors\n%s' % (source, count, msg))
