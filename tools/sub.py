#!/usr/bin/env python3
"""sub.py FILE OLD NEW: one textual replacement in /repo/source/FILE (C escapes understood, line endings kept)."""
import sys
f, a, b = sys.argv[1:4]
f = '/repo/source/' + f
s = open(f, newline='').read()
a, b = (x.encode('latin1', 'backslashreplace').decode('unicode_escape') for x in (a, b))
if '\r\n' in s:
    a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
if s.count(a) != 1:
    sys.exit('%s: %d matches of %r' % (f, s.count(a), a))
open(f, 'w', newline='').write(s.replace(a, b))
