#!/usr/bin/env python3
"""Prints the "fixed:" lines of known_findings.txt from the fix commits of /repo."""
import re, subprocess, sys
MAP = [
    (r'from several threads wrote into', 'T08'), (r'first used Bytes.valueOf|shared the buffer of localtime|disturbed the dates', 'T07'),
    (r'time UUIDs at the same moment', 'T06'), (r'threads sharing a Random', 'T05'),
    (r'Base64', 'E01'), (r'URL(En|De)coder', 'E02'),
    (r'Long\.decode', 'N01'), (r'String\.(hashCode|charAt)', 'S01'), (r'String\.(indexOf|lastIndexOf|contains)', 'S02'), (r'String comparisons', 'S02'),
    (r'String\.(replace|trim|to)', 'S03'), (r'String\.format', 'S04'),
    (r'decode|parse(Int|Long|Unsigned)', 'N01'), (r'StringBuilder', 'S05'), (r'StringBuffer read other buffers', 'S07'), (r'StringBuffer', 'S06'),
    (r'Integer <<|parseInt|Bytes.valueOf|Boolean\(|Short|Long.toString|getLong', 'N01'), (r'Long\.reverse|Long bit', 'N02'),
    (r'division|compound', 'N03'), (r'Float|Double', 'N04'), (r'Math', 'N05'), (r'Character', 'N06'),
    (r'std::hash', 'C09'), (r'ArrayList', 'C01'), (r'LinkedList', 'C02'), (r'Vector|Stack', 'C03'), (r'ConcurrentHashMap', 'T03'), (r'HashMap', 'C04'), (r'\bSet\b', 'C05'),
    (r'PriorityQueue', 'C06'), (r'BitSet', 'C07'), (r'Arrays?\b', 'C08'),
    (r'MessageDigest', 'E03'), (r'UUID', 'E04'), (r'MediaType', 'E05'), (r'Semaphore', 'T01'), (r'Thread', 'T02'),
    (r'ConcurrentLinkedQueue', 'T04'), (r'TimeZone', 'U03'), (r'Random', 'U01'), (r'SimpleDateFormat', 'U03'), (r'Date', 'U02'), (r'Throwable|[Ee]xception', 'U04'),
]
sys.path[:0] = ['/verif', '/verif/tools']
from props import PROPS
ids = {p['id'] for p in PROPS}
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '482f4f9..HEAD'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    h, m = l.split(' ', 1)
    if not m.startswith('fix: '): continue
    m = m[5:]
    o = re.match(r'\[?(\w\d\d)\]', m)
    pid = next((p for r, p in MAP if re.search(r, m)), None)
    print('fixed: property=%s %s %s' % (pid, h, m))
    if pid not in ids: print('no property: ' + l, file=sys.stderr)
