"""append 'fixed:' lines: python3 tools/addfixed.py C09=210c9dd C10=28ffe69 ..."""
import subprocess
import sys
path = '/verif/KNOWN_FINDINGS.txt'
for a in sys.argv[1:]:
    pid, c = a.split('=')
    h, subj = subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h|%s', c], text=True).strip().split('|', 1)
    line = f'fixed: property={pid} {h} {subj.replace("fix: ", "before the repair this did not hold: ")}\n'
    have = open(path).read()
    if line not in have:
        open(path, 'a').write(line)
