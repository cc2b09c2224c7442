#!/usr/bin/env python3
"""addfixed.py PROP TEXT [COMMIT]: record a fixed defect in known_findings.json (commit defaults to /repo's HEAD)"""
import json
import os
import subprocess
import sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'known_findings.json')
d = json.load(open(p))
c = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h'], text=True).strip()
d['fixed'].append('fixed: property=%s %s %s' % (sys.argv[1], c, sys.argv[2]))
open(p, 'w').write(json.dumps(d, indent=1) + '\n')
