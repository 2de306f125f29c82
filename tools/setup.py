#!/usr/bin/env python3
"""Nothing has to be built: checks that the tools are there and that every
specification parses."""
import os
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')


def main():
    bad = 0
    spec = os.path.join(V, 'spec')
    with tempfile.TemporaryDirectory() as d:
        mods = sorted(f for f in os.listdir(spec) if f.endswith('.tla'))
        for f in mods:
            os.symlink(os.path.join(spec, f), os.path.join(d, f))
        p = subprocess.run(
            ['java', '-Djava.io.tmpdir=' + d, '-cp', JARS, 'tla2sany.SANY']
            + mods, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            sys.stdout.write(p.stdout.decode('utf8', 'replace')[-4000:])
            bad = 1
    r = subprocess.run(['/opt/venv/bin/python', '-c', 'import Crypto'],
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    return bad or r.returncode


sys.exit(main())
