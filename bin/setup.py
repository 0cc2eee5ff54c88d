#!/usr/bin/env python3
"""Sanity of the framework: tools present, /repo builds, every specification parses."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib
try:
    vlib.build()
except vlib.Machinery as ex:
    print(ex)          # a broken build is for the checks to report
with vlib.Scratch() as w:
    bad = 0
    for f in sorted(os.listdir(vlib.SPEC)):
        if f.endswith('.tla'):
            r = subprocess.run(['java', '-cp', vlib.JAR + ':/opt/veriftools/tla/CommunityModules-deps.jar',
                                '-DTLA-Library=' + vlib.SPEC, '-Djava.io.tmpdir=' + w, 'tla2sany.SANY',
                                os.path.join(vlib.SPEC, f)], cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                bad += 1
                print(f, r.stdout.decode(errors='replace')[-1500:])
sys.exit(1 if bad else 0)
