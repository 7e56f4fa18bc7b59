#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from the specifications in tools/planted/*.py.

Each specification module defines BUGS, a list of dicts:
  id, property, needs, breaks, edits=[(file, old, new)], demo (C++ source),
  flags (extra compiler flags, optional), boost (optional bool)
"""
import importlib.util, json, os, subprocess, shutil, sys, difflib, glob

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BASE = 'bbfd8ef'

DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is as expected; anything else: it is not
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d) || exit 2
trap 'rm -rf "$dir"' EXIT
g++ -std=gnu++20 -O1 -g %(flags)s -I"$PWD/include" "$here/demo.cpp" -o "$dir/demo" -pthread %(libs)s || exit 3
cd "$dir" && timeout 100 ./demo
'''

def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)

def main(only):
    for spec in sorted(glob.glob(ROOT + '/tools/planted/*.py')):
        s = importlib.util.spec_from_file_location('spec', spec)
        m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        for b in m.BUGS:
            if only and b['id'] not in only: continue
            d = f"{ROOT}/seeded/{b['id']}"
            os.makedirs(d, exist_ok=True)
            patch = ''
            files = {}
            for f, old, new in b['edits']:
                src = files.get(f) or open(f'{REPO}/{f}', newline='').read()
                if '\r\n' in src:
                    old = old.replace('\n', '\r\n'); new = new.replace('\n', '\r\n')
                n = src.count(old)
                if n != b.get('count', 1):
                    sys.exit(f"{b['id']}: {f}: {n} matches")
                files[f] = src.replace(old, new)
            for f, dst in files.items():
                src = open(f'{REPO}/{f}', newline='').read()
                base = sh('git', '-C', REPO, 'show', f'{BASE}:{f}').stdout
                base_lines = set(base.replace('\r\n', '\n').split('\n'))
                a = src.split('\n'); c = dst.split('\n')
                removed = [l.rstrip('\r') for l in difflib.ndiff(a, c) if l.startswith('- ')]
                orig = [l for l in removed if l[2:] in base_lines]
                if not orig:
                    print(f"WARNING {b['id']}: {f}: no original line changed: {removed}")
                diff = list(difflib.unified_diff(src.splitlines(True), dst.splitlines(True),
                                                 'a/' + f, 'b/' + f))
                patch += f'diff --git a/{f} b/{f}\n' + ''.join(diff)
            open(d + '/patch.diff', 'w', newline='').write(patch)
            flags = '-DASIOEXT_USE_BOOST_ASIO=1' if b.get('boost') else '-DASIOEXT_STANDALONE=1'
            flags += ' ' + b.get('flags', '')
            open(d + '/demo.sh', 'w').write(DEMO_SH % dict(flags=flags.strip(), libs=b.get('libs', '')))
            os.chmod(d + '/demo.sh', 0o755)
            for x in b.get('copy', []):
                shutil.copy(ROOT + '/' + x, d + '/' + os.path.basename(x))
            open(d + '/demo.cpp', 'w').write(PRELUDE + b['demo'].lstrip('\n'))
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                      open(d + '/meta.json', 'w'), indent=1)
            open(d + '/meta.json', 'a').write('\n')
            r = sh('git', '-C', REPO, 'apply', '--check', d + '/patch.diff')
            print(b['id'], 'ok' if r.returncode == 0 else 'PATCH FAILS ' + r.stderr)

PRELUDE = '''#include <cstdio>
#include <cstdlib>
#define CHECK(x) do { if (!(x)) { \\
  std::fprintf(stderr, "demo: line %d: %s\\n", __LINE__, #x); std::exit(1); } } while (0)

'''

if __name__ == '__main__':
    main(set(sys.argv[1:]))
