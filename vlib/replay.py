"""check.py --replay FILE: run what a VIOLATION line points to once more on the current tree."""
import json
from . import run as R, node, small


def main(path):
    bad = False
    for i, v in enumerate(json.load(open(path))):
        print('# ' + v['what'].split('\n')[0])
        if 'script' not in v:
            print('  (no executable trace)')
            bad = True
            continue
        work = R.Work()
        try:
            if v.get('kind') == 'small':
                u = small.UNITS[v['property']]
                exe, mod, cfg = u.build(work), u.trace, u.cfg
            else:
                mod = 'QueueTrace' if v.get('kind') == 'queue' else 'NodeTrace'
                exe, cfg = R.build_node(work), mod + '.cfg'
            for l in v['script']:
                print('  ' + l.replace('\n', '\n  '))
            f = R.run_harness(exe, [v['script']], work.path('tr'), 'replay')
            m = R.validate(work, mod + '.tla', cfg, f)['mismatches']
            if m:
                bad = True
                print('  did    ' + open(m[0]['file']).read().splitlines()[m[0]['line'] - 1])
                print('  allows ' + json.dumps(m[0].get('want')))
                print('  differs in %s' % m[0]['bad'])
            else:
                print('  now agrees with the specification')
        finally:
            work.close()
    return 1 if bad else 0
