#!/usr/bin/env python3
"""Mutation testing of the checks (not one of them).

mutate.py DIR COUNT SEED [file ...]    random one-line mutants of the listed sources that compile and pass
                                       the repository's tests, in copies of /repo under DIR; each is then given
                                       to the checks that concern its file until one reports a violation.
Appends one JSON line per mutant to DIR/results.jsonl; survivors are for reading."""
import json, os, random, re, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'MinimumNodeService': 'P01 P21 P20 P03 P23 P22 P06 P02 P32 P24 P26', 'MinimumNodeServiceWithDiagnostics': 'P22 P03 P01',
    'CanService': 'P13 P14 P16 P31 P01 P02 P32', 'CanServiceWithDiagnostics': 'P22 P14', 'EventTeachingService': 'P05 P06 P07 P03 P32 P24 P22',
    'EventTeachingServiceWithDiagnostics': 'P22', 'EventConsumerService': 'P08 P12 P10 P22', 'EventConsumerServiceWithDiagnostics': 'P22',
    'EventProducerService': 'P09 P10 P11 P12 P22', 'EventProducerServiceWithDiagnostics': 'P22', 'ConsumeOwnEventsService': 'P12 P08',
    'NodeVariableService': 'P04 P03 P32', 'Configuration': 'P05 P07 P02 P23 P24 P09 P04 P01 P11', 'Controller': 'P16 P12 P08 P01 P02 P23 P26 P22 P21 P05',
    'Parameters': 'P21', 'Service': 'P22 P21', 'LongMessageService': 'P17 P18 P19', 'LED': 'P26', 'LEDUserInterface': 'P25 P26', 'Switch': 'P25', 'SerialUserInterface': 'P25 P26',
    'GridConnect': 'P27 P28', 'SerialGC': 'P28', 'CAN2515': 'P33', 'CircularBuffer': 'P15 P16', 'ArrayHolder': 'P21 P01', 'FlashStorage': 'P29', 'DueEepromEmulationStorage': 'P29',
    'EepromExternalStorage': 'P29', 'EepromInternalStorage': 'P29',
}
OPS = [(r'==', ['!=', '>=', '<=']), (r'!=', ['==']), (r'<=', ['<', '==']), (r'>=', ['>', '==']), (r'(?<![<\-=>])>(?![>=])', ['>=', '<']), (r'(?<![<=])<(?![<=])', ['<=', '>']),
       (r'&&', ['||']), (r'\|\|', ['&&']), (r'(?<!\+)\+(?![+=])', ['-']), (r'(?<!-)-(?![->=])', ['+']), (r'\+\+', ['--', '']), (r'\+=', ['-=', '=']), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'(?<!&)&(?!&)', ['|']), (r'(?<!\|)\|(?![|=])', ['&', '^']), (r'>>', ['<<']), (r'<<', ['>>']), (r'\bbreak;', [';']), (r'\breturn;', [';']), (r'!(?=[\w(])', [''])]


def mutants(path):
    out = []
    comment = False
    for n, l in enumerate(open(path, errors='replace')):
        c = l.split('//')[0].rstrip()
        if '/*' in c:
            comment = True
        if comment:
            comment = '*/' not in c
            continue
        if not c.strip() or c.lstrip().startswith(('#', '{', '}', 'using', 'namespace', 'template')) or 'DEBUG' in c or 'Serial.print' in c:
            continue
        for pat, reps in OPS:
            for m in re.finditer(pat, c):
                if c[:m.start()].count('"') % 2 or '<' in m.group() and 'include' in c:
                    continue
                for r in reps:
                    out.append((n, c[:m.start()] + r + c[m.end():]))
        for m in re.finditer(r'(?<![\w.])(\d+|0x[0-9A-Fa-f]+)\b', c):
            if c[:m.start()].count('"') % 2:
                continue
            v = int(m.group(), 0)
            for w in {v + 1, v - 1, 0} - {v}:
                if w >= 0:
                    out.append((n, c[:m.start()] + str(w) + c[m.end():]))
        if re.match(r'\s+[\w.\->\[\]()]+.*;$', c) and not re.match(r'\s*(return|break|case|const|static|byte|int|bool|unsigned|uint\w*|char|virtual|class|struct|enum|auto|VlcbMessage|CANFrame)\b', c):
            out.append((n, re.sub(r'\S.*', ';', c)))
        m = re.search(r'\bif \((.*)\)', c)
        if m:
            out.append((n, c[:m.start(1)] + 'true || (' + m.group(1) + ')' + c[m.end(1):]))
            out.append((n, c[:m.start(1)] + 'false && (' + m.group(1) + ')' + c[m.end(1):]))
        # bytes and names swapped for neighbours
        for a, b in [('highByte', 'lowByte'), ('lowByte', 'highByte'), ('data[1]', 'data[2]'), ('data[2]', 'data[1]'), ('data[3]', 'data[4]'), ('data[4]', 'data[3]')]:
            for m in re.finditer(re.escape(a), c):
                out.append((n, c[:m.start()] + b + c[m.end():]))
    return out


def inrepo(copy, cmd, env=None, timeout=900):
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && exec %s' % (copy, cmd)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)


BASE = json.load(open('/opt/vp/BASELINE.json'))


def stable():
    d = BASE
    for k in ('stable', 'passed', 'tests', 'pass'):
        if k in d:
            x = d[k]
            return set(x if isinstance(x, list) else x.keys())
    raise SystemExit('BASELINE.json: %s' % list(d)[:5])


def tests_pass(copy, d):
    b = inrepo(copy, 'bash /opt/vp/build.sh')
    if b.returncode:
        return False, 'build'
    o = os.path.join(d, 'out.json')
    inrepo(copy, 'bash /opt/vp/test.sh ' + o)
    r = json.load(open(o))
    got = r.get('passed') or r.get('pass') or [k for k, v in r.get('tests', {}).items() if v in ('pass', 'passed', True)]
    return stable() <= set(got), 'test'


def main():
    d, count, sd = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or sorted(f for f in os.listdir('/repo/src') if f.split('.')[0] in CHECKS)
    os.makedirs(d + '/cache', exist_ok=True)
    copy = d + '/repo'
    if not os.path.exists(copy):
        subprocess.check_call(['cp', '-a', '/repo', copy])
    env = dict(os.environ, VERIF_REPO=copy, VERIF_TLC_CACHE=d + '/cache', VERIF_EVIDENCE=d + '/evidence')
    r = random.Random(sd)
    pool = [(f, m) for f in files for m in mutants('/repo/src/' + f)]
    byfile = {}
    for f, m in pool:
        byfile.setdefault(f, []).append(m)
    done = 0
    while done < count:
        f = r.choice(files)
        if not byfile.get(f):
            continue
        n, new = byfile[f].pop(r.randrange(len(byfile[f])))
        src = open('/repo/src/' + f, errors='replace').read().split('\n')
        old = src[n]
        src[n] = new
        open(copy + '/src/' + f, 'w').write('\n'.join(src))
        try:
            ok, why = tests_pass(copy, d)
            if not ok:
                continue
            done += 1
            caught, quiet = None, []
            for p in CHECKS[f.split('.')[0]].split():
                try:
                    x = subprocess.run(['python3', V + '/check.py', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=900)
                    t = x.stdout.decode(errors='replace')
                    if 'VIOLATION property=' + p in t:
                        caught = p
                        break
                    quiet.append(p if x.returncode == 0 else p + '!%d' % x.returncode)
                except subprocess.TimeoutExpired:
                    quiet.append(p + '!timeout')
            rec = dict(file=f, line=n + 1, old=old.strip(), new=new.strip(), caught=caught, quiet=quiet)
            with open(d + '/results.jsonl', 'a') as o:
                o.write(json.dumps(rec) + '\n')
            print(json.dumps(rec), flush=True)
        finally:
            subprocess.check_call(['cp', '/repo/src/' + f, copy + '/src/' + f])



if __name__ == '__main__':
    main()
