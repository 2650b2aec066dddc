"""Building the harnesses from /repo, running them, and asking TLC."""
import concurrent.futures as cf
import hashlib, json, os, pickle, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
H = os.path.join(VERIF, 'harness')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = 8

NODE = ['Controller', 'CanService', 'CanServiceWithDiagnostics', 'MinimumNodeService', 'MinimumNodeServiceWithDiagnostics', 'NodeVariableService',
        'EventConsumerService', 'EventConsumerServiceWithDiagnostics', 'EventProducerService', 'EventProducerServiceWithDiagnostics',
        'EventTeachingService', 'EventTeachingServiceWithDiagnostics', 'ConsumeOwnEventsService', 'LongMessageService', 'Parameters', 'Service']


UNEVALUABLE = ('The error occurred when TLC was evaluating', 'Attempted to', 'TLC threw an unexpected exception', 'evaluating the nested')


class ToolError(Exception):
    pass


class Work:
    """scratch directory of one check run"""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='verif.')

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)


KNOWN = set(NODE) | {'Configuration', 'CAN2515', 'CreateDefaultStorageForPlatform', 'DueEepromEmulationStorage', 'EepromExternalStorage', 'EepromInternalStorage',
                     'FlashStorage', 'GridConnect', 'LED', 'LEDUserInterface', 'SerialGC', 'SerialUserInterface', 'Switch'}


def build(work, name, sources, harness, defs=(), esp_conf=True, asan=True):
    """sources: base names in /repo/src; harness: files in /verif/harness.  Either may be (file, object name, flags that come first)"""
    out = work.path('build-' + name)
    os.makedirs(out, exist_ok=True)
    # source files that a change may have added
    new = sorted({f[:-4] for f in os.listdir(REPO + '/src') if f.endswith('.cpp')} - KNOWN)

    def attempt(long32):
        fl = ['-std=gnu++17', '-O1', '-g', '-w', '-include', H + '/prelude.h']
        inc = ['-I' + REPO + '/src', '-I' + H, '-I' + REPO + '/Arduino']
        fl += list(defs)
        if asan:
            fl += ['-fsanitize=address', '-fno-omit-frame-pointer', '-ftrivial-auto-var-init=pattern']
        if long32:
            fl.append('-DVERIF_LONG32')
        jobs = []
        for where, items in ((REPO + '/src/', sources), (H + '/', harness)):
            for s in items:
                f, o, x = (s, s, []) if isinstance(s, str) else s
                if s == 'Configuration' and esp_conf:
                    x = ['-DESP32', '-include', H + '/esp_shim.h']
                if not f.endswith('.cpp'):
                    f += '.cpp'
                jobs.append(['g++'] + fl + list(x) + inc + ['-c', where + f, '-o', out + '/' + ('h_' if items is harness else '') + os.path.splitext(o)[0] + '.o'])
        extra = [['g++'] + fl + inc + ['-c', REPO + '/src/' + s + '.cpp', '-o', out + '/new_' + s + '.o'] for s in new]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(lambda c: sh(c), jobs + extra))
        err = b''.join(r.stderr for r in rs[:len(jobs)] if r.returncode)
        if err:
            return err
        objs = [j[-1] for j in jobs]
        more = [j[-1] for j, r in zip(extra, rs[len(jobs):]) if r.returncode == 0]
        if more:
            sh(['ar', 'rcs', out + '/new.a'] + more)
            objs.append(out + '/new.a')
        link = ['g++'] + (['-fsanitize=address'] if asan else [])
        r = sh(link + objs + ['-o', out + '/' + name])
        if r.returncode and b'undefined reference' in r.stderr:
            # the code may have come to use sources it did not use before
            have = {s if isinstance(s, str) else s[0] for s in sources}
            rest = [['g++'] + fl + (['-DESP32', '-include', H + '/esp_shim.h'] if s == 'Configuration' else []) + inc + ['-c', REPO + '/src/' + s + '.cpp', '-o', out + '/rest_' + s + '.o']
                    for s in sorted(KNOWN - have)]
            with cf.ThreadPoolExecutor(JOBS) as ex:
                ok = [j[-1] for j, x in zip(rest, ex.map(sh, rest)) if x.returncode == 0]
            sh(['ar', 'rcs', out + '/rest.a'] + ok)
            r2 = sh(link + objs + [out + '/rest.a', '-o', out + '/' + name])
            if r2.returncode == 0:
                return None
        return r.stderr if r.returncode else None

    err = attempt(True)
    if err:
        err2 = attempt(False)
        if err2:
            raise ToolError('build of %s failed:\n%s' % (name, err.decode(errors='replace')[-3000:]))
    return out + '/' + name


def build_node(work):
    return build(work, 'node', NODE + ['Configuration'], ['node.cpp', 'arduino_env.cpp'])


ENV = dict(os.environ, ASAN_OPTIONS='max_malloc_fill_size=100000:malloc_fill_byte=165:detect_leaks=0:abort_on_error=0:detect_odr_violation=0')


def run_harness(exe, scripts, outdir, tag, jobs=JOBS, timeout=600):
    """scripts: list of traces (lists of lines).  Returns the chunk files written."""
    os.makedirs(outdir, exist_ok=True)
    n = max(1, min(jobs, len(scripts)))
    # deal by weight so that the chunks are about equally long
    chunks = [[] for _ in range(n)]
    w = [0] * n
    for s in sorted(scripts, key=lambda s: -len(s)):
        i = w.index(min(w))
        chunks[i].append(s)
        w[i] += len(s) + 3

    def go(i):
        text = '\n'.join('\n'.join(s) for s in chunks[i]) + '\n'
        f = os.path.join(outdir, '%s%d.ndjson' % (tag, i))
        with open(f, 'wb') as o:
            r = subprocess.run([exe], input=text.encode(), stdout=o, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
        with open(os.path.join(outdir, '%s%d.err' % (tag, i)), 'wb') as o:
            o.write(r.stderr[-200000:])
        if r.returncode != 0:
            raise ToolError('harness failed: %d %s' % (r.returncode, r.stderr.decode(errors='replace')[-2000:]))
        return f
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(go, range(n)))


def tlc(work, module, cfg, env=None, workers=1, heap='2g', timeout=800, extra=(), need=None):
    """Run TLC. Returns (stdout text, states generated, distinct states)."""
    meta = tempfile.mkdtemp(dir=work.dir)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + meta, '-cp', CP, 'tlc2.TLC', '-metadir', meta + '/m',
           '-workers', str(workers), '-noGenerateSpecTE', '-config', cfg] + list(extra) + [module]
    e = dict(os.environ)
    e.update(env or {})
    memo = None
    if os.environ.get('VERIF_TLC_CACHE') and 'TRACE' not in (env or {}):
        # (tools/mutate.py only: what TLC says about a model does not depend on the code)
        h = hashlib.sha256(repr((module, open(cfg).read(), sorted((env or {}).items()), extra)).encode())
        for f in sorted(os.listdir(SPEC)):
            h.update(open(os.path.join(SPEC, f), 'rb').read())
        memo = os.path.join(os.environ['VERIF_TLC_CACHE'], h.hexdigest())
        if os.path.exists(memo):
            return pickle.load(open(memo, 'rb'))
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out: %s %s' % (module, cfg))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    t = r.stdout.decode(errors='replace')
    m = re.findall(r'([\d,]+) states generated[^,]*, ([\d,]+) distinct states found', t)
    g, d = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    if memo:
        with open(memo + '.new', 'wb') as o:
            pickle.dump((t, g, d, r.returncode), o)
        os.rename(memo + '.new', memo)
    return t, g, d, r.returncode


def _unq(line, tag):
    """a line printed by PrintT("TAG " \\o ToJson(..)) -> object"""
    s = line.strip()
    if not s.startswith('"' + tag + ' '):
        return None
    return json.loads(json.loads(s)[len(tag) + 1:])


def validate(work, module, cfg, files, env=None, jobs=JOBS, heap='2g', timeout=800):
    """Validate trace files with a trace specification.  Returns dict(mismatches, truncated, states, lines)."""
    res = dict(mismatches=[], notes=[], states=0, transitions=0, lines=0)
    unjudged = []

    def go(f):
        n = sum(1 for _ in open(f))
        if n == 0:
            return f, n, '', 0, 0, 0
        for k in range(12):
            e = dict(env or {})
            e['TRACE'] = f
            t, g, d, rc = tlc(work, module, cfg, e, 1, heap, timeout)
            # a record that the specification cannot even be evaluated on is not one of its behaviours
            at = re.findall(r'^(?:/\\ )?l = (\d+)$', t, re.M)
            if rc == 0 or not at or not any(x in t for x in UNEVALUABLE):
                break
            lines = open(f, errors='replace').read().splitlines()
            i = int(at[-1])
            if i > len(lines):
                break
            m = dict(t=json.loads(lines[i - 1])['t'], line=i, bad=['unjudged'], want={}, file=f)
            unjudged.append(m)
            f = '%s.%d' % (f, k)
            open(f, 'w').write('\n'.join(l for l in lines if json.loads(l)['t'] != m['t']) + '\n')
        return f, n, t, g, d, rc
    with cf.ThreadPoolExecutor(jobs) as ex:
        for f, n, t, g, d, rc in ex.map(go, files):
            if n == 0:
                continue
            if rc != 0 or 'Model checking completed. No error has been found' not in t:
                keep = [l for l in t.splitlines() if not l.startswith(('Parsing', 'Semantic', 'Linting'))]
                raise ToolError('TLC could not judge %s (%s):\n%s' % (f, module, '\n'.join(keep)[:3000]))
            res['states'] += d
            res['transitions'] += max(0, g - 1)
            res['lines'] += n
            for line in t.splitlines():
                m = _unq(line, 'MISMATCH')
                if m:
                    m['file'] = f
                    res['mismatches'].append(m)
                m = _unq(line, 'NOTE')
                if m:
                    m['file'] = f
                    res['notes'].append(m)
    res['mismatches'] += unjudged
    return res
