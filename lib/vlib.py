# Orchestration shared by all checks: builds the library and the drivers from /repo's working tree,
# runs the drivers, runs TLC on specifications and on recorded traces, and writes the evidence file.
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
NCPU = os.cpu_count() or 8
TLA_CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NOTLIB = {'build_util', 'dbm_util', 'ulog_util', 'dbm_perf', 'file_perf', 'str_perf', 'dbm_tran', 'langc_example'}


def libsrc():
    for f in sorted(os.listdir(REPO)):
        m = re.match(r'tkrzw_(\w+)\.cc$', f)
        if m and not m.group(1).endswith('_test') and m.group(1) not in NOTLIB and 'test_common' not in f:
            yield m.group(1)


DEFS = ['-DNDEBUG', '-D_GNU_SOURCE=1', '-D_ISOC99_SOURCE=1', '-D_POSIX_C_SOURCE=999999L',
        '-D_FILE_OFFSET_BITS=64', '-D_REENTRANT', '-D__EXTENSIONS__', '-D_TKRZW_COMP_ZLIB',
        '-D_TKRZW_COMP_ZSTD', '-D_TKRZW_COMP_LZ4', '-D_TKRZW_COMP_LZMA', '-D_TKRZW_PREFIX="/usr/local"',
        '-D_TKRZW_INCLUDEDIR="/usr/local/include"', '-D_TKRZW_LIBDIR="/usr/local/lib"',
        '-D_TKRZW_BINDIR="/usr/local/bin"', '-D_TKRZW_LIBEXECDIR="/usr/local/libexec"',
        '-D_TKRZW_APPINC=""', '-D_TKRZW_APPLIBS=""', '-D_TKRZW_PKG_VERSION="1.0.0"',
        '-D_TKRZW_LIB_VERSION="1.0.0"']
BASEFLAGS = ['-std=c++17', '-pthread', '-fPIC', '-fsigned-char', '-w']
VARIANTS = {
    'plain': ['-O1'],
    'asan': ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize=alignment,vptr,shift-base,float-cast-overflow',
             '-fno-sanitize-recover=undefined'],
    'tsan': ['-O1', '-g1', '-fsanitize=thread'],
    'sched': ['-O1', '-fno-threadsafe-statics', '-fsanitize=thread', '--param', 'tsan-instrument-func-entry-exit=0'],
}
LIBS = ['-llzma', '-llz4', '-lzstd', '-lz', '-lrt', '-latomic', '-lpthread', '-ldl']


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


class Check:
    def __init__(self, prop, tier=None, seed=None):
        self.prop = prop
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
        self.quick = self.tier != 'thorough'
        self.t0 = time.time()
        self.work = os.path.join(VERIF, '.work', prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.objdir = os.path.join(VERIF, '.work', 'obj')
        os.makedirs(self.objdir, exist_ok=True)
        self.states = 0
        self.transitions = 0
        self.ntraces = 0
        self.events = 0
        self.samples = []
        self.parts = []
        self.violations = []
        self.known_hits = {}
        self.known = self.load_known()
        self.replay_dir = os.path.join(VERIF, 'replays')
        os.makedirs(self.replay_dir, exist_ok=True)
        for f in os.listdir(self.replay_dir):
            if f.startswith(prop + '-'):
                os.unlink(os.path.join(self.replay_dir, f))
        self.bins = {}

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def log(self, *a):
        print('[%s %6.1fs]' % (self.prop, time.time() - self.t0), *a, flush=True)

    # ------------------------------------------------------------ known findings
    def load_known(self):
        p = os.path.join(VERIF, 'known', 'findings.json')
        if not os.path.exists(p):
            return []
        with open(p) as f:
            return [k for k in json.load(f) if k.get('property') == self.prop and k.get('status') == 'known']

    def known_hit(self, kid, what=''):
        for k in self.known:
            if k['id'] == kid:
                self.known_hits.setdefault(kid, k['what'])
                return True
        return False

    # ------------------------------------------------------------ building
    def build(self, drivers, variant='plain', cxx='g++', extra=(), link=(), patch=None):
        """Compiles the library and the named drivers (harness/<name>.cc); returns {name: path}."""
        t = time.time()
        flags = DEFS + BASEFLAGS + VARIANTS[variant] + list(extra)
        hdr = b''.join(read(os.path.join(REPO, f)) for f in sorted(os.listdir(REPO)) if f.endswith('.h'))
        hh = b''.join(read(os.path.join(VERIF, 'harness', f)) for f in sorted(os.listdir(os.path.join(VERIF, 'harness')))
                      if f.endswith('.h'))
        stub = None
        if variant == 'sched':
            # A precompiled header replaces the threading part of the standard library.
            vh = read(os.path.join(VERIF, 'harness', 'vsched.h'))
            d = os.path.join(self.objdir, 'pch-' + sha(cxx, ' '.join(flags), vh, read(os.path.join(VERIF, 'harness', 'vstub.cc'))))
            inc = os.path.join(d, 'vsched.h')
            stub = os.path.join(d, 'vstub.o')
            os.makedirs(d, exist_ok=True)
            if not os.path.exists(stub):
                with open(inc, 'wb') as f:
                    f.write(vh)
                for cmd in ([cxx] + flags + ['-x', 'c++-header', inc, '-o', inc + '.gch'],
                            [cxx] + BASEFLAGS + ['-O1', '-I', d, '-c', os.path.join(VERIF, 'harness', 'vstub.cc'), '-o', stub]):
                    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                    if p.returncode != 0:
                        raise CheckError('build failed: ' + p.stdout.decode('utf8', 'replace')[-3000:])
            flags = flags + ['-include', inc]
        jobs, libobjs, out = [], [], {}
        for name in libsrc():
            src = os.path.join(REPO, 'tkrzw_%s.cc' % name)
            obj = os.path.join(self.objdir, sha(cxx, ' '.join(flags), hdr, read(src)) + '.o')
            libobjs.append(obj)
            if not os.path.exists(obj):
                jobs.append((src, obj))
        drvobjs = {}
        for d in drivers:
            src = os.path.join(VERIF, 'harness', d + '.cc')
            inc = b''.join(read(os.path.join(VERIF, 'harness', x.decode())) for x in re.findall(rb'#include "(\w+\.cc)"', read(src)))
            obj = os.path.join(self.objdir, sha(cxx, ' '.join(flags), hdr, hh, read(src), inc) + '.o')
            drvobjs[d] = obj
            if not os.path.exists(obj):
                jobs.insert(0, (src, obj))

        def comp(j):
            src, obj = j
            tmp = obj + '.%d.tmp' % os.getpid()
            p = subprocess.run([cxx] + flags + ['-I', REPO, '-I', os.path.join(VERIF, 'harness'), '-c', src, '-o', tmp],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                return '%s: %s' % (src, p.stdout.decode('utf8', 'replace')[-3000:])
            os.rename(tmp, obj)
            return None
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        with ThreadPoolExecutor(NCPU) as ex:
            for e in ex.map(comp, jobs):
                if e:
                    raise CheckError('build failed: ' + e)

        def lnk(d):
            exe = os.path.join(self.work, d + ('' if variant == 'plain' else '-' + variant))
            p = subprocess.run([cxx] + (VARIANTS[variant] if variant != 'sched' else []) + list(extra) + ['-o', exe, drvobjs[d]] + ([stub] if stub else []) + libobjs + list(link) + LIBS,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                raise CheckError('link failed: ' + p.stdout.decode('utf8', 'replace')[-3000:])
            return d, exe
        with ThreadPoolExecutor(NCPU) as ex:
            for d, exe in ex.map(lnk, drivers):
                out[d] = exe
                self.bins[d] = exe
        self.log('built %s (%s) in %.1fs' % (','.join(drivers), variant, time.time() - t))
        return out

    # ------------------------------------------------------------ running drivers
    def run_one(self, cmd, timeout, env=None, cwd=None):
        e = dict(os.environ)
        e.setdefault('ASAN_OPTIONS', 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1')
        e.setdefault('UBSAN_OPTIONS', 'print_stacktrace=1:abort_on_error=1')
        e.setdefault('TSAN_OPTIONS', 'halt_on_error=1:abort_on_error=1:report_signal_unsafe=0')
        e.update(env or {})
        t = time.time()
        p = subprocess.Popen([str(x) for x in cmd], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd,
                             start_new_session=True)
        try:
            o, er = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            o, er = p.communicate()
            rc = 'timeout'
        return rc, o.decode('utf8', 'replace'), er.decode('utf8', 'replace'), time.time() - t

    def drive(self, cmds, timeout=120, par=None, hang_is_violation=True, env=None, what='driver'):
        """Runs driver commands in parallel. A crash or a hang (twice) of the code under test is a violation."""
        def go(cmd):
            rc, o, er, dt = self.run_one(cmd, timeout, env)
            if rc == 'timeout' or (isinstance(rc, int) and rc < 0):
                rc2, o2, er2, dt2 = self.run_one(cmd, timeout * 2 if rc == 'timeout' else timeout, env)
                if rc == 'timeout' and rc2 != 'timeout' and rc2 == 0:
                    rc, o, er = rc2, o2, er2
                elif rc2 == 0:
                    pass
            return cmd, rc, o, er, dt
        res = []
        with ThreadPoolExecutor(par or NCPU) as ex:
            for cmd, rc, o, er, dt in ex.map(go, cmds):
                if rc == 'timeout':
                    if hang_is_violation:
                        self.violation('%s hung: %s' % (what, ' '.join(map(str, cmd))), {'cmd': list(map(str, cmd)), 'stderr': er[-2000:]})
                elif rc < 0:
                    self.violation('%s crashed with signal %d: %s' % (what, -rc, ' '.join(map(str, cmd))),
                                   {'cmd': list(map(str, cmd)), 'stderr': er[-4000:]})
                elif rc == 3:
                    raise CheckError('driver setup failed: %s: %s' % (' '.join(map(str, cmd)), er[-1000:]))
                elif rc != 0:
                    self.violation('%s failed (%d): %s' % (what, rc, ' '.join(map(str, cmd))),
                                   {'cmd': list(map(str, cmd)), 'stderr': er[-4000:], 'stdout': o[-2000:]})
                res.append((cmd, rc, o, er, dt))
        return res

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, workers=1, mem='2g', timeout=600, args=(), specdir=None, tag=''):
        specdir = specdir or os.path.join(VERIF, 'spec')
        meta = tempfile.mkdtemp(prefix='tlc-', dir=self.work)
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=4', '-Xss64m', '-Xmx' + mem,
               '-cp', TLA_CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
               '-config', cfg] + list(args) + [module + '.tla']
        rc, o, er, dt = self.run_one(cmd, timeout, env, cwd=specdir)
        shutil.rmtree(meta, ignore_errors=True)
        m = None
        for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct states found', o):
            pass
        gen = int(m.group(1).replace(',', '')) if m else 0
        dis = int(m.group(2).replace(',', '')) if m else 0
        return {'rc': rc, 'out': o, 'err': er, 'gen': gen, 'dist': dis, 'dt': dt}

    def model_check(self, module, cfg, workers=None, mem='4g', timeout=800, args=(), expect_min=1, env=None):
        """Exhaustive check of the specification itself. A failure here is an error of the specification."""
        r = self.tlc(module, cfg, workers=workers or NCPU, mem=mem, timeout=timeout, args=args, env=env)
        if r['rc'] != 0 or r['dist'] < expect_min:
            raise CheckError('model checking of %s/%s failed: rc=%s\n%s' % (module, cfg, r['rc'], r['out'][-3000:]))
        self.states += r['dist']
        self.transitions += r['gen']
        self.parts.append({'model': module, 'cfg': cfg, 'states': r['dist'], 'generated': r['gen'], 'wall_s': round(r['dt'], 1)})
        self.log('model %s/%s: %d states, %.1fs' % (module, cfg, r['dist'], r['dt']))
        return r

    @staticmethod
    def parse_stuck(out):
        """Last state of the error trace: returns dict var->text."""
        st = re.split(r'State \d+: ', out)
        if len(st) < 2:
            return {}
        last = st[-1]
        d = {}
        for m in re.finditer(r'/\\ (\w+) = (.*?)(?=\n/\\ |\n\n|\Z)', last, re.S):
            d[m.group(1)] = m.group(2).strip()
        return d

    def check_traces(self, module, cfg, files, what, max_report=3, mem='3g', timeout=800, par=None, ctx=None,
                     confirm=None, knownfn=None, chunk=None):
        """files: list of (trace file, driver cmd). Every trace must be a behaviour of the module.
        A rejected trace is reported as a violation (after `confirm`, when given)."""
        files = [(f, c) for f, c in files if os.path.exists(f) and os.path.getsize(f) > 0]
        todo = []
        for f, c in files:
            with open(f) as fh:
                lines = fh.readlines()
            if lines and not lines[-1].endswith('\n'):   # the driver died in the middle of a line
                lines = lines[:-1]
                with open(f, 'w') as fh:
                    fh.writelines(lines)
            if not lines:
                continue
            todo.append((f, c, lines))

        def go(x):
            f, c, lines = x
            rej = []
            remaining = lines
            base = f
            rnd = 0
            gen = dist = 0
            dt = 0
            while remaining and len(rej) < max_report + 2 and rnd < 30:
                tf = base if rnd == 0 else base + '.r%d' % rnd
                if rnd:
                    with open(tf, 'w') as fh:
                        fh.writelines(remaining)
                r = self.tlc(module, cfg, env={'TRACEFILE': tf}, workers=1, mem=mem, timeout=timeout)
                gen += r['gen']
                dist += r['dist']
                dt += r['dt']
                if r['rc'] == 0:
                    break
                st = self.parse_stuck(r['out'])
                if 't' not in st:
                    return ('error', f, c, r['out'][-3000:] + r['err'][-1000:])
                t = int(re.match(r'\d+', st['t']).group(0))
                l = int(re.match(r'\d+', st.get('l', '0')).group(0)) if 'l' in st else 0
                rej.append((remaining[t - 1], l, st, r['out']))
                remaining = remaining[:t - 1] + remaining[t:]
                rnd += 1
            return ('ok', f, c, lines, rej, gen, dist, dt)
        nrej = 0
        tot = 0
        with ThreadPoolExecutor(par or NCPU) as ex:
            for r in ex.map(go, todo):
                if r[0] == 'error':
                    raise CheckError('TLC failed on %s: %s' % (r[1], r[3]))
                _, f, c, lines, rej, gen, dist, dt = r
                self.states += dist
                self.transitions += gen
                self.ntraces += len(lines) - len(rej)
                tot += len(lines)
                if lines and len(self.samples) < 6:
                    self.samples.append(lines[min(len(lines) - 1, len(self.samples))][:600])
                for line, l, st, out in rej:
                    try:
                        tr = json.loads(line)
                    except Exception:
                        tr = []
                    evs = tr.get('h', tr) if isinstance(tr, dict) else tr
                    bad = evs[l - 1] if 0 < l <= len(evs) else None
                    info = {'what': what, 'spec': module, 'cmd': c, 'event_index': l, 'event': bad,
                            'init': evs[0] if evs else None,
                            'state': {k: v[:3000] for k, v in st.items()}, 'trace': tr,
                            'tlc': out[-1500:]}
                    kid = knownfn(info) if knownfn else None
                    if kid and self.known_hit(kid):
                        continue
                    if confirm and not confirm(info):
                        self.log('rejection not confirmed:', str(bad)[:300])
                        continue
                    nrej += 1
                    if nrej <= max_report:
                        self.violation('%s: event %d %s is not allowed by %s (%s)' %
                                       (what, l, json.dumps(bad)[:400], module, json.dumps(info['init'])[:300]), info)
        self.parts.append({'traces': what, 'spec': module, 'count': tot, 'rejected': nrej})
        self.log('%s: %d traces validated by %s, %d rejected' % (what, tot, module, nrej))
        return nrej

    # ------------------------------------------------------------ reporting
    def violation(self, msg, info=None):
        n = len(self.violations) + 1
        path = os.path.join(self.replay_dir, '%s-%d.json' % (self.prop, n))
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'message': msg, 'seed': self.seed, 'tier': self.tier, 'info': info}, f, indent=1)
        self.violations.append(msg)
        if n <= 10:
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            print('  ' + msg[:1500], flush=True)

    def finish(self):
        for kid, what in self.known_hits.items():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, what))
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.ntraces, 'samples': self.samples or ['none'],
               'parts': self.parts}
        ev = {'property': self.prop, 'tier': 'quick' if self.quick else 'thorough', 'seed': self.seed,
              'level': 'model_checking', 'coverage': cov, 'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        self.log('done: states=%d traces=%d violations=%d' % (self.states, self.ntraces, len(self.violations)))
        shutil.rmtree(self.work, ignore_errors=True)
        return 1 if self.violations else 0
