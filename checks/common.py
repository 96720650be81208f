import os


def histories(c, exe, module, what, n, ops=80, extra=(), name='h', timeout=400, workers=8, knownfn=None, cfg=None,
              seed=None, thorough=8, max_report=3, env=None):
    """Random histories driven against the real code, every one checked to be a behaviour of the module."""
    rej = 0
    for rnd in range(1 if c.quick or seed is not None else thorough):
        cmds, files = [], []
        for i in range(workers):
            f = os.path.join(c.work, '%s%d_%d.ndjson' % (name, rnd, i))
            s = (seed if seed is not None else c.seed * 1000) + rnd * 100000 + i
            cmd = [exe, 'seed=%d' % s, 'n=%d' % n, 'ops=%d' % ops, 'out=' + f] + list(extra)
            cmds.append(cmd)
            files.append((f, cmd))
        c.drive(cmds, timeout=timeout, what=what)
        rej += c.check_traces(module, cfg or module + '.cfg', files, what, knownfn=knownfn, max_report=max_report)
        for f, _ in files:
            if os.path.exists(f):
                os.unlink(f)
        if len(c.violations) >= 3:
            break
    return rej


MFI = '_ZN5tkrzw8PolyFile16MakeFileInstanceEPSt3mapINSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEES7_St4lessIS7_ESaISt4pairIKS7_S7_EEE'
WRAP = ['-Wl,--wrap=' + s for s in (MFI, 'rename', 'unlink', 'fsync', 'fdatasync', 'msync', 'sync_file_range')]
IOWRAP = ['-Wl,--wrap=' + s for s in ('pwrite', 'pwrite64', 'pread', 'pread64', 'ftruncate', 'ftruncate64')]
