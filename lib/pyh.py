"""Driver for the exhaustive harnesses written in python (same protocol as mc.hpp)."""
import fnmatch
import json
import mmap
import os
import sys
import time


class Ctx:
    def __init__(self, argv):
        a = dict(zip(argv[::2], argv[1::2]))
        self.thorough = a.get('--tier') == 'thorough'
        self.part, self.nparts = (int(x) for x in a.get('--part', '0/1').split('/'))
        self.only, self.out = a.get('--only'), a.get('--out')
        self.scratch = a.get('--scratch', '/tmp/z5v_scratch')
        self.count, self.gauge, self.samples, self.violations = {}, {}, [], []
        self.sigs, self.outcomes = set(), set()
        self.index = 0
        self.current = ''
        self.progress = None
        self.bad_since = None
        self.known = [k for k in os.environ.get('Z5V_KNOWN', '').split('\n') if k]
        p = a.get('--progress')
        if p:
            with open(p, 'wb') as f:
                f.write(b'\0' * 8192)
            fd = os.open(p, os.O_RDWR)
            self.progress = mmap.mmap(fd, 8192)
            os.close(fd)
        if self.out:
            self.outf = open(self.out, 'w')     # (privileges may be dropped before it is written)

    def give_up(self):
        # wrong code can make the explored space much larger: the exploration ends some time
        # after the first violation
        if self.bad_since is not None and time.monotonic() - self.bad_since > 20:
            self.add('ended_early')
            self.finish()

    def want(self, case):
        self.give_up()
        i = self.index
        self.index += 1
        if self.only is not None:
            if self.only != case:
                return False
        elif i % self.nparts != self.part:
            return False
        self.current = case
        if self.progress:
            b = case.encode('utf-8', 'replace')[:8000] + b'\0'
            self.progress[:len(b)] = b
        self.add('cases')
        return True

    def add(self, key, n=1):
        self.count[key] = self.count.get(key, 0) + n

    def sample(self, s, most=6):
        if len(self.samples) < most:
            self.samples.append(s)

    def violation(self, sig, msg):
        if self.bad_since is None and not any(fnmatch.fnmatchcase(sig, k) for k in self.known):
            self.bad_since = time.monotonic()
        self.give_up()
        if sig in self.sigs or len(self.sigs) > 400:
            self.add('repeated_violations')
            return
        self.sigs.add(sig)
        self.violations.append(dict(case=self.current, sig=sig, msg=msg))

    def check(self, ok, sig, msg):
        self.add('checks')
        if not ok:
            self.violation(sig, msg() if callable(msg) else msg)
        return ok

    def outcome(self, s):
        if len(self.outcomes) < 5000:
            self.outcomes.add(s)

    def finish(self):
        j = json.dumps(dict(count=self.count, gauge=self.gauge, samples=self.samples, outcomes=len(self.outcomes),
                            violations=self.violations), indent=1)
        if self.out:
            self.outf.write(j)
            self.outf.close()
        else:
            print(j)
        sys.stdout.flush()
        os._exit(0)


def drop_privileges(*dirs):
    """become an unprivileged user whose only files are in the given directories"""
    import pickle, numpy, shutil, encodings.idna, numpy.lib, numpy.random   # noqa: what is imported lazily  # pylint: disable
    if os.getuid() != 0:
        return True
    for d in dirs:
        os.chown(d, 65534, 65534)
    try:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    except OSError:
        return False
    return os.getuid() == 65534


# ------------------------------------------------------------- directory trees

def snapshot(root):
    """{relative path: bytes, None for directories}"""
    res = {}
    stack = ['']
    while stack:
        d = stack.pop()
        with os.scandir(os.path.join(root, d) if d else root) as it:
            for e in it:
                p = d + e.name
                if e.is_dir(follow_symlinks=False):
                    res[p + '/'] = None
                    stack.append(p + '/')
                else:
                    with open(e.path, 'rb') as f:
                        res[p] = f.read()
    return res


def restore(root, want, have=None):
    """bring the directory to the state of the snapshot"""
    import shutil
    if have is None:
        have = snapshot(root)
    for p in sorted(have, reverse=True):
        if p not in want:
            q = os.path.join(root, p)
            if p.endswith('/'):
                os.rmdir(q)
            else:
                os.unlink(q)
    for p in sorted(want):
        q = os.path.join(root, p)
        if p.endswith('/'):
            if p not in have:
                os.mkdir(q)
        elif have.get(p) != want[p]:
            with open(q, 'wb') as f:
                f.write(want[p])
