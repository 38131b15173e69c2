"""Builds the exporter and runs it on harness translation units that include /repo's current sources."""
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OBAKE_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class BuildError(Exception):
    outputs = ()

    def rejected(self):
        """[(location, line of the harness, message)] when the only errors are calls of the public interface, made by the harness
        with operands of its domain, that the compiler rejects; None when anything else is wrong."""
        r = []
        late = []
        for o in self.outputs:
            for m in re.finditer(r'^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$', o, re.M):
                f, n, msg = m.group(1), int(m.group(2)), m.group(3)
                if not f.startswith(os.path.join(VERIF, 'harness')):
                    return None
                if not re.match(r'no matching function for call|call to .*is ambiguous|call to deleted|no viable|cannot initialize|ambiguous|no matching constructor', msg):
                    late.append((f, n))
                    continue
                line = open(f).read().split('\n')[n - 1].strip()
                if 'obake::' not in line or 'detail::' in line or 'internal::' in line:
                    return None
                r.append((f, n, line, msg))
        # Other errors on the lines of rejected calls follow from them.
        if any(x not in {(f, n) for f, n, _, _ in r} for x in late):
            return None
        return r or None


def tool():
    src = os.path.join(VERIF, 'tool', 'obx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(BUILD, 'obx-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    cmd = ['clang++', '-std=c++17', '-O0', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
           '-L/usr/lib/llvm-18/lib', '-l:libclang-cpp.so.18.1', '-l:libLLVM-18.so']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError('cannot build the exporter:\n' + r.stderr[-3000:])
    os.rename(tmp, out)
    return out


def config_dir():
    """obake/config.hpp from /repo's template (as the build system would generate it, all options off)."""
    d = os.path.join(BUILD, 'inc')
    os.makedirs(os.path.join(d, 'obake'), exist_ok=True)
    s = open(os.path.join(REPO, 'config.hpp.in')).read()
    out = []
    for line in s.split('\n'):
        for k, v in (('@obake_VERSION@', '0.9.0'), ('@obake_VERSION_MAJOR@', '0'), ('@obake_VERSION_MINOR@', '9'),
                     ('@obake_VERSION_PATCH@', '0')):
            line = line.replace(k, v)
        if line.startswith('@') and line.endswith('@'):
            continue
        out.append(line)
    p = os.path.join(d, 'obake', 'config.hpp')
    s = '\n'.join(out)
    if not os.path.exists(p) or open(p).read() != s:
        tmp = p + '.%d' % os.getpid()
        open(tmp, 'w').write(s)
        os.rename(tmp, p)
    return d


def flags():
    return ['-std=c++20', '-DNDEBUG', '-DOBAKE_STATIC_BUILD', '-I' + config_dir(), '-I' + os.path.join(VERIF, 'shim'),
            '-I' + os.path.join(REPO, 'include'), '-I' + REPO, '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w', '-ferror-limit=0']


def start_export(tu, extra=()):
    """tu: a harness name or an absolute path of a source file. Returns (process, output)."""
    src = tu if os.path.isabs(tu) else os.path.join(VERIF, 'harness', tu)
    out = os.path.join(BUILD, 'x%d-%s.json' % (os.getpid(), os.path.basename(src)))
    cmd = [tool(), out, REPO + ',' + os.path.join(VERIF, 'harness'), src, '--'] + flags() + list(extra)
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True), out


def export(tus):
    """Export several units in parallel; returns the list of loaded programs."""
    from .ir import Program
    os.makedirs(BUILD, exist_ok=True)
    tool()
    config_dir()
    ps = [start_export(t) for t in tus]
    progs = {}
    err = []
    outs = []
    for t, (p, out) in zip(tus, ps):
        so, _ = p.communicate()
        if p.returncode != 0 or not os.path.exists(out) or os.path.getsize(out) == 0:
            err.append('%s:\n%s' % (t, so[-3000:]))
            outs.append(so)
            continue
        progs[t] = Program().load(out)
        os.unlink(out)
    if err:
        e = BuildError('cannot parse: ' + '\n'.join(err))
        e.outputs = outs
        raise e
    return progs


def in_repo(loc):
    return loc.startswith(os.path.realpath(REPO).rstrip('/') + '/') or loc.startswith(REPO.rstrip('/') + '/')
