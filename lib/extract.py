"""Drives the nsx extractor over /repo's current tree and loads its output."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('NSX_REPO', '/repo')
sys.path.insert(0, HERE)
import thriftgen

CLANG_RES = '/usr/lib/llvm-18/lib/clang/18'


class Broken(Exception):
    """The analysis cannot give a verdict (missing anchor, parse failure...)."""


def build_tool():
    r = subprocess.run(['bash', os.path.join(VERIF, 'tool/build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise Broken('extractor build failed:\n' + r.stdout[-2000:])
    h = hashlib.sha256(open(os.path.join(VERIF, 'tool/nsx.cpp'), 'rb').read()).hexdigest()[:16]
    return os.path.join(VERIF, 'build/nsx-' + h)


def prepare(work):
    """Generated declaration-only headers for the dependencies that are absent here."""
    inc = os.path.join(work, 'inc')
    os.makedirs(inc, exist_ok=True)
    thriftgen.generate(os.path.join(REPO, 'src/common/interface'), inc)
    pat = re.compile(r'#\s*include\s*[<"]((?:folly|thrift|proxygen|wangle|fizz)/[^>"]+)[>"]')
    seen = set()
    for root, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if f.endswith(('.h', '.cpp', '.inl')):
                for m in pat.finditer(open(os.path.join(root, f), errors='replace').read()):
                    seen.add(m.group(1))
    for p in seen:
        d = os.path.join(inc, p)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        top = p.split('/')[0]
        stub = {'folly': 'folly_stub.h', 'thrift': 'thrift_stub.h'}.get(top, 'proxygen_stub.h')
        if not os.path.exists(d):
            with open(d, 'w') as f:
                f.write('#pragma once\n#include "%s"\n' % stub)
    return inc


def flags(inc):
    return ['-std=c++17', '-I' + REPO + '/src', '-I' + inc, '-I' + os.path.join(VERIF, 'stubs'),
            '-DNEBULA_HOME=' + REPO, '-include', 'folly_stub.h', '-resource-dir', CLANG_RES, '-w', '-ferror-limit=30', '-Wno-everything']


def all_tus():
    r = []
    for root, ds, fs in os.walk(os.path.join(REPO, 'src')):
        if os.path.basename(root) in ('test', 'tests', 'bench', 'benchmark'):
            ds[:] = []
            continue
        for f in fs:
            if f.endswith('.cpp'):
                r.append(os.path.join(root, f))
    return sorted(r)


def extract(files, work, jobs=8, extra_prefix=(), cflags=()):
    tool = build_tool()
    inc = prepare(work)
    prefix = ','.join([REPO + '/src'] + list(extra_prefix))
    fl = flags(inc) + list(cflags)
    jobs = max(1, min(jobs, len(files)))
    groups = [files[i::jobs] for i in range(jobs)]

    def run(i):
        out = os.path.join(work, 'x%d.jsonl' % i)
        r = subprocess.run([tool, out, prefix] + groups[i] + ['--'] + fl, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return out, r.returncode, r.stdout
    with ThreadPoolExecutor(jobs) as ex:
        rs = list(ex.map(run, range(jobs)))
    bad = [o for _, c, o in rs if c]
    return [o for o, _, _ in rs], bad


if __name__ == '__main__':
    work = sys.argv[1]
    os.makedirs(work, exist_ok=True)
    fs = sys.argv[2:] or all_tus()
    outs, bad = extract(fs, work)
    for b in bad:
        print('\n'.join(l for l in b.splitlines() if 'error' in l or 'note: in inst' in l))
