"""Mechanical extraction: compile the contract file together with the current /repo sources to
LLVM IR and dump it for the generator.  Nothing of the sources is dropped or rewritten; the
passes run (sroa, simplifycfg) only put locals in SSA form and clean up the control flow."""
import os, subprocess, hashlib, sys, tempfile, re, json
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VC_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')

class BuildError(Exception):
    pass

def run(cmd, timeout=300, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
    return p

def irdump():
    src = os.path.join(HERE, 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12]
    out = os.path.join(BUILD, 'irdump-' + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        fl = subprocess.check_output(['/usr/lib/llvm-18/bin/llvm-config', '--cxxflags'], text=True).split()
        tmp = out + '.%d' % os.getpid()
        p = run(['g++', '-O1', '-fno-rtti'] + fl + [src, '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
        if p.returncode:
            raise RuntimeError(p.stderr)
        os.replace(tmp, out)
    return out

FLAGS = ['-std=gnu++14', '--gcc-install-dir=/usr/lib/gcc/x86_64-linux-gnu/10', '-fno-access-control', '-w', '-DVC_PROOF']

def inc():
    return ['-I' + os.path.join(VERIF, 'vc'), '-I' + REPO, '-I' + os.path.join(REPO, 'src'),
            '-I' + os.path.join(REPO, 'src/mg/core'), '-I' + os.path.join(VERIF, 'stubs')]

# The only textual rewrites, applied on every run to a copy the compiler is pointed at: clang does not
# find the conversion operator of a template under the qualified name g++ accepts (X<T>::operator char*()); this->operator char*() is the same call.
REWRITES = [('src/mg/alxstring.h', r'CstringT<T>::operator (TCHAR|char)\s*\*\s*\(\)', r'this->operator \1*()')]

def overlay(outdir):
    roots = []
    for rel, rx, to in REWRITES:
        src = os.path.join(REPO, rel)
        if not os.path.exists(src):
            continue
        text = open(src, encoding='latin1', newline='').read()
        new = re.sub(rx, to, text)
        if new != text:
            dst = os.path.join(outdir, os.path.basename(rel))
            with open(dst + '.%d' % os.getpid(), 'w', encoding='latin1', newline='') as f:
                f.write(new)
            os.replace(dst + '.%d' % os.getpid(), dst)
            roots.append({'type': 'file', 'name': src, 'external-contents': dst})
    y = os.path.join(outdir, 'overlay.json')
    with open(y, 'w') as f:
        json.dump({'version': 0, 'use-external-names': False, 'roots': roots}, f)
    return ['-ivfsoverlay', y] if roots else []

def extract(cpp, outdir, extra=(), passes='sroa,simplifycfg'):
    """C++ contract file -> JSON IR; returns (json path, harness names)"""
    os.makedirs(outdir, exist_ok=True)
    b = os.path.join(outdir, os.path.basename(cpp))
    ll, opt, js = b + '.ll', b + '.opt.bc', b + '.json'
    cmd = ['clang++'] + FLAGS + ['-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-S', '-emit-llvm'] + inc() + overlay(outdir) + list(extra) + [cpp, '-o', ll]
    p = run(cmd)
    if p.returncode:
        raise BuildError(p.stderr[-4000:])
    p = run(['opt-18' if os.path.exists('/usr/bin/opt-18') else '/usr/lib/llvm-18/bin/opt', '-passes=' + passes, ll, '-o', opt])
    if p.returncode:
        raise BuildError(p.stderr[-4000:])
    names = []
    for line in open(ll):
        if line.startswith('define ') and ('@h_' in line or '@vcc_' in line):
            names.append(line.split('@')[1].split('(')[0])
    with open(js, 'w') as f:
        p = subprocess.run([irdump(), opt] + names, stdout=f, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        raise BuildError(p.stderr[-4000:])
    return js, [n for n in names if n.startswith('h_')]
