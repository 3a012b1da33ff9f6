"""Compile the real sources together with a contract file to LLVM IR / natively. Everything is rebuilt from /repo on every run."""
import os, subprocess, hashlib, sys
REPO = os.environ.get('PLV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = REPO + '/framework/core'
DEFS = ['-DPLAIN_BUILD_AS_DLL', '-DPLAIN_CREATE_SHARED_LIBRARY=1', f'-I{CORE}/include', f'-I{CORE}', f'-I{CORE}/src', '-w', '-std=gnu++23', '-fPIC',
        '-DPLAIN_HAS_PTHREAD=1', '-fexceptions', '-DPLAIN_CORE', f'-DPLV_SRC(x)=<{CORE}/src/x>', f'-I{VERIF}/contracts']
IRFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-gline-tables-only', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-access-control', '-DPLV_IR=1', '-S', '-emit-llvm']

class BuildError(Exception): pass

def run(cmd, timeout=300, **kw):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)
    if p.returncode != 0: raise BuildError(' '.join(cmd) + '\n' + p.stderr[-4000:])
    return p

def ir(workdir, contract, sources, extra=()):
    """contract: path of the contract file; sources: repo .cc files (relative to core/src) linked in. -> path of linked .ll"""
    os.makedirs(workdir, exist_ok=True)
    outs = []
    procs = []
    for i, s in enumerate([contract] + [f'{CORE}/src/{x}' for x in sources]):
        o = f'{workdir}/{i}.ll'
        procs.append((subprocess.Popen(['clang++-18'] + DEFS + IRFLAGS + list(extra) + [s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), s))
        outs.append(o)
    for p, s in procs:
        so, se = p.communicate(timeout=300)
        if p.returncode != 0: raise BuildError(f'clang++ -emit-llvm {s}\n' + se[-4000:])
    linked = f'{workdir}/linked.ll'
    if len(outs) > 1: run(['llvm-link-18', '-S'] + outs + ['-o', linked])
    else: linked = outs[0]
    final = f'{workdir}/final.ll'
    run(['opt-18', '-S', '-passes=function(sroa,simplifycfg,instsimplify)', linked, '-o', final])
    return final

def native(workdir, contract, sources, san=True, extra=(), cxx='g++'):
    os.makedirs(workdir, exist_ok=True)
    exe = f'{workdir}/native' + ('.san' if san else '')
    fl = ['-O1', '-g', '-fno-access-control', '-DPLV_NATIVE=1', '-D_GLIBCXX_ASSERTIONS'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=alignment,vptr'] if san else [])
    procs = []; objs = []
    for i, s in enumerate([contract, f'{VERIF}/contracts/plv_rt.cc'] + [f'{CORE}/src/{x}' for x in sources]):
        o = f'{workdir}/n{i}.o'
        procs.append((subprocess.Popen([cxx] + DEFS + fl + list(extra) + ['-c', s, '-o', o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True), s))
        objs.append(o)
    for p, s in procs:
        so, se = p.communicate(timeout=600)
        if p.returncode != 0: raise BuildError(f'{cxx} {s}\n' + se[-4000:])
    run([cxx] + fl + ['-rdynamic'] + objs + ['-o', exe, '-lpthread', '-ldl'])
    return exe
