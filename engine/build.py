"""Build a driver crate against /repo's working tree and produce linked, inlined LLVM IR plus a native library."""
import os, subprocess, glob, shutil, re, time, hashlib, fcntl
from .llparse import Module

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TC = 'stable-x86_64-unknown-linux-gnu'
TRIPLE = 'x86_64-unknown-linux-gnu'
HOME = os.environ.get('VERIF_HOME', '/root')
LLBIN = f'{HOME}/.rustup/toolchains/{TC}/lib/rustlib/{TRIPLE}/bin'
BUILD = os.path.join(VERIF, 'build')

def env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO', 'RUST'))}
    e.update(HOME=HOME, RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never',
             RUSTC_WRAPPER='', PATH=f'{HOME}/.cargo/bin:' + os.environ.get('PATH', '/usr/bin:/bin'))
    if extra: e.update(extra)
    return e

CARGO = '''[package]
name = "{name}"
version = "0.1.0"
edition = "2021"
[lib]
path = "lib.rs"
crate-type = ["cdylib"]
[dependencies]
mixed-num = {{ path = "{repo}" }}
fixed = "1.13"
cordic = "0.1"
libm = "0.2"
typenum = "1.15"
num = {{ version = "0.4", default-features = false }}
[profile.dev]
opt-level = 0
debug = 0
panic = "abort"
codegen-units = 1
[profile.release]
panic = "abort"
debug = 0
codegen-units = 4
[workspace]
'''

class BuildError(Exception): pass

class Built: pass

# functions of cut crates that only pass on the result of another cut function: these are encoded, so that calls of one and the other agree
THIN = ('cordic::sin::<', 'cordic::cos::<')


def sh(cmd, cwd=None, e=None, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode: raise BuildError(f"{' '.join(cmd)[:300]}\n{r.stdout[-6000:]}")
    return r.stdout

PIPE = ("internalize,globaldce,always-inline,cgscc(inline,function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sccp,adce,"
        "instcombine<no-verify-fixpoint>,simplifycfg)),globaldce")

def demangle(names):
    if not names: return {}
    r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), text=True, stdout=subprocess.PIPE)
    return dict(zip(names, r.stdout.split('\n')))

def build(name, src, fns, cut=('libm',), release=False, inline_threshold=2000, pipe=PIPE, want_ir=True):
    """name: driver crate name; src: text of lib.rs; fns: exported symbols to keep.
    cut: crates whose functions stay uninterpreted."""
    t0 = time.time()
    d = os.path.join(BUILD, name); os.makedirs(d, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        with open(f'{d}/Cargo.toml', 'w') as f: f.write(CARGO.format(name=name, repo=REPO))
        with open(f'{d}/lib.rs', 'w') as f: f.write(src)
        open(f'{d}/Cargo.lock', 'w').write(open(f'{VERIF}/engine/Cargo.lock').read().replace('drv_x', name))
        tgt = f'{BUILD}/target'
        # force a rebuild of the crate under test and of the driver (cargo goes by modification times)
        for pat in ('mixed-num-*', f'{name}-*'):
            for p in glob.glob(f'{tgt}/{TRIPLE}/*/.fingerprint/{pat}'): shutil.rmtree(p, ignore_errors=True)
        dep = f'{tgt}/{TRIPLE}/debug/deps'
        for pat in ('mixed_num-*.ll', f'{name}*.ll', 'drv*.ll'):
            for p in glob.glob(f'{dep}/{pat}'): os.remove(p)
        B = Built(); B.name = name; B.dir = d
        log = sh(['cargo', 'build', '--offline', '--target', TRIPLE, '--manifest-path', f'{d}/Cargo.toml'],
                 cwd=d, e=env({'CARGO_TARGET_DIR': tgt, 'RUSTFLAGS': '--emit=llvm-ir,link -C no-prepopulate-passes'}))
        so = f'{d}/lib{name}.so'
        shutil.copy(f'{tgt}/{TRIPLE}/debug/lib{name}.so', so); B.so = so
        lls = [p for p in glob.glob(f'{dep}/*.ll')]
        if release:
            sh(['cargo', 'build', '--offline', '--release', '--target', TRIPLE, '--manifest-path', f'{d}/Cargo.toml'],
               cwd=d, e=env({'CARGO_TARGET_DIR': tgt, 'RUSTFLAGS': ''}))
            shutil.copy(f'{tgt}/{TRIPLE}/release/lib{name}.so', f'{d}/lib{name}_rel.so'); B.so_rel = f'{d}/lib{name}_rel.so'
        B.t_cargo = time.time()-t0
        if not want_ir: return B
        # link
        use = []
        for p in lls:
            b = os.path.basename(p)
            if b.startswith('drv') and not b.startswith(name): continue
            use.append(p)
        main = [p for p in use if os.path.basename(p).startswith(name)]
        names = set()
        for p in main + [q for q in use if os.path.basename(q).startswith('mixed_num')]:
            names |= set(re.findall(r'@(_R[A-Za-z0-9_]+)', open(p).read()))
        dm = demangle(sorted(names)); B.dm = dm
        cutset = {n for n, x in dm.items() if any(x.startswith(c + '::') or x.startswith(f'<{c}::') or x == c for c in cut) and not x.startswith(THIN)}
        B.cut = {n: dm[n] for n in cutset}
        ins = []
        for p in use:
            b = os.path.basename(p).split('-')[0].split('.')[0]
            t = open(p).read()
            if any(f'@{n}(' in t for n in cutset): t = strip(t, cutset)
            q = f'{d}/{b}.ll'; open(q, 'w').write(t); ins.append(q)
        sh([f'{LLBIN}/llvm-link', '-S', '-o', f'{d}/all.ll'] + ins)
        open(f'{d}/api', 'w').write('\n'.join(fns) + '\n')
        sh([f'{LLBIN}/opt', '-S', '-o', f'{d}/opt.ll', f'-internalize-public-api-file={d}/api', f'-inline-threshold={inline_threshold}',
            f'-passes={pipe}', f'{d}/all.ll'])
        B.reach = reach(open(f'{d}/all.ll').read(), fns)
        for q in ins: os.remove(q)
        os.remove(f'{d}/all.ll')
        B.ll = f'{d}/opt.ll'
        B.mod = Module(open(B.ll).read())
        miss = [f for f in fns if '@'+f not in B.mod.fns]
        if miss: raise BuildError(f'missing functions {miss[:5]}')
        B.t_total = time.time()-t0
        return B
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN); lock.close()

def strip(t, cut):
    """turn definitions of the named functions into declarations"""
    out = []; skip = False
    for l in t.split('\n'):
        if skip:
            if l == '}': skip = False
            continue
        if l.startswith('define '):
            m = re.search(r'@(_R[A-Za-z0-9_]+)\(', l)
            if m and m.group(1) in cut:
                h = re.sub(r'^define (?:(?:internal|private|hidden|linkonce_odr|weak_odr|weak|dso_local|unnamed_addr|available_externally|fastcc|coldcc)\s+)*', 'declare ', l)
                h = h[:h.rindex(')')+1]
                out.append(h); skip = True; continue
        out.append(l)
    return '\n'.join(out)

def reach(text, fns):
    """demangled names of the library functions reachable from the harness functions before inlining"""
    body = {}; cur = None
    for l in text.split('\n'):
        if l.startswith('define '):
            m = re.search(r'@("?)([^"(]+)\1\(', l); cur = m.group(2) if m else None; body[cur] = set()
        elif cur and '@' in l: body[cur].update(re.findall(r'@([A-Za-z0-9_$.]+)', l))
    seen = set(); st = [f for f in fns if f.startswith('h_')] or list(fns)
    while st:
        x = st.pop()
        if x in seen or x not in body: continue
        seen.add(x); st.extend(body[x])
    dm = demangle(sorted(x for x in seen if x.startswith('_R')))
    keep = lambda x: 'mixed_num::' in x or x.startswith(('fixed::', '<fixed::', 'cordic::', 'num_traits::', '<num_traits', 'libm::'))
    return sorted(x for x in dm.values() if keep(x))
