#!/usr/bin/env python3
"""Mutation campaign: small source changes that compile and pass the existing tests, run against every quick check.
python3 tools/mutants.py WORKER NWORKERS [SECONDS] [REGEX]   (scratch under /tmp/mut; results in /tmp/mut/results.WORKER)"""
import sys, os, re, subprocess, random, time, json, shutil
w, nw = int(sys.argv[1]), int(sys.argv[2])
limit = float(sys.argv[3]) if len(sys.argv) > 3 else 1e9
only = re.compile(sys.argv[4]) if len(sys.argv) > 4 else None
D = f'/tmp/mut/w{w}'
R = D + '/repo'
cores = f'{w*8//nw}-{(w+1)*8//nw-1}'
ENV = dict(os.environ, PATH='/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin', HOME='/root', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
           CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='')
def sh(cmd, t, cwd, env=None):
    try:
        p = subprocess.run(['taskset', '-c', cores, 'bash', '-c', cmd], cwd=cwd, env=dict(ENV, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, text=True, errors='replace')
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 99, 'timeout'
os.makedirs(D, exist_ok=True)
if not os.path.isdir(R):
    subprocess.check_call(['git', '-C', '/repo', 'worktree', 'add', '-f', '--detach', R, 'HEAD'])
subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--detach', subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()])
subprocess.check_call(['git', '-C', R, 'checkout', '-q', '--', '.'])
shutil.copy('/repo/Cargo.lock', R + '/Cargo.lock')
shutil.rmtree(D + '/mc', ignore_errors=True)
shutil.copytree('/verif/mc', D + '/mc')
shutil.copy('/verif/known-findings.json', D)
t = open(D + '/mc/Cargo.toml').read().replace('path = "/repo"', f'path = "{R}"')
open(D + '/mc/Cargo.toml', 'w').write(t)
# C02 first among the slow ones: it kills most.
ORDER = 'B01 R01 R03 F02 F03 C06 C01 C05 C08 R04 T01 S03 S04 K02 F01 K01 W01 F05 R05 F06 E02 R02 S02 S01 W02 F04 C04 C02 C03 C07'.split()

def mutants():
    out = []
    for f in subprocess.check_output(['git', 'ls-files', 'src'], cwd=R, text=True).split():
        if not f.endswith('.rs') or f in ('src/prelude.rs', 'src/miniscript.rs'): continue
        lines = open(f'{R}/{f}').read().split('\n')
        end = next((i for i, l in enumerate(lines) if re.match(r'#\[cfg\(test\)\]|mod tests? \{', l)), len(lines))
        skip = None
        for i, l in enumerate(lines[:end]):
            s = l.strip()
            if skip is not None:
                if l.startswith(skip + '}'): skip = None
                continue
            m = re.match(r'(\s*)(unsafe )?impl.*(Display|Error|Debug|From<.*Error).* for ', l)
            if m and l.rstrip().endswith('{'): skip = m.group(1); continue
            if not s or s.startswith(('//', '#', 'use ', 'pub use', '///', 'debug_assert', 'mod ', 'pub mod')): continue
            def add(op, new):
                if new != l: out.append((f, i, op, l, new))
            for a, b in [(' == ', ' != '), (' != ', ' == '), (' < ', ' <= '), (' > ', ' >= '), (' <= ', ' < '), (' >= ', ' > '), (' && ', ' || '), (' || ', ' && '), ('.is_some()', '.is_none()'), ('.is_none()', '.is_some()'), (' + ', ' - '), (' - ', ' + '), ('true', 'false'), ('false', 'true'), ('.max(', '.min('), ('.min(', '.max('), ('.or(', '.and('), ('.all(', '.any('), ('.any(', '.all('), ('All', 'None'), ('.unwrap_or(true', '.unwrap_or(false')]:
                p = 0
                while (p := l.find(a, p)) >= 0:
                    if not (a in (' < ', ' > ') and ('fn ' in l or 'impl' in l)):
                        add(f'{a}->{b}', l[:p] + b + l[p+len(a):])
                    p += len(a)
            m = re.match(r'(\s*)(\} else )?if (?!let )(.*) \{$', l)
            if m: add('negate', f'{m.group(1)}{m.group(2) or ""}if !({m.group(3)}) {{')
            if s.endswith(';') and not s.startswith(('let ', 'use ', 'pub ', 'type ', 'const ', 'static ', 'break', '}', ')', ']')) and s.count('(') == s.count(')') and s.count('{') == s.count('}') and not lines[i-1].rstrip().endswith(('=', '(', ',', '|', '.', '&&', '||')):
                add('delete', '')
            for m in re.finditer(r'(?<![\w.#"])(\d+)(?![\w.])', l):
                n = int(m.group(1)); add('number', l[:m.start()] + str(n + 1) + l[m.end():])
                if n > 1: add('number-', l[:m.start()] + str(n - 1) + l[m.end():])
            for m in re.finditer(r'\.(is_empty)\(\)', l):
                add('nonempty', l[:m.start()] + '.len() == 1' + l[m.end():])
            for a, b in [('inputs', 'outputs'), ('witness_utxo', 'non_witness_utxo'), ('min_time', 'min_height'), ('min_height', 'min_time'), ('ripemd160', 'hash160'), ('sha256', 'hash256'), ('redeem_script', 'witness_script'), ('witness_script', 'redeem_script'), ('final_script_sig', 'final_script_witness'), ('proprietaries', 'unknowns'), ('input_count', 'output_count')]:
                for m in re.finditer(r'\b' + a + r'\b', l):
                    add(f'{a}->{b}', l[:m.start()] + b + l[m.end():])
            m = re.match(r'(\s*)(Some\(.*\)|self\..*|psbt\..*|input\..*)\?;$', l)
            if m: add('ignore?', f'{m.group(1)}let _ = {m.group(2)};')
            m = re.match(r'(\s*)return (.*);$', l)
            if m: add('noreturn', '')
    return out

ms = mutants()
random.Random(20).shuffle(ms)
done = set()
res = f'/tmp/mut/results.{w}'
import glob
for g in glob.glob('/tmp/mut/results*'):
    for l in open(g):
        try: d = json.loads(l); done.add((d['f'], d['old'], d['new']))
        except Exception: pass
start = time.time()
print(len(ms), 'mutants')
for k, (f, i, op, old, new) in enumerate(ms):
    if k % nw != w or (f, old, new) in done: continue
    if only and not only.search(f + ' ' + old): continue
    if time.time() - start > limit: break
    p = f'{R}/{f}'
    src = open(p).read(); lines = src.split('\n'); assert lines[i] == old
    lines[i] = new
    open(p, 'w').write('\n'.join(lines))
    t0 = time.time()
    r = {'f': f, 'line': i + 1, 'op': op, 'old': old, 'new': new}
    try:
        c, o = sh('cargo test --offline --all-features --no-run', 300, R, {'CARGO_TARGET_DIR': D + '/tests', 'CARGO_INCREMENTAL': '1', 'RUSTFLAGS': '-Awarnings'})
        if c: r['r'] = 'nobuild'; continue
        c, o = sh('cargo test --offline --all-features', 200, R, {'CARGO_TARGET_DIR': D + '/tests', 'CARGO_INCREMENTAL': '1', 'RUSTFLAGS': '-Awarnings'})
        if c: r['r'] = 'tests'; continue
        c, o = sh('cargo build --release --offline', 600, D + '/mc', {'CARGO_TARGET_DIR': D + '/target', 'CARGO_INCREMENTAL': '0'})
        if c: r['r'] = 'mc does not build'; r['o'] = o[-500:]; continue
        r['r'] = 'SURVIVED'
        for prop in ORDER:
            c, o = sh(f'{D}/target/release/mc {prop} --tier quick', 900, D, {'MC_VERIF': D})
            if c == 1 and 'VIOLATION' in o:
                r['r'] = 'caught ' + prop
                m = re.search(r'case: .*\n.*', o); r['o'] = m.group(0)[:300] if m else ''
                break
            if c: r['r'] = f'no answer {prop} {c}'; r['o'] = o[-300:]; break
    finally:
        open(p, 'w').write(src)
        r['t'] = round(time.time() - t0)
        open(res, 'a').write(json.dumps(r) + '\n')
