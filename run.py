#!/usr/bin/env python3
"""Decide one property: python3 run.py <id> [--tier quick|thorough] [--keep]

1. extract the functions under contract from /repo's current source (rx) and have Verus discharge
   every obligation (the deciding step), with must-fail probes against vacuity;
2. replay: build the real code with the property's harness (rustc, path includes of /repo) and run the
   executable form of the same contracts on it, to turn a failed obligation into a failing input and
   to exercise the contracts that step 1 assumes of dependencies.
"""
import json, os, re, subprocess, sys, time, shutil, tempfile, threading, glob, signal
V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
sys.path.insert(0, V)
from props import PROPS, COMMON_ASSUMPTIONS
TC = '/root/.rustup/toolchains/nightly-2024-12-30-x86_64-unknown-linux-gnu'

def sh(cmd, timeout, env=None, cwd=None, out=None):
    """run; returns (rc or None on timeout, stdout, stderr)"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode(errors='replace'), e.decode(errors='replace')
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        return None, o.decode(errors='replace'), e.decode(errors='replace')

def clean_env(**kw):
    e = {k: v for k, v in os.environ.items() if not k.startswith('CARGO') and not k.startswith('RUST') or k in ('CARGO_HOME', 'RUSTUP_HOME')}
    e.update(kw)
    return e

def build_rx(scratch):
    env = clean_env(CARGO_TARGET_DIR=os.path.join(scratch, 'rx'), CARGO_NET_OFFLINE='true')
    pre = os.environ.get('VERIF_RX')
    if pre and os.path.exists(pre):
        return pre, ''
    rc, o, e = sh(['cargo', 'build', '--offline', '-q', '--manifest-path', os.path.join(V, 'rx/Cargo.toml')], 300, env)
    p = os.path.join(scratch, 'rx/debug/rx')
    return (p if rc == 0 else None), e

VERIF_MSGS = ('postcondition not satisfied', 'precondition not satisfied', 'assertion failed', 'invariant not satisfied',
              'possible arithmetic', 'possible division', 'decreases not satisfied', 'possible bit shift', 'recommendation not met',
              'constructed value may fail', 'unreachable', 'assert_', 'requires not satisfied', 'could not prove termination', 'possible index out of bounds')

def fn_ranges(text):
    """[(first line, name, is_probe)] of the functions of the generated file"""
    res = []; probe = False
    impl = ''
    for i, l in enumerate(text.split('\n'), 1):
        m0 = re.match(r'^(?:pub )?(?:impl|trait)\b(?:<[^>]*>)?\s*(.*?)\s*\{', l)
        if m0: impl = m0.group(1)
        if re.match(r'^\}', l): impl = ''
        if l.strip().startswith('//@probe'):
            probe = True; continue
        m = re.match(r'^\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))?\s+)?(?:open |closed |uninterp |broadcast )*(?:const |proof |spec |exec |async |unsafe )*fn\s+([A-Za-z0-9_]+)', l)
        if m:
            res.append((i, (impl + '::' if impl and l[:1] == ' ' else '') + m.group(1), probe)); probe = False
    return res

def verify(pid, tpl, rx, scratch, tier):
    """-> dict(status=proved|failed|undecided, ...)"""
    name = tpl[:-4] if tpl.endswith('.vrs') else tpl
    out = os.path.join(scratch, name + '.rs'); meta = os.path.join(scratch, name + '.json')
    r = dict(template=name, status='undecided', reason='', obligations=[], failed=[], trusted=[], functions=[], smt_ms=0, probes=0)
    rc, o, e = sh([rx, os.path.join(V, 'contracts', name + '.vrs'), REPO, out, meta], 120, clean_env(HOME=os.environ.get('HOME', '/root')))
    if rc != 0:
        r['reason'] = 'extraction: ' + (o + e).strip()[-600:]
        return r
    r['functions'] = json.load(open(meta))['functions']
    text = open(out).read()
    ranges = fn_ranges(text)
    def encl(line):
        c = [x for x in ranges if x[0] <= line]
        return c[-1] if c else (0, '?', False)
    lines = text.split('\n')
    # trusted base: everything the verifier is told rather than shown
    for i, l in enumerate(lines, 1):
        if re.search(r'external_body|external_type_specification|assume_specification|\bassume\s*\(|\badmit\s*\(|broadcast axiom|axiom fn|verifier::external\b|verifier::truncate', l):
            j = i
            while j < len(lines) and not re.search(r'\b(fn|struct|enum)\s+\w+|assume_specification', lines[j - 1]): j += 1
            m = re.search(r'\b(?:fn|struct|enum)\s+(\w+)|assume_specification[^\[]*\[\s*([^\]]+)\]', lines[j - 1])
            if 'verifier::truncate' in l:
                nm = 'wrapping integer cast as written: ' + l.strip()
            else:
                nm = (m.group(1) or m.group(2)) if m else l.strip()
            if nm not in r['trusted']: r['trusted'].append(nm)
    env = clean_env()
    env.pop('RUSTUP_TOOLCHAIN', None)
    cmd = ['verus', name + '.rs', '--output-json', '--time-expanded', '--multiple-errors', '20', '--error-format=json', '--rlimit', '60' if tier == 'quick' else '200']
    r['cmd'] = ' '.join(cmd)
    rc, o, e = sh(cmd, 500, env, scratch)
    r['verus_stderr'] = e
    if rc is None:
        r['reason'] = 'verus timed out'; return r
    try: d = json.loads(o[o.index('{'):])
    except Exception:
        r['reason'] = 'verus gave no result: ' + rendered(e)[:1500]; return r
    vr = d.get('verification-results', {})
    msgs = []
    for l in e.split('\n'):
        if l.startswith('{'):
            try: m = json.loads(l)
            except Exception: continue
            if m.get('level', '').startswith('error') and not m['message'].startswith('aborting due'): msgs.append(m)
    try: mods = d['times-ms']['smt']['smt-run-module-times']
    except Exception: mods = []
    if vr.get('encountered-vir-error') or not mods:
        r['reason'] = 'the extracted text is outside the verifier\'s subset: ' + '; '.join(m['message'] for m in msgs)[:1200] + rendered(e)[:1500]
        return r
    per = {}
    for m in mods:
        for f in m['function-breakdown']:
            short = f['function'].split('::', 1)[1] if '::' in f['function'] else f['function']
            k = per.setdefault(short, dict(mode=f.get('mode:', '?'), us=0, ok=True))
            k['us'] += f.get('time-micros', 0); k['ok'] &= bool(f['success'])
    probes = {n for (_, n, p) in ranges if p}
    pn = {n.split('::')[-1] for n in probes}
    failed, rl, other = {}, [], []
    for m in msgs:
        spans = [s for s in m['spans'] if s['file_name'].endswith(name + '.rs')]
        es = [encl(s['line_start']) for s in spans] or [(0, '?', False)]
        pr = [x for x in es if x[2]]
        if pr: continue
        if 'rlimit' in m['message'].lower() or 'resource limit' in m['message'].lower() or 'timed out' in m['message'].lower():
            rl.append(m['message']); continue
        if not any(m['message'].startswith(x) or x in m['message'] for x in VERIF_MSGS):
            other.append(m['message']); continue
        prim = [s for s in spans if s['is_primary']] or spans
        sec = [s for s in spans if not s['is_primary']]
        body = sec[0] if (sec and 'postcondition' in m['message']) else prim[0]
        clause = ' '.join(t['text'].strip() for t in prim[0]['text'])[:300] if prim else ''
        fn = encl(body['line_start'])[1]
        failed.setdefault(fn, []).append(m['message'] + ': ' + clause)
    for short, k in per.items():
        if short.split('::')[-1] in pn: continue
        r['obligations'].append(dict(fn=short, mode=k['mode'], ms=round(k['us'] / 1000, 1), ok=k['ok']))
    r['smt_ms'] = round(sum(x['ms'] for x in r['obligations']), 1)
    notrej = [p for p in pn if not any(s.split('::')[-1] == p and not k['ok'] for s, k in per.items())]
    r['probes'] = len(pn)
    bad = [x['fn'] for x in r['obligations'] if not x['ok']]
    if notrej:
        r['reason'] = 'vacuity: the verifier accepted must-fail probe(s) ' + ', '.join(notrej); return r
    if not r['obligations']:
        r['reason'] = 'no obligation was generated'; return r
    if other:
        r['reason'] = 'verifier error: ' + '; '.join(other)[:1500]; return r
    if failed:
        r['status'] = 'failed'; r['failed'] = [dict(fn=f, errs=x) for f, x in failed.items()]; return r
    if rl or bad:
        r['reason'] = 'solver gave up: ' + '; '.join(rl + bad)[:800]; return r
    r['status'] = 'proved'
    return r

def rendered(e):
    o = []
    for l in e.split('\n'):
        if l.startswith('{'):
            try: o.append(json.loads(l).get('rendered') or '')
            except Exception: pass
        elif l.strip(): o.append(l + '\n')
    return ''.join(o)

def find_externs():
    E = json.load(open(os.path.join(V, 'externs.json')))
    args = []
    for L in E['L']: args += ['-L', L]
    for k, p in E['externs'].items():
        if not os.path.exists(p):
            pat = re.sub(r'-[0-9a-f]{16}\.', '-*.', p)
            c = sorted(glob.glob(pat), key=os.path.getmtime)
            if not c: continue
            p = c[-1]
        args += ['--extern', f'{k}={p}']
    return args

def gen_out_dir(scratch):
    """what /opt/vp/ws/build.rs generates for the partial crate: the constants of src/catalog/mod.rs"""
    try:
        s = open(f'{REPO}/src/catalog/mod.rs').read()
        cs = re.findall(r'^pub const [A-Z_]+: &str = [^;]*;', s, re.M)
        open(os.path.join(scratch, 'catalog_consts.rs'), 'w').write('\n'.join(cs) + '\n')
    except Exception: pass

def harness(pid, spec, scratch, tier, seed, get_rx, only=None):
    r = dict(status='undecided', reason='', violations=[], cases=0, sets={}, cmd='')
    src = os.path.join(V, 'harness', spec['src'] + '.rs')
    if '//@verbatim ' in open(src).read():
        # the real code sits in files that cannot be compiled here as a whole: take the items' exact text
        rx, err = get_rx()
        if not rx: r['reason'] = 'the extractor did not build: ' + err[-800:]; return r
        shutil.copy(os.path.join(V, 'harness', 'common.rs'), os.path.join(scratch, 'common.rs'))
        out = os.path.join(scratch, spec['src'] + '_harness.rs')
        rc, o, e = sh([rx, '--harness', src, REPO, out], 120, clean_env(HOME=os.environ.get('HOME', '/root')))
        if rc != 0: r['reason'] = 'extraction: ' + (o + e)[-600:]; return r
        src = out
    binp = os.path.join(scratch, 'h_' + spec['src'])
    gen_out_dir(scratch)
    env = clean_env(CARGO_MANIFEST_DIR=REPO, OUT_DIR=scratch, CARGO_PKG_VERSION='0.0.0', CARGO_PKG_NAME='verif')
    cmd = [f'{TC}/bin/rustc', '--crate-name', 'h_' + spec['src'], '--edition=2021', src, '--crate-type', 'bin', '-o', binp, '-A', 'warnings', '-C', 'codegen-units=8'] + list(spec.get('rustc', [])) + find_externs()
    t = time.time()
    rc, o, e = sh(cmd, 500, env, scratch)
    r['build_s'] = round(time.time() - t, 1)
    if rc != 0:
        r['reason'] = 'the real code did not build with the harness: ' + e[-2500:]; return r
    hd = os.path.join(scratch, 'hs'); os.makedirs(hd, exist_ok=True)
    env = {'PATH': os.environ.get('PATH', ''), 'HOME': hd, 'TMPDIR': hd, 'VERIF_SEED': str(seed), 'VERIF_TIER': tier, 'LD_LIBRARY_PATH': f'{TC}/lib', 'RUST_MIN_STACK': '67108864', 'VERIF_AT': os.path.join(hd, 'at')}
    lim = spec.get('timeout', 300) if tier == 'quick' else spec.get('timeout', 300) * 4
    t = time.time()
    rc, o, e = sh([binp, spec.get('prop', pid).lower()] + ([only] if only else []), lim, env, hd)
    r['run_s'] = round(time.time() - t, 1)
    r['cmd'] = f"harness/{spec['src']}.rs {spec.get('prop', pid).lower()}"
    done = False
    for l in o.split('\n'):
        i = l.find('{"violation":')
        if i < 0: i = l.find('{"done":')
        if i < 0: continue
        try: m = json.loads(l[i:])
        except Exception: continue
        if 'violation' in m: r['violations'].append(m['violation'])
        if 'done' in m: done = True; r['cases'] = m['done']['cases']; r['sets'] = m['done']['sets']
    at = ''
    try: at = open(env['VERIF_AT']).read()[-2000:]
    except Exception: pass
    if rc is None:
        r['violations'].append(dict(key='hang', input=at or '(see harness)', expected='an answer', got=f'no answer within {lim} s'))
    elif not done:
        if 'VERIF-HARNESS' in e: r['reason'] = 'the harness itself failed: ' + e[-1500:]; return r
        r['violations'].append(dict(key='crash', input=at or '(see harness)', expected='an answer or an error value', got=f'the process ended with status {rc}: ' + e[-1500:]))
    elif r['cases'] == 0:
        r['reason'] = 'no case was run'; return r
    r['status'] = 'violated' if r['violations'] else 'ok'
    return r

def known(pid):
    res = []
    for l in open(os.path.join(V, 'known-findings.txt')):
        m = re.match(r'^finding: property=(\S+) key=(.+?) :: (.*)$', l.strip())
        if m and m.group(1) == pid: res.append((m.group(2), m.group(3)))
    return res

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f'verif-{pid}-')
    try:
        vres = []; hres = [None]; rxl = threading.Lock(); rxr = []
        def get_rx():
            with rxl:
                if not rxr: rxr.append(build_rx(scratch))
                return rxr[0]
        def do_v():
            if not P.get('templates'): return
            rx, err = get_rx()
            if not rx:
                vres.append(dict(template='*', status='undecided', reason='the extractor did not build: ' + err[-800:], obligations=[], failed=[], trusted=[], functions=[], smt_ms=0, probes=0)); return
            th = []
            for t in P['templates']:
                x = threading.Thread(target=lambda t=t: vres.append(verify(pid, t, rx, scratch, tier))); x.start(); th.append(x)
            for x in th: x.join()
        def do_h():
            if P.get('harness'): hres[0] = harness(pid, P['harness'], scratch, tier, seed, get_rx)
        a = threading.Thread(target=do_v); b = threading.Thread(target=do_h); a.start(); b.start(); a.join(); b.join()
        h = hres[0]
        kf = known(pid); seen = set(); viol = []
        if h:
            for x in h['violations']:
                k = [w for (key, w) in kf if key == x['key']]
                if k:
                    if x['key'] not in seen: print(f'KNOWN-FINDING: property={pid} {k[0]}')
                    seen.add(x['key'])
                else: viol.append(x)
        for key, w in kf:
            if key not in seen: print(f'KNOWN-FINDING: property={pid} {w}')
        failed = [(r['template'], f) for r in vres for f in r['failed']]
        und = [r for r in vres if r['status'] == 'undecided']
        rc = 0; nviol = 0
        rp = os.path.join(V, 'evidence', f'{pid}.replay.json')
        if viol:
            rc = 1; nviol = len(viol)
            json.dump(dict(property=pid, kind='failing input on the real code', harness=h['cmd'], seed=seed, tier=tier, how=f"VERIF_SEED={seed} python3 {V}/run.py {pid} --tier {tier}", violations=viol[:20],
                           failed_obligations=[dict(template=t, **f) for t, f in failed]), open(rp, 'w'), indent=1)
            for x in viol[:3]:
                print(f"  key={x['key']} input={x['input'][:300]}\n    expected: {x['expected'][:300]}\n    got:      {x['got'][:300]}")
            for t, f in failed: print(f"  failed obligation: {t}/{f['fn']}: {f['errs'][0][:200]}")
            print(f'VIOLATION property={pid} replay={rp}')
        elif failed:
            rc = 1; nviol = len(failed)
            json.dump(dict(property=pid, kind='failed proof obligation, no failing input found', failed_obligations=[dict(template=t, **f) for t, f in failed],
                           verifier_output={r['template']: rendered(r['verus_stderr'])[:20000] for r in vres if r['failed']}, how=f'python3 {V}/run.py {pid}'), open(rp, 'w'), indent=1)
            for t, f in failed: print(f"  failed obligation: {t}/{f['fn']}: {f['errs'][0][:200]}")
            print(f'VIOLATION property={pid} replay={rp} no-failing-input-found')
        else:
            hok = h is not None and h['status'] == 'ok' or (h is not None and h['violations'] and not viol)
            if und and not hok:
                rc = 2
                for r in und: print(f"UNDECIDED {r['template']}: {r['reason'][:2000]}")
                if h: print('UNDECIDED harness: ' + h['reason'][:2500])
            elif not vres and not hok:
                rc = 2; print('UNDECIDED harness: ' + (h['reason'] if h else 'none'))
            for r in und: print(f"note: {r['template']} not decided by proof on this tree ({r['reason'][:300]}); bounded check of the real code stands in")
            if h and h['status'] == 'undecided': print('note: no replay on this tree: ' + h['reason'][:400])
        obl = sum(len(r['obligations']) for r in vres)
        dis = sum(sum(1 for o in r['obligations'] if o['ok']) for r in vres if r['status'] != 'undecided')
        trusted = []
        for r in vres:
            for x in r['trusted']:
                if x not in trusted: trusted.append(x)
        proved = bool(vres) and all(r['status'] == 'proved' for r in vres)
        cov = dict(obligations=obl, discharged=dis, checker_cmd='; '.join(r.get('cmd', '') for r in vres) or 'none', back_end='Verus 0.2026.09.13 / Z3',
                   trusted_base=trusted + P.get('trusted', []), solver_ms=round(sum(r['smt_ms'] for r in vres), 1), proof_status='proved' if proved else ('failed' if failed else 'not decided on this tree: bounded only'),
                   functions_under_contract=[f"{f['file']} | {f['item']}" + ((' [' + '; '.join(f['notes']) + ']') if f['notes'] else '') for r in vres for f in r['functions'] if f['kind'] == 'fn'],
                   data_extracted=[f"{f['file']} | {f['item']}" for r in vres for f in r['functions'] if f['kind'] != 'fn'],
                   extraction_drops=[n for r in vres for f in r['functions'] for n in f['notes']][:0] or 'see functions_under_contract: the bracketed rewrites',
                   obligations_by_function=[f"{r['template']}::{o['fn']} ({o['mode']}, {o['ms']} ms): {'discharged' if o['ok'] else 'NOT DISCHARGED'}" for r in vres for o in r['obligations'] if o['mode'] != 'spec'],
                   probes_rejected=sum(r['probes'] for r in vres if r['status'] != 'undecided'),
                   undecided=[f"{r['template']}: {r['reason'][:400]}" for r in und],
                   failed=[f"{t}/{f['fn']}: {e}" for t, f in failed for e in f['errs']])
        if h: cov['bounded_replay'] = dict(label='bounded, never counted as proved', evaluations=h['cases'], sets=h['sets'], status=h['status'], build_s=h.get('build_s'), run_s=h.get('run_s'), note=P['harness'].get('bound', ''), reason=h['reason'][:500])
        json.dump(dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='proof' if P.get('templates') else 'exploration', coverage=cov if P.get('templates') else dict(evaluations=h['cases'], distinct_nontrivial=h['cases'], rule=P['harness'].get('bound', ''), samples=list(h['sets'].items()), **{k: cov[k] for k in ('bounded_replay',)}),
                       assumptions=P.get('assumptions', []) + COMMON_ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=nviol),
                  open(os.path.join(V, 'evidence', f'{pid}.json'), 'w'), indent=1)
        print(f"{pid}: proof {cov['proof_status']} ({dis}/{obl} obligations, {cov['probes_rejected']} probes rejected)" + (f"; replay {h['status']} ({h['cases']} cases, build {h.get('build_s')} s, run {h.get('run_s')} s)" if h else '') + f'; {time.time()-t0:.1f} s')
        return rc
    finally:
        if '--keep' in sys.argv: print('kept ' + scratch)
        else: shutil.rmtree(scratch, ignore_errors=True)
if __name__ == '__main__':
    sys.exit(main())
