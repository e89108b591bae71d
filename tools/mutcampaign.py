#!/usr/bin/env python3
"""Development tool: tries small behaviour changes (tools/mutate) against the checks, in private copies of /repo and /verif
that a mount namespace of its own shows under those names.   mutcampaign.py MUTANTS.jsonl OUT.jsonl SEED WORKER/WORKERS SECONDS"""
import json, os, random, subprocess, sys, time, re
src, out, seed, wk, limit = sys.argv[1:6]
w, n = map(int, wk.split('/'))
base = f'/tmp/mut{w}'
rate = {'err-ignored': .12, 'call-dropped': .25, 'field-unset': .2, 'if-always': .3}
ms = [json.loads(l) for l in open(src)]
rnd = random.Random(int(seed))
ms = [m for m in ms if not m['file'].startswith('.build') and rnd.random() < rate.get(m['kind'], 1)]
rnd.shuffle(ms)
ms = ms[w::n]
if os.environ.get('MUT_NS') != '1':
    subprocess.run(['rm', '-rf', base]); os.makedirs(base)
    subprocess.run(['cp', '-a', '/repo', base + '/repo'], check=True)
    subprocess.run(['cp', '-a', '/verif', base + '/verif'], check=True)
    os.environ['MUT_NS'] = '1'
    os.execvp('unshare', ['unshare', '-Urm', 'bash', '-c',
        f'mount --bind {base}/repo /repo && mount --bind {base}/verif /verif && cd /verif && exec nice python3 {base}/verif/tools/mutcampaign.py ' + ' '.join(sys.argv[1:])])
MAP = [
 ('core/shared/ccm', 'P01 P14'), ('core/shared/enc', 'P01 P14 P10'), ('core/shared/kex', 'P02 P01 P14 P10'), ('core/shared/signing', 'P03 P08 P10 P05 P07'),
 ('core/shared/hashing', 'P04 P05'), ('core/shared/voucher', 'P05 P06 P07'), ('core/shared/distuff', 'P06 P04 P27'), ('core/shared/pem', 'P06 P27'), ('core/shared/other.crypto', 'P06 P03 P04'),
 ('core/shared/rvinfo', 'P25 P27'), ('core/shared/other', 'P25 P18 P13 P14 P26'), ('core/shared/sims', 'P12 P14'), ('core/shared/conformance', 'P18 P20 P21 P06'),
 ('core/shared/testcom/listener', 'P20 P23 P21'), ('core/shared/testcom', 'P18 P19 P20 P23 P21'), ('core/shared/comms', 'P13 P15 P18'), ('core/shared/transport', 'P15 P14 P16'), ('core/shared/interop', 'P07 P08 P11 P21'), ('core/shared', 'P14 P15 P13 P09 P05'),
 ('core/rv/session', 'P16 P07 P08 P24'), ('core/rv/listener-to0', 'P07 P15 P16 P14 P20'), ('core/rv/listener-to1', 'P08 P15 P16 P14 P20'), ('core/rv', 'P07 P08 P16 P24 P15 P14'),
 ('core/do/to0', 'P13 P18 P27 P21'), ('core/do/to2', 'P09 P11 P12 P10 P15 P16 P20 P14'), ('core/do/dbs', 'P16 P09 P24 P27 P11'), ('core/do', 'P15 P09'),
 ('core/device/to', 'P13 P18 P12 P21'), ('core/device/genvoucher', 'P06 P18'), ('core/device', 'P06 P27 P13'),
 ('testexec', 'P18 P19 P21 P23'), ('api', 'P22 P23 P26 P19'), ('dbs', 'P22 P24 P19 P20 P26 P23'), ('seeding', 'P26 P27'), ('main', 'P27 P24 P26')]
def checks(f):
    for p, c in MAP:
        if f.startswith(p): return c.split()
    return ['P14']
end = time.time() + float(limit)
env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_LIMIT='300')
res = open(out, 'a')
for m in ms:
    if time.time() > end: break
    p = '/repo/' + m['file']
    old = open(p, 'rb').read()
    t = time.time()
    try:
        assert old[m['from']:m['to']].decode() == m['old']
        open(p, 'wb').write(old[:m['from']] + m['new'].encode() + old[m['to']:])
        b = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; cd /repo && go build -o /dev/null ./ && go vet ./core/shared ./core/do/to2 >/dev/null 2>&1; true'], capture_output=True)
        if b.stderr and b'#' in b.stderr: continue
        r = dict(m, result='survived', by=[])
        for c in checks(m['file']):
            k = subprocess.run(['/verif/bin/check', c, 'quick'], capture_output=True, env=env)
            o = k.stdout.decode(errors='replace')
            if k.returncode == 1:
                v = re.search(r'violation \[([^\]]*)\]', k.stderr.decode(errors='replace') + o)
                r['result'] = 'killed'; r['by'] = c; r['sig'] = v.group(1) if v else ''
                break
            if k.returncode != 0: r['by'].append(f'{c}:rc{k.returncode}:' + k.stderr.decode(errors='replace')[-200:])
        r['s'] = round(time.time() - t)
        res.write(json.dumps(r) + '\n'); res.flush()
    finally:
        open(p, 'wb').write(old)
