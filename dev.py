#!/usr/bin/env python3
"""Development helper: dev.py sweep HARNESS FROM TO [time=S] k=v...   |  dev.py one HARNESS [time=S] k=v...
Explores seeds FROM..TO (one process each), prints labels of candidate violations and replays some natively."""
import sys, os, json, collections, concurrent.futures as cf, shutil
import check
def main():
    cmd, h = sys.argv[1:3]; a = sys.argv[3:]
    seeds = [None]
    if cmd == 'sweep': seeds = range(int(a[0]), int(a[1]) + 1); a = a[2:]
    kv = dict(x.split('=', 1) for x in a); tl = float(kv.pop('time', 10)); show = kv.pop('show', None); jobs = int(kv.pop('jobs', 8 if cmd == 'one' else 1)); cross = int(kv.pop('cross', 10)); nrep = int(kv.pop('rep', 3)); pt = int(kv.pop('pt', 10)); order = int(kv.pop('order', 0))
    exe = check.build(h); tmp = check.B + '/dev%d' % os.getpid(); os.makedirs(tmp, exist_ok=True)
    def one(s):
        o = dict(kv)
        if s is not None: o = dict(dict(net='gen', seed=s), **kv)
        j = dict(harness=h, opts=o, jobs=jobs, cross=cross, path_time=pt, order=order); return j, check.explore(exe, j, tl, tmp, 8)
    with cf.ThreadPoolExecutor(8 // jobs or 1) as ex: rs = list(ex.map(one, seeds))
    lab = collections.defaultdict(list); reach = collections.Counter(); inc = collections.Counter(); notes = collections.Counter(); comp = paths = cpu = conc = 0
    for j, (r, e) in rs:
        if not r: print('ERR', j['opts'], e); continue
        comp += r['complete']; paths += r['paths']; cpu += r['wall_s']; conc += r.get('concretised', 0)
        for k, v in r['reached'].items(): reach[k] += v
        for k, v in r['incomplete'].items(): inc[k] += v
        for v in r['violations']: lab[v['label']].append((j, v))
        if r['crashes'] or r['hangs']: print('crash/hang', j['opts'], r['crashes'], r['hangs'])
    print(len(rs), 'runs', comp, 'complete', paths, 'paths', round(cpu), 'cpu s', 'concretised', conc); print(dict(reach)); print(dict(inc))
    for l, x in lab.items():
        print(len(x), l, sorted({j['opts'].get('seed') for j, _ in x}, key=str)[:15])
    if lab and nrep:
        n = check.build(h, True)
        for l, x in lab.items():
            for j, v in x[:nrep]:
                names = [q for q in v['names'].split('\n') if q]
                bad, why, out = check.replay(n, dict(j['opts'], **({'show': 1} if show else {})), v['inputs'], tmp); print('  ', j['opts'], dict(zip(names, v['inputs'])), '->', bad, why)
                if show: print(out); print(v['detail'][-2000:])
    shutil.rmtree(tmp)
main()
