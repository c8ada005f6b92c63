"""What each property's check explores: harness programs, configurations, bounds, texts."""
W3 = {'with': ['vt', 'oracle', 'disk'], 'stubs': ['capnp'], 'defs': ['KJ_DEBUG'], 'libs': ['-lcapnp', '-lkj']}
W4 = dict(W3, **{'with': W3['with'] + ['table_geofilter']})
HARNESSES = {
    'access': dict(**W4), 'reason': dict(**W4), 'alts': dict(**W4), 'relate': dict(**W4),
    'route': dict(**W4), 'params': dict(**W4),
    'refresh': dict(**W4), 'fault': dict(**W4), 'router': dict(**W3),
    'conc': dict(W4, race=True, plain=['sched']), 'gconc': dict(W3, race=True, plain=['sched'], src='conc'),
    'groute': dict(W3, src='route'), 'greason': dict(W3, src='reason'), 'grelate': dict(W3, src='relate'), 'galts': dict(W3, src='alts'),
}
def gen(prop, seeds, time, order=2, harness='route', **o):
    return [dict(harness=harness, opts=dict(dict(prop=prop, net='gen', seed=s), **o), time=time, cross=10, order=order) for s in seeds]
def fixed(prop, nets, time, jobs=1, harness='route', order=2, **o):
    return [dict(harness=harness, opts=dict(dict(prop=prop, net=n), **o), time=time, jobs=jobs, cross=100, order=order) for n in nets]
def mix(*ls):  # round robin
    r = []; ls = [list(l) for l in ls]
    while any(ls):
        for l in ls:
            if l: r.append(l.pop(0))
    return r
BASE_ASSUME = ['clang -O1 code generation preserves the source semantics (the encoding is taken from its LLVM IR)',
    'the engine encodes C++ integers as mathematical integers with overflow tracked as an assumption violation (a path whose values leave the 64-bit range is reported as incomplete, not as decided)',
    'calls into uninstrumented libraries (libstdc++ internals of iostream, Boost.ProgramOptions, glibc) receive concrete values; each such concretisation is counted']
def T(tier, quick, thorough): return thorough if tier == 'thorough' else quick
NETB = 'Networks: pair (2 stops, 2 one-hop trips), chain (4 stops, footpath transfer), tri (3 stops, 3 trips) with every clock value, access/egress/transfer walk and the requested time symbolic; generated networks of 3-5 stops, up to 5 paths and 4 trips (6 in thorough) of up to 4 stops (paths may visit a stop twice), with footpaths, dwell times, no-boarding/no-alighting stops, 2 (thorough: 3) trips with symbolic clock values in a window of +-240 s (thorough 600 s) and symbolic hops, requested time symbolic over 1800 s, some with symbolic limits. Layered networks: 1-3 access stops, feeders, footpath or same-stop changes, trunks, 1-4 egress stops, competing direct lines, up to 5 trips (7 in thorough). Outside the bounds: larger networks, more rides per journey than trips in the network, more symbolic trips at a time.'
def route_plan(prop, tier, seed):
    q = tier != 'thorough'; n = 1 if q else 12; t = 4 if q else 60; off = 0 if seed == 1 else 1000 * (seed % 1000)
    R = lambda a, b: [off + x for x in range(a, a + (b - a) * n)]
    sym = dict() if q else dict(sym=3, trips=6, span=600)
    J = []
    if prop in ('C03', 'C05'):
        L = 'wmta' if prop == 'C03' else 'wt'
        J = mix(fixed(prop, ['fan', 'fanin', 'pair', 'chain', 'tri'], 16 * n, lim='w'), gen(prop, R(1, 60), t, **sym), gen(prop, R(1, 30), t, lim='mt', walks=2, **sym), gen(prop, R(60, 90), t, flags=1, scen=1, base=900, **sym), gen(prop, R(90, 110), t, base=86400, lim='w', **sym), gen(prop, R(110, 130), t, base=114000, walks=2, **sym), gen(prop, R(130, 150), t, scen=1, lim='ae', **sym))
    elif prop == 'C04':
        J = mix(fixed(prop, ['fan', 'fanin', 'pair', 'chain', 'tri'], 16 * n, fwd=0, lim='w'), gen(prop, R(1, 60), t, fwd=0, **sym), gen(prop, R(1, 30), t, fwd=0, lim='mt', walks=2, **sym), gen(prop, R(60, 90), t, fwd=0, scen=1, base=900, **sym), gen(prop, R(90, 110), t, fwd=0, base=86400, lim='w', **sym), gen(prop, R(110, 130), t, fwd=0, base=114000, walks=2, **sym), gen(prop, R(130, 150), t, fwd=0, scen=1, lim='ae', **sym))
    else:  # C01 C02 C06
        lim = 'fmt' if prop == 'C02' else ''
        for fwd in (1, 0):
            J.append(mix(fixed(prop, ['pair', 'chain', 'tri', 'fan', 'fanin'], 8 * n, fwd=fwd, lim='f' if prop == 'C02' else 'w'), gen(prop, R(1, 40), t, fwd=fwd, lim=lim, **sym), gen(prop, R(40, 70), t, fwd=fwd, special=1, zero=1, **sym), gen(prop, R(70, 90), t, fwd=fwd, alt=1, lim=lim, **sym), gen(prop, R(90, 110), t, fwd=fwd, scen=1, walks=2, lim='ae' if prop == 'C02' else '', **sym), gen(prop, R(110, 130), t, fwd=fwd, base=86400, zero=1, **sym)))
        J = mix(*J)
    # layered networks (several access and egress stops, transfers), and the two walking routers for real
    lay = dict(net='layer', **sym); lims = {'C01': ['', 'w'], 'C02': ['fmt', 't', 'm', 'w'], 'C03': ['', 'wm', 't'], 'C04': ['', 'wm', 't'], 'C05': ['', 'wt'], 'C06': ['', 'w']}[prop]; ways = (0,) if prop == 'C04' else (1,) if prop in ('C03', 'C05') else (1, 0); L = []
    for fwd in ways:
        for i, l in enumerate(lims): L.append(gen(prop, R(1 + 40 * i, 40 + 40 * i), t, fwd=fwd, lim=l, **lay))
        L.append(gen(prop, R(200, 230), t, fwd=fwd, walks=2, lim='ae' if prop == 'C02' else '', **lay)); L.append(gen(prop, R(230, 250), t, fwd=fwd, scen=1, lim='e' if prop == 'C02' else '', **lay))
        if prop in ('C01', 'C02', 'C06'): L.append(gen(prop, R(250, 270), t, fwd=fwd, special=1, zero=1, **lay)); L.append(gen(prop, R(270, 290), t, fwd=fwd, alt=1, **lay))
        if prop in ('C01', 'C02'):
            for r in ('euclid', 'osrm'): L.append(mix(*[gen(prop, R(300 + 15 * k, 315 + 15 * k), t, harness='groute', fwd=fwd, router=r, lim=l, **lay) for k, l in enumerate(('E', 'A', 'AE', 'E'))])); L.append(gen(prop, R(325, 345), t, harness='groute', fwd=fwd, router=r, lim='E' if r == 'osrm' else 'A', **sym))
    J = mix(J, mix(*L))
    return run_plan(prop, 'route', J, tier, TEXT[prop])
TEXT = {
    'C01': 'Every route of every answer is decoded step by step and checked against the timetable: boarding and alighting stops, times, permissions, order, footpaths, first and last walk.',
    'C02': 'Every route of every answer is checked against every limit of the request, each symbolic or at, just below or just above a walk.',
    'C03': 'The answer is compared with an independent enumeration of all journeys of the network: existence, and no admissible journey arrives earlier.',
    'C04': 'The answer is compared with an independent enumeration of all journeys of the network: existence, and no admissible journey departs later.',
    'C05': 'The reported departure is compared with the latest departure among the enumerated journeys that meet the reported arrival.',
    'C06': 'Totals, counts, waits and distances of every route are recomputed from its own steps and the timetable.'}
def run_plan(prop, harness, jobs, tier, text, bounds=NETB, assume=(), budget=60):
    return dict(harnesses=list(dict.fromkeys(j['harness'] for j in jobs)), jobs=jobs, budget=budget if tier != 'thorough' else 3000, level='other', assumptions=BASE_ASSUME + DISKA + ['the walking router is a table of (stop, time, distance) per place (harnesses whose name starts with g: the real bird-distance filter or OSRM client)'] + list(assume), explanation=text, bounds=bounds)
def scale(tier, seed):
    q = tier != 'thorough'; n = 1 if q else 12; off = 0 if seed == 1 else 1000 * (seed % 1000)
    return (4 if q else 60), (lambda a, b: [off + x for x in range(a, a + (b - a) * n)]), (dict() if q else dict(sym=3, trips=6, span=600)), n
def plan(prop, tier, seed):
    t, R, sym, n = scale(tier, seed)
    G = lambda h, a, b, **o: gen(prop, R(a, b), t, harness=h, **dict(o, **sym))
    ACC = '/v2/accessibility'
    if prop == 'C16': return disk_plan(tier, seed)
    if prop == 'C14': return conc_plan(tier, seed)
    if prop in ('C15', 'C17', 'C18', 'C20'): return life_plan(prop, tier, seed)
    if prop in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06'): return route_plan(prop, tier, seed)
    if prop == 'C07':
        J = []
        for fwd in (1, 0):
            J += [G('reason', 1, 30, fwd=fwd, lim='wmt'), G('reason', 30, 50, fwd=fwd, lim='fae', walks=2), G('reason', 50, 70, fwd=fwd, scen=1, lim='m'), G('reason', 70, 85, fwd=fwd, special=1, zero=1), G('reason', 85, 95, fwd=fwd, noacc=1), G('reason', 95, 100, fwd=fwd, noegr=1), G('reason', 98, 103, fwd=fwd, noacc=1, noegr=1), G('reason', 103, 118, fwd=fwd, ep=ACC, lim='wm', walks=2), G('reason', 118, 126, fwd=fwd, ep=ACC, noacc=1, lim='a'), G('reason', 126, 134, fwd=fwd, alt=1, lim='m'), G('reason', 134, 144, fwd=fwd, base=114000, lim='w'), G('reason', 144, 154, fwd=fwd, base=900, scen=2, lim='a'), G('reason', 1, 30, net='layer', fwd=fwd, lim='wt'), G('reason', 30, 50, net='layer', fwd=fwd, lim='ae', walks=2), G('reason', 50, 65, net='layer', fwd=fwd, ep=ACC, lim='w'), G('greason', 1, 25, net='layer', fwd=fwd, router='euclid', lim='AE'), G('greason', 25, 50, net='layer', fwd=fwd, router='osrm', lim='AE'), G('greason', 50, 60, fwd=fwd, router='osrm', lim='AE', noacc=1), G('greason', 60, 70, fwd=fwd, router='osrm', lim='AE', noegr=1)]
        return run_plan(prop, 'reason', mix(*J), tier, 'The reported reason is compared with an independent enumeration of access/egress availability and of catchable departures (usable arrivals).')
    if prop in ('C08', 'C09'):
        f = dict(fwd=1) if prop == 'C08' else dict(fwd=0); sp = dict(special=1) if prop == 'C08' else {}
        J = [fixed(prop, ['pair', 'chain', 'tri'], 10 * n, harness='access', lim='w', **f), G('access', 1, 60, **f), G('access', 60, 90, lim='wmt', **f), G('access', 90, 110, walks=2, lim='ma', **dict(f, **sp)), G('access', 110, 130, scen=1, lim='m', **f), G('access', 130, 140, base=900, scen=2, **f), G('access', 140, 155, base=114000, walks=2, **f), G('access', 155, 170, base=86400, lim='t', **f), G('access', 1, 40, net='layer', **f), G('access', 40, 70, net='layer', lim='wt', **f), G('access', 70, 90, net='layer', lim='ma', walks=2, **f), G('access', 90, 110, net='layer', scen=1, **f)]
        return run_plan(prop, 'access', mix(*J), tier, 'The accessibility map is compared with the set of stops reached (used) by the journeys of an independent enumeration, stop by stop, with the best time of each.')
    if prop == 'C10':
        J = []
        for fwd in (1, 0): J += [[dict(harness='alts', opts=dict(prop=prop, net='many', k=k, legs=l, fwd=fwd), time=12 * n, cross=50) for k, l in ((60, 1), (20, 2))], G('alts', 1, 60, fwd=fwd), G('alts', 60, 90, fwd=fwd, lim='fmt'), G('alts', 90, 110, fwd=fwd, walks=2, scen=1, lim='ae'), G('alts', 110, 130, fwd=fwd, special=1, zero=1), G('alts', 130, 140, fwd=fwd, base=114000), G('alts', 1, 40, net='layer', fwd=fwd), G('alts', 40, 60, net='layer', fwd=fwd, lim='mt'), G('alts', 60, 80, net='layer', fwd=fwd, walks=2, lim='ae')]
        return run_plan(prop, 'alts', mix(*J), tier, 'The answers with and without alternatives are compared on each joint path; every further route is checked against the oracle of C01, C02 and C06, for distinct multisets of lines and for not being better.', NETB + ' Networks with up to 60 parallel lines on one hop and 20 on two hops (to reach the limit of 50 routes).')
    if prop == 'C19':
        J = []
        for fwd in (1, 0): J += [[dict(harness='alts', opts=dict(prop=prop, net='many', k=k, legs=l, fwd=fwd, alt=1), time=10 * n, cross=50) for k, l in ((20, 1), (6, 2))], G('alts', 1, 40, fwd=fwd, alt=1), G('alts', 40, 60, fwd=fwd), G('alts', 60, 90, fwd=fwd, alt=1, lim='fmt'), G('alts', 90, 110, fwd=fwd, alt=1, walks=2, scen=1, lim='ae'), G('alts', 110, 130, fwd=fwd, alt=1, special=1, zero=1), G('alts', 1, 40, net='layer', fwd=fwd, alt=1), G('alts', 40, 55, net='layer', fwd=fwd), G('alts', 55, 70, net='layer', fwd=fwd, alt=1, lim='wm', scen=1)]
        return run_plan(prop, 'alts', mix(*J), tier, 'The summary of a request is compared with the routes of the same request on each joint path.')
    if prop == 'C11':
        J = []
        for fwd in (1, 0): J += [G('relate', 1, 46, fwd=fwd, scen=3), G('relate', 40, 80, fwd=fwd, scen=2), G('relate', 80, 100, fwd=fwd, scen=1), G('relate', 80, 100, fwd=fwd, scen=2, lim='wmt', walks=2), G('relate', 100, 120, fwd=fwd, scen=1, ep=ACC), G('relate', 120, 140, fwd=fwd, scen=2, ep=ACC, lim='m'), G('relate', 140, 150, fwd=fwd, scen=2, base=900), G('relate', 150, 160, fwd=fwd, scen=2, base=86400, special=1), G('relate', 1, 46, net='layer', fwd=fwd, scen=3), G('relate', 40, 60, net='layer', fwd=fwd, scen=2, ep=ACC), G('relate', 60, 90, net='layer', fwd=fwd, scen=3, ep=ACC), G('relate', 60, 75, net='layer', fwd=fwd, scen=2, lim='wt')]
        return run_plan(prop, 'relate', mix(*J), tier, 'Two runs of the real server on one joint path: the restricted scenario, and an all-inclusive scenario on the data without the excluded trips.')
    if prop == 'C12':
        J = []
        for fwd in (1, 0): J += [G('relate', 1, 30, fwd=fwd), G('relate', 30, 50, fwd=fwd, dbase=50400), G('relate', 50, 65, fwd=fwd, base=900, dbase=1000, lim='w'), G('relate', 65, 80, fwd=fwd, dbase=-34000), G('relate', 80, 100, fwd=fwd, dbase=78000, lim='m'), G('relate', 100, 120, fwd=fwd, ep=ACC, dspan=7200), G('relate', 120, 135, fwd=fwd, ep=ACC, dbase=78000), G('relate', 135, 145, fwd=fwd, special=1, zero=1, dspan=4000), G('relate', 145, 155, fwd=fwd, alt=1, scen=2), fixed(prop, ['pair', 'chain', 'tri'], 10 * n, harness='relate', fwd=fwd, lim='w', dspan=900), fixed(prop, ['pair', 'chain'], 10 * n, harness='relate', fwd=fwd, lim='w', dbase=-35000, dspan=900), G('relate', 1, 30, net='layer', fwd=fwd), G('relate', 30, 45, net='layer', fwd=fwd, dbase=50400, lim='wt'), G('relate', 45, 60, net='layer', fwd=fwd, dbase=-34000, ep=ACC)]
        return run_plan(prop, 'relate', mix(*J), tier, 'Two runs of the real server on one joint path: the data and request, and both shifted by a symbolic offset.', NETB + ' Offsets symbolic over windows of +-1800 s (up to 7200 s) around 0, -34000, 1000, 50400 and 78000 s.')
    if prop == 'C13':
        J = []
        for fwd in (1, 0):
            for c in (0, 1): J += [G('relate', 1 + 20 * c, 16 + 20 * c, fwd=fwd, cacheall=c, hist=3), G('relate', 41 + 20 * c, 51 + 20 * c, fwd=fwd, cacheall=c, hist=5, scen=1), G('relate', 81 + 20 * c, 91 + 20 * c, fwd=fwd, cacheall=c, hist=3, scen=2, rscen=1, alt=1), G('relate', 121 + 20 * c, 131 + 20 * c, fwd=fwd, cacheall=c, hist=4, ep=ACC), G('relate', 1 + 30 * c, 16 + 30 * c, net='layer', fwd=fwd, cacheall=c, hist=4), G('relate', 61 + 30 * c, 76 + 30 * c, net='layer', fwd=fwd, cacheall=c, hist=4, scen=1), G('grelate', 1 + 20 * c, 16 + 20 * c, net='layer', fwd=fwd, cacheall=c, hist=4, router='euclid', lim='AE'), G('grelate', 51 + 20 * c, 61 + 20 * c, net='layer', fwd=fwd, cacheall=c, hist=4, router='osrm', lim='AE')]
        return run_plan(prop, 'relate', mix(*J), tier, 'The answer of a fresh server is compared with the answer after a generated history of other requests (other scenarios, endpoints, invalid requests, repeats) on each joint path.', NETB + ' Histories of 3 to 5 requests, the first of which may have a symbolic time; both cache settings.')
def conc_plan(tier, seed):
    t, R, sym, n = scale(tier, seed); J = []; deep = tier == 'thorough'
    g = lambda h, a, b, **o: gen('C14', R(a, b), t, harness=h, **dict(dict(after=0, fixT=1, sym=0), **o))
    for net in ('gen', 'layer'):
        for fwd in (1, 0):
            for c in (0, 1):
                k = 20 * c + 40 * fwd; x = dict(net=net, fwd=fwd, cacheall=c)
                J += [g('conc', k + 1, k + 13, n=2, **x), g('conc', k + 13, k + 19, n=2, after=1, **x), g('conc', k + 1, k + 6, n=2, ops='route', fixT=0, sym=1, **dict(x, **(dict() if deep else dict(pb=3)))), g('conc', k + 6, k + 10, n=2, ops='access', fixT=0, sym=1, **x), g('conc', k + 1, k + 8, n=3, **dict(x, **(dict(pb=6) if deep else dict(pb=2)))), g('conc', k + 8, k + 11, n=3, ops='route', same=1, pb=3, **x), g('conc', k + 11, k + 14, n=2, ops='alternatives', pb=3, **x), g('conc', k + 14, k + 17, n=2, scen=3, pre=3, **x),
                      g('gconc', k + 1, k + 7, n=2, router='euclid', **x), g('gconc', k + 7, k + 13, n=2, router='osrm', **x), g('gconc', k + 13, k + 15, n=3, pb=2, router='euclid', **x), g('gconc', k + 15, k + 17, n=3, pb=2, router='osrm', **x)]
    return run_plan('C14', 'conc', mix(*J), tier, 'Two or three requests run in threads of their own through the real request handlers; which of them continues at each synchronisation operation is a symbolic choice, all of which are explored; every answer is compared with that of a server that serves this request alone, and so are the answers to the same requests afterwards. A happens-before detector watches all accesses of the repository\'s code meanwhile, so that no unsynchronised access escapes the choice of switching points; a state in which no request can go on is reported.', CONCB, ['threads switch only at operations on mutexes, shared mutexes, condition variables, once-flags, guards of static variables and atomics other than additions; code without data races (which are reported) cannot tell other switching points apart', "the dispatch of requests to threads by Simple-Web-Server and asio is replaced by one thread per request, and the C++ library's own synchronisation is trusted"])
CONCB = 'Generated networks of 3-10 stops, 4 scenarios; 2 or 3 requests (route, alternatives, summary, accessibility; same or other scenario, time, direction, places) after up to 3 earlier ones; both cache settings; two requests: every interleaving of their synchronisation operations (alternatives or symbolic time: up to 3 preemptions), three requests: up to 2 or 3 preemptions (thorough: 6); the time of the requests symbolic in part of the runs, and one trip. Outside: more than three requests at once, /updateCache at the same time as requests, weak memory beyond data races.'
def life_plan(prop, tier, seed):  # C15 C17 C18 C20: histories, damaged files, query strings, router faults
    t, R, sym, n = scale(tier, seed); J = []
    g = lambda h, a, b, **o: gen(prop, R(a, b), t, harness=h, **o)
    if prop == 'C15':
        for net in ('gen', 'layer'):
            for c in (0, 1):
                for fwd in (1, 0):
                    x = dict(net=net, fwd=fwd, cacheall=c, sym=1 if tier != 'thorough' else 2); k = 40 * (1 - fwd) + 80 * c
                    J += [g('refresh', k + 1, k + 21, names='schedules', **x), g('refresh', k + 1, k + 16, names='some', **x), g('refresh', k + 1, k + 21, names='all', **x), g('refresh', k + 21, k + 31, names='schedules', rounds=2, **x), g('refresh', k + 21, k + 31, names='all', rounds=2, scen=1, **x), g('refresh', k + 21, k + 36, names='all', faults=1, **x), g('refresh', k + 31, k + 38, names='some', scen=2, special=1, zero=1, **x), g('refresh', k + 31, k + 36, names='schedules', hist=6, asks=4, scen=3, **x)] + [g('refresh', k + 5 * i, k + 5 * i + 4, names=m, custom=1, **x) for i, m in enumerate(('schedules', 'some', 'all'))] + [g('refresh', k + 20 + 6 * i, k + 26 + 6 * i, names=m, reuse=1, **x) for i, m in enumerate(('schedules', 'all'))]
        return run_plan(prop, 'refresh', mix(*J), tier, 'One server answers requests, has its cache files replaced, is refreshed through /updateCache (once or twice) and asked again; another is started on the last files; all answers are compared on each joint path.', REFRESHB)
    if prop == 'C17':
        x = dict(sym=0)
        for net in ('gen', 'layer'):
            for ph, k in (('start', 0), ('refresh', 30), ('repair', 60)):
                J += [g('fault', k + 1, k + 11, net=net, group='files', phase=ph, **x), g('fault', k + 1, k + 31, net=net, group='edit', phase=ph, **x), g('fault', k + 1, k + 26, net=net, group='bits', phase=ph, **x), g('fault', k + 1, k + 21, net=net, group='ints', phase=ph, file='lines/', **x), g('fault', k + 1, k + 11, net=net, group='ints', phase=ph, file='nodes/', **x), g('fault', k + 1, k + 21, net=net, group='text', phase=ph, **x), g('fault', k + 1, k + 16, net=net, group='zero', phase=ph, **x), g('fault', k + 11, k + 21, net=net, group='edit', phase=ph, file='lines/', **x), g('fault', k + 11, k + 21, net=net, group='edit', phase=ph, file='dataSources/', **x)]
                J += [g('fault', k + 1 + 2 * i, k + 7 + 2 * i, net=net, group='edit', phase=ph, file=f + '.capnpbin', **x) for i, f in enumerate(('lines', 'paths', 'scenarios', 'agencies', 'services'))]
                J += [g('fault', k + 21, k + 26, net=net, group='ints', phase=ph, file='lines/', fixT=0, **x), g('fault', k + 11, k + 16, net=net, group='ints', phase=ph, file='dataSources/', **x)]
        return run_plan(prop, 'fault', mix(*J), tier, 'The real file readers and the whole start-up and refresh run on a dataset one or two of whose files are damaged in every way of the fault model; then every endpoint is asked.', FAULTB)
    if prop == 'C20':
        for net in ('gen', 'layer'):
            for fwd in (1, 0): J += [g('router', 1, 31, net=net, fwd=fwd, fixT=1, sym=0), g('router', 91, 106, net=net, fwd=fwd, fixT=1, sym=0, streak=1, asks=2), g('router', 106, 114, net=net, fwd=fwd, fixT=1, sym=0, streak=1, asks=6), g('router', 31, 51, net=net, fwd=fwd, faults=2, asks=2, fixT=1, sym=0), g('router', 51, 66, net=net, fwd=fwd, faults=2, asks=1, fixT=1, sym=0), g('router', 66, 81, net=net, fwd=fwd, sym=1), g('router', 81, 91, net=net, fwd=fwd, faults=3, asks=4, fixT=1, sym=0, scen=1)]
        return run_plan(prop, 'router', mix(*J), tier, 'The real OSRM client runs against a scripted router whose replies fail in every way of the fault model at one to three lookups of a sequence of requests; the answers during the faults are classified, those after recovery compared with a server that saw no fault.', ROUTERB, ['the HTTP client library is replaced by a stand-in that hands over status line and body, or throws as the library does when the connection is refused or dropped'])
    P = lambda a, b, **o: gen(prop, R(a, b), t, harness='params', **dict(dict(net='params'), **o))
    J = [P(1, 41, mode='query'), P(1, 26, mode='access'), P(1, 16, mode='summary'), P(41, 61, mode='query', strict=1), P(41, 61, mode='query', strict=1, fwd=0), P(26, 41, mode='access', strict=1), P(16, 22, mode='summary', strict=1), P(1, 21, mode='cache'), P(61, 71, mode='query', free=3), P(71, 81, net='gen', mode='query'), P(81, 91, net='layer', mode='query'), P(91, 96, net='layer', mode='access')] + [P(1 + 30 * i, 25 + 30 * i, net=n, mode=m, forms=1, sym=0) for n in ('gen', 'layer') for i, m in enumerate(('query', 'access', 'summary'))] + [P(70 + 3 * m, 73 + 3 * m, mode=('query', 'access', 'summary')[m % 3], missing=m) for m in range(1, 8)]
    return run_plan(prop, 'params', mix(*J), tier, 'Query strings over the documented parameters, in which the presence, the form and the numeric values of two or three parameters at a time (and the time of the trip) vary symbolically, are classified against an independent reading of the documentation; admissible ones are also compared with the same request with every default and "no limit" written out.', PARAMB)
DISKA = ["the files' bytes reach the fetchers through stand-ins for open(2) and Cap'n Proto's packed stream reader; message layout, list and text access are the library's own, compiled without instrumentation except for the accessors inlined in the fetchers"]
REFRESHB = "Generated networks of 3-10 stops and up to 5 trips; the requested time and one trip (thorough: two) of the old and of the new timetable symbolic (+-240 s, +-300 s); up to 6 requests before and 4 after the refresh; one or two refreshes, also from a custom cache path (and back); new data: another network, changed footpaths, names, modes, agencies, scenarios, or a changed timetable; files missing or unreadable before and after a refresh of all. Outside: refreshes while a request is in flight (excluded by the property)."
FAULTB = "Generated networks of 3-10 stops and up to 5 trips. Faults: any one or two files missing, unreadable or ending early; any one bit of any pointer, data or unused word, one to four zeroed words, any value of any one integer of a list (symbolic), any value of any one character of a text (symbolic); inconsistent identifiers (unknown, malformed, empty, duplicate, not UTF-8), list lengths (one fewer, one more, none), malformed JSON; at start-up, at a refresh of all, and at start-up followed by repaired files and a refresh. Outside: faults inside the packed encoding itself (decoded by Cap'n Proto, which reports them by exception as a file ending early does), messages of more than one segment, more than two damaged files."
ROUTERB = "Generated networks of 3-10 stops; up to 4 requests with one to three faulty lookups among them, or up to 6 requests whose lookups all fail alike, each fault: refused, 9 statuses with 3 bodies, 18 bodies that are no table, a reply cut at every byte, 15 JSON values in place of durations, distances or both, null, wrong, missing and surplus entries at every position. Outside: a router that never answers (the client has no time limit), concurrent requests."
PARAMB = "Families with concrete numbers exhaust the combinations of forms of two parameters. Presence and form (absent, well-formed, 9 malformed numbers, 4 huge numbers, 14 malformed coordinates, 5 malformed and one unknown scenario, repeated parameters) of two or three parameters at a time, every integer value of +-2^40 for each numeric parameter (extreme values otherwise), on networks whose walks and waits surround the default limits; each kind of data missing in turn; /updateCache with up to 3 known or unknown names and 8 paths. Unspecified, hence accepted either way: numbers with exponents or a leading plus, other spellings of a uuid, which of two repeated values counts, unknown time_type values, which of several defects is named."
def disk_plan(tier, seed):
    t, R, sym, n = scale(tier, seed); J = []; A = {1: 'C03', 0: 'C04'}; M = {1: 'C08', 0: 'C09'}
    g = lambda h, p, a, b, **o: gen(p, R(a, b), t, harness=h, text=1, **dict(o, **sym))
    for f in (1, 0):
        J += [fixed(A[f], ['pair', 'chain', 'tri'], 8 * n, harness='route', fwd=f, lim='w', text=1)]
        J += [g('route', A[f], 300 + 20 * i, 318 + 20 * i, net='gen', fwd=f, scen=3, pair=k) for i, k in enumerate((2, 7, 11))]  # only and except of the same kind
        for net in ('gen', 'layer'):
            J += [g('route', A[f], 1, 30, net=net, fwd=f), g('route', 'C01', 30, 60, net=net, fwd=f, special=1), g('access', M[f], 60, 90, net=net, fwd=f), g('route', A[f], 91, 121, net=net, fwd=f, scen=3), g('route', A[f], 115, 140, net=net, fwd=f, scen=2), g('access', M[f], 140, 160, net=net, fwd=f, scen=2, lim='m'), g('reason', 'C07', 160, 180, net=net, fwd=f, lim='w'),
                  g('route', 'C06', 180, 200, net=net, fwd=f), g('route', 'C01', 200, 215, net=net, fwd=f, alt=1, scen=1), g('access', M[f], 215, 225, net=net, fwd=f, base=86400), g('route', A[f], 225, 240, net=net, fwd=f, base=900, walks=2, lim='ae')]
    return run_plan('C16', '', mix(*J), tier, 'The dataset is serialised to the Cap\'n Proto schemas of the working tree and read back by the real fetchers; the answers are compared with the oracles of C01, C03, C04, C06, C07, C08 and C09 on the abstract dataset, and names, codes, identifiers, coordinates and distances with those of the dataset.', NETB + ' Encoding variants: one or two periods per service, empty schedules, optional fields filled or absent, optional files present or absent.')
GUARD = 'TRROUTING_VERIF'
HOOK_COMMITS = []
TECH = 'symbolic execution of the compiled code (LLVM IR of /repo), path conditions and assertions decided by an SMT solver'
NOTE = 'Bounded: every path of the real loading, routing and response code within the stated networks and symbolic ranges is decided by the solver for all values; the networks themselves are a fixed, seeded set. '
CLAIMED = {p: dict(technique=TECH, level='other', note=NOTE) for p in ['C%02d' % i for i in range(1, 21)]}
NOT_CLAIMED = {}
