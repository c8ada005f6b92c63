"""Black-box demonstration kit: writes a cache directory, runs the built server on it, sends requests.
Everything is kept in a scratch directory that is removed at the end."""
import json, os, shutil, signal, socket, subprocess, sys, tempfile, threading, time, urllib.request, urllib.error, urllib.parse
REPO = os.getcwd(); K = {'agency': 1, 'service': 2, 'line': 3, 'stop': 4, 'path': 5, 'trip': 6, 'scenario': 7, 'source': 8}
def uid(k, i): return '%x0000000-0000-4000-8000-0000000000%02x' % (K[k], i)
def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
def txt(v):
    if isinstance(v, dict): return '(' + ', '.join('%s = %s' % (k, txt(x)) for k, x in v.items()) + ')'
    if isinstance(v, (list, tuple)): return '[' + ', '.join(txt(x) for x in v) + ']'
    if isinstance(v, str): return q(v)
    return str(v)
class Data:
    def __init__(s): s.agencies = []; s.services = []; s.stops = []; s.lines = []; s.paths = []; s.trips = []; s.scenarios = []; s.sources = []
    def agency(s): s.agencies.append(0); return len(s.agencies) - 1
    def service(s): s.services.append(0); return len(s.services) - 1
    def stop(s, lat=45.5, lon=-73.5): s.stops.append(dict(lat=lat, lon=lon, foot=[])); i = len(s.stops) - 1; s.foot(i, i, 0, 0); return i
    def foot(s, a, b, t, d): s.stops[a]['foot'].append((b, t, d))
    def line(s, agency=0, mode='bus', same=0): s.lines.append(dict(agency=agency, mode=mode, same=same)); return len(s.lines) - 1
    def path(s, line, stops, dist=None): s.paths.append(dict(line=line, stops=stops, dist=dist or [500 + k for k in range(len(stops) - 1)])); return len(s.paths) - 1
    def trip(s, path, arr, dep, service=0, board=None, unboard=None, period=0):
        n = len(arr); b = board or [1] * (n - 1) + [0]; u = unboard or [0] + [1] * (n - 1)
        s.trips.append(dict(path=path, service=service, arr=arr, dep=dep, board=b, unboard=u, period=period)); return len(s.trips) - 1
    def scenario(s, services=(0,), **k): s.scenarios.append(dict(services=list(services), **k)); return len(s.scenarios) - 1
    def basics(s): s.agency(); s.service(); s.scenario(); return s
    def write(s, d):
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/nodes'); os.makedirs(d + '/lines')
        def put(f, schema, typ, v):
            p = subprocess.run(['capnp', 'convert', 'text:packed', REPO + '/include/capnp/%s.capnp' % schema, typ], input=txt(v).encode(), stdout=subprocess.PIPE, check=True); open(d + '/' + f, 'wb').write(p.stdout)
        U = lambda k, l: [uid(k, i) for i in l]
        put('agencies.capnpbin', 'agencyCollection', 'AgencyCollection', {'agencies': [dict(uuid=uid('agency', i), acronym='AG%d' % i, name='Agency %d' % i) for i in range(len(s.agencies))]})
        put('services.capnpbin', 'serviceCollection', 'ServiceCollection', {'services': [dict(uuid=uid('service', i), name='service %d' % i) for i in range(len(s.services))]})
        put('nodes.capnpbin', 'nodeCollection', 'NodeCollection', {'nodes': [dict(uuid=uid('stop', i), id=i + 1, code='S%d' % i, name='stop %d' % i, latitude=round(x['lat'] * 1e6), longitude=round(x['lon'] * 1e6)) for i, x in enumerate(s.stops)]})
        for i, x in enumerate(s.stops): put('nodes/node_%s.capnpbin' % uid('stop', i), 'node', 'Node', dict(uuid=uid('stop', i), id=i + 1, code='S%d' % i, name='stop %d' % i, transferableNodesUuids=[uid('stop', f[0]) for f in x['foot']], transferableNodesTravelTimes=[f[1] for f in x['foot']], transferableNodesDistances=[f[2] for f in x['foot']]))
        put('lines.capnpbin', 'lineCollection', 'LineCollection', {'lines': [dict(uuid=uid('line', i), agencyUuid=uid('agency', x['agency']), mode=x['mode'], shortname='L%d' % i, longname='Line %d' % i, allowSameLineTransfers=x['same']) for i, x in enumerate(s.lines)]})
        put('paths.capnpbin', 'pathCollection', 'PathCollection', {'paths': [dict(uuid=uid('path', i), lineUuid=uid('line', x['line']), nodesUuids=U('stop', x['stops']), data=json.dumps({'segments': [dict(distanceMeters=m, travelTimeSeconds=60) for m in x['dist']]})) for i, x in enumerate(s.paths)]})
        put('scenarios.capnpbin', 'scenarioCollection', 'ScenarioCollection', {'scenarios': [dict(uuid=uid('scenario', i), name='sc%d' % i, servicesUuids=U('service', x['services']), onlyLinesUuids=U('line', x.get('onlyLines', [])), exceptLinesUuids=U('line', x.get('exceptLines', [])), onlyAgenciesUuids=U('agency', x.get('onlyAgencies', [])), exceptAgenciesUuids=U('agency', x.get('exceptAgencies', [])), onlyModesShortnames=x.get('onlyModes', []), exceptModesShortnames=x.get('exceptModes', [])) for i, x in enumerate(s.scenarios)]})
        if s.sources: put('dataSources.capnpbin', 'dataSourceCollection', 'DataSourceCollection', {'dataSources': [dict(uuid=uid('source', i), name='source', shortname='source') for i in range(len(s.sources))]})
        for l, x in enumerate(s.lines):
            sch = []
            for sv in range(len(s.services)):
                ts = [(t['period'], dict(uuid=uid('trip', i), pathUuid=uid('path', t['path']), departureTimeSeconds=t['dep'][0], arrivalTimeSeconds=t['arr'][-1], nodeArrivalTimesSeconds=t['arr'], nodeDepartureTimesSeconds=t['dep'], nodesCanBoard=t['board'], nodesCanUnboard=t['unboard'])) for i, t in enumerate(s.trips) if s.paths[t['path']]['line'] == l and t['service'] == sv]
                if ts: sch.append(dict(uuid=uid('service', sv), serviceUuid=uid('service', sv), periods=[dict(periodShortname='p%d' % k, trips=[x for c, x in ts if c == k]) for k in range(max(c for c, x in ts) + 1)]))
            put('lines/line_%s.capnpbin' % uid('line', l), 'line', 'Line', dict(uuid=uid('line', l), mode=x['mode'], schedules=sch))
        return d
class Server:
    """runs the built server; args: extra command-line options"""
    def __init__(s, d, *args, euclid=True):
        x = socket.socket(); x.bind(('127.0.0.1', 0)); s.port = x.getsockname()[1]; x.close()
        exe = REPO + '/src/trRouting'
        s.log = tempfile.TemporaryFile(); s.p = subprocess.Popen([exe, '--port=%d' % s.port, '--cachePath=' + d] + (['--useEuclideanDistance=1'] if euclid else []) + list(args), stdout=s.log, stderr=s.log)
        for _ in range(200):
            if s.p.poll() is not None: break
            try: socket.create_connection(('127.0.0.1', s.port), 1).close(); break
            except OSError: time.sleep(0.05)
    def raw(s, path, timeout=20):
        try:
            with urllib.request.urlopen('http://127.0.0.1:%d%s' % (s.port, path), timeout=timeout) as r: return r.status, r.read().decode()
        except urllib.error.HTTPError as e: return e.code, e.read().decode()
        except Exception as e: return 0, repr(e)
    def get(s, ep, timeout=20, **k):
        c, b = s.raw(ep + '?' + urllib.parse.urlencode(k, safe=','), timeout)
        try: return json.loads(b)
        except ValueError: return {'status': 'unreadable', 'code': c, 'body': b}
    def route(s, T, scen=0, o='-73.5,45.5', d='-73.4,45.5', ep='/v2/route', timeout=20, **k): return s.get(ep, timeout, **dict(dict(origin=o, destination=d, scenario_id=uid('scenario', scen), time_of_trip=T), **k))
    def access(s, T, scen=0, place='-73.5,45.5', **k): return s.get('/v2/accessibility', **dict(dict(place=place, scenario_id=uid('scenario', scen), time_of_trip=T), **k))
    def alive(s): return s.p.poll() is None
    def stop(s):
        s.p.kill(); s.p.wait()
    def __enter__(s): return s
    def __exit__(s, *a): s.stop()
_tmp = []
def scratch():
    d = tempfile.mkdtemp(prefix='demo'); _tmp.append(d); return d
def finish(ok, what=''):
    for d in _tmp: shutil.rmtree(d, ignore_errors=True)
    print('ok' if ok else 'BROKEN: ' + str(what)); sys.exit(0 if ok else 1)
