"""records which contracts are discharged on the current tree: run on the unchanged tree only.   make_baseline.py [SPEC or PROP ...]"""
import concurrent.futures as cf, json, os, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = [l.split() for l in subprocess.run(['python3-vt', '-B', '-m', 'pvc.run', '--list'], cwd=H, stdout=subprocess.PIPE).stdout.decode().split('\n') if l]
f = H + '/baseline.json'
base = json.load(open(f))
want = sys.argv[1:]
base = {s: b for s, b in base.items() if s in dict(L)}
LIM = os.environ.get('LIMIT', '100')
def one(x):
    o = tempfile.mktemp()
    subprocess.run(['python3-vt', '-B', '-m', 'pvc.run', x[0], o, LIM, 'all'], cwd=H, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    d = json.load(open(o)); os.remove(o)
    return x, d
with cf.ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
    for x, d in ex.map(one, [x for x in L if not want or x[0] in want or x[0].split('/')[0] in want]):
        un = d[0]['mode'] == 'unbounded' and d[0]['status'] == 'proved'
        bo = [r for r in d if r['mode'] != 'unbounded']
        if un or (bo and all(r['status'] == 'proved' for r in bo)):
            good = [r['mode'] for r in bo if r['status'] == 'proved']
            base[x[0]] = {'refuting': good, 'mode': 'unbounded' if un else 'bounded', 'props': x[1].split(','), 'obligations': len(d[0]['obligations']) if un else sum(len(r['obligations']) for r in bo), 'wall_s': round(d[0]['wall_s'] if un else sum(r['wall_s'] for r in d), 1)}
        else:
            base.pop(x[0], None)
        print(x[0], [(r['mode'], r['status'], r['error'][:100], r['wall_s']) for r in d], flush=True)
json.dump(dict(sorted(base.items())), open(f, 'w'), indent=1)
