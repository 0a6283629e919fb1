#!/usr/bin/env python3
# Development aid: mutate files of /repo through build overlays (the tree itself is not touched), keep mutants that
# build and pass the stable tests, and run the checks of the mutated package on them. Usage:
#   sweep.py OUT.jsonl PER_FILE SEED [file ...]
import json, os, random, subprocess, sys, threading, queue, re, shutil
out, per, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
repo = os.environ.get('SNAP', '/tmp/mut') + '/repo' # snapshots of /repo and /verif/mc (go.mod replacing to the snapshot)
files = sys.argv[4:] or subprocess.run("find . -name '*.go' ! -name '*_test.go' | sed 's#^./##'", shell=True, cwd=repo, capture_output=True, text=True).stdout.split()
MAP = [
 ('base/matrix', 'C35 C10 C12 C19 C05'), ('base/optimizers', 'C33 C26 C28 C32'), ('base/activation', 'C33 C26'), ('base/', 'C35 C05 C33'),
 ('cluster/kmeans', 'C15'), ('cluster/', 'C14 C15'), ('datasets/octave', 'C37'), ('datasets/', 'C36 C37'),
 ('gaussian_process/', 'C31'), ('interpolate/', 'C34'),
 ('linear_model/Base', 'C26 C28 C27'), ('linear_model/bayes', 'C26'), ('linear_model/logistic', 'C28'), ('linear_model/loss', 'C26 C28'),
 ('linear_model/', 'C27 C26'), ('metrics/ranking', 'C17'), ('metrics/regression', 'C18'), ('metrics/', 'C16 C17 C18'),
 ('model_selection/search', 'C07'), ('model_selection/', 'C05 C06 C07'), ('naive_bayes', 'C29 C20'),
 ('neighbors/kdtree', 'C12'), ('neighbors/', 'C12 C13'), ('neural_network/', 'C32 C33'), ('pipeline', 'C08'),
 ('preprocessing/label', 'C21 C22'), ('preprocessing/pca', 'C25'), ('preprocessing/itertools', 'C23'),
 ('preprocessing/discret', 'C22'), ('preprocessing/imput', 'C22'), ('preprocessing/', 'C19 C20 C21 C22 C23 C24 C25'), ('svm/', 'C30'),
]
CROSS = ['C09', 'C10', 'C11']
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
random.seed(seed)
todo = []
for f in files:
    ms = [json.loads(l) for l in subprocess.run(['/tmp/mutate', f], cwd=repo, capture_output=True, text=True).stdout.splitlines()]
    random.shuffle(ms)
    todo += ms[:per]
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d['File'], d['Off'], d['New']))
todo = [m for m in todo if (m['File'], m['Off'], m['New']) not in done]
random.shuffle(todo)
q = queue.Queue()
for m in todo: q.put(m)
lock = threading.Lock()
SKIP = '^(TestLoadOctaveBin|ExampleLoadMnist|ExampleBaseMultilayerPerceptron32_Fit_mnist|ExampleMLPClassifier_Fit_mnist|ExampleMLPClassifier_Predict_mnist)$'
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GO111MODULE='on')
env['PATH'] = '/usr/local/go/bin:' + env['PATH']
def sh(cmd, cwd, t, **kw):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(env, **kw), start_new_session=True)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate()
        return 124, ''
def passed(o):
    s = set()
    for l in o.splitlines():
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('Action') == 'pass' and d.get('Test'): s.add(d['Package'] + '/' + d['Test'])
    return s
def one(m, w):
    d = f'/tmp/mut/{w}'; os.makedirs(d + '/v', exist_ok=True); os.makedirs(d + '/t', exist_ok=True)
    shutil.copy('/verif/known_findings.txt', d + '/v/')
    src = open(f'{repo}/{m["File"]}', 'rb').read()
    src = src[:m['Off']] + m['New'].encode() + src[m['Off'] + m['Len']:]
    open(d + '/x.go', 'wb').write(src)
    json.dump({'Replace': {f'{repo}/{m["File"]}': d + '/x.go'}}, open(d + '/o.json', 'w'))
    ov = '-overlay=' + d + '/o.json'
    pkg = './' + os.path.dirname(m['File'])
    rc, o = sh(['go', 'build', ov, './...'], repo, 120)
    if rc: return 'nobuild'
    full = 'github.com/pa-m/sklearn/' + os.path.dirname(m['File'])
    rc, o = sh(['go', 'test', ov, '-json', '-vet=off', '-count=1', '-timeout', '60s', '-skip', SKIP, pkg], repo, 90)
    p = passed(o)
    if [t for t in stable if t.rsplit('/', 1)[0] == full and t not in p]: return 'tests'
    rc, o = sh(['go', 'test', ov, '-json', '-vet=off', '-timeout', '60s', '-skip', SKIP, './...'], repo, 200)
    p |= passed(o)
    if [t for t in stable if t not in p]: return 'tests'
    rc, o = sh(['go', 'build', ov, '-tags', 'all', '-o', d + '/mc', '.'], os.path.dirname(repo) + '/mc', 200)
    if rc: return 'mcbuild'
    ids = next(v for k, v in MAP if m['File'].startswith(k)).split()
    for i in ids + [c for c in CROSS if c not in ids]:
        rc, o = sh([d + '/mc', 'run', i, 'quick'], os.path.dirname(repo) + '/mc', 400, VERIF_DIR=d + '/v', TMPDIR=d + '/t')
        if rc == 1 and 'VIOLATION property=' + i in o: return 'caught ' + i
        if rc == 124: return 'timeout ' + i
        if rc: return f'rc{rc} {i} ' + o[-200:]
    return 'SURVIVED'
def work(w):
    while True:
        try: m = q.get_nowait()
        except queue.Empty: return
        try: r = one(m, w)
        except Exception as e: r = 'error ' + repr(e)
        m['Result'] = r
        with lock:
            open(out, 'a').write(json.dumps(m) + '\n')
ts = [threading.Thread(target=work, args=(i,)) for i in range(int(os.environ.get('W', '4')))]
[t.start() for t in ts]; [t.join() for t in ts]
