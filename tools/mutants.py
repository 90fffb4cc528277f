"""usage: mutants.py file.py checks [names...] : every mutant of the file (list M of
(name, file, old, new) or (name, [(file, old, new), ..])) is applied to a scratch
copy of /repo and the named checks are run on the copy, W mutants at a time."""
import sys, subprocess, os, shutil, threading, queue
W = int(os.environ.get("W", "3"))
mfile, checks, only = sys.argv[1], sys.argv[2].split(','), sys.argv[3:]
M = []
exec(open(mfile).read())
q = queue.Queue()
for m in M:
    if not only or m[0] in only:
        q.put(m)
lock = threading.Lock()


def worker(k):
    d = '/tmp/mw%d-%d' % (os.getpid(), k)
    subprocess.run(['cp', '-a', os.environ.get('SRC', '/repo'), d], check=True)
    env = dict(os.environ, VERIF_REPO=d, VERIF_OUT=d + '.out')
    try:
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            name = m[0]
            edits = m[1] if len(m) == 2 else [m[1:]]
            saved, r = {}, []
            try:
                for f, old, new in edits:
                    p = d + '/' + f
                    s = open(p).read()
                    saved.setdefault(p, s)
                    if old not in s:
                        r.append('NOT FOUND in ' + f)
                    open(p, 'w').write(s.replace(old, new, 1))
                if not r:
                    b = subprocess.run('go build ./...', shell=True, cwd=d, capture_output=True, text=True,
                                       env=dict(env, CGO_ENABLED='0', GOFLAGS='-mod=mod'))
                    if b.returncode:
                        r.append('BUILD FAIL ' + b.stderr[:300])
                if not r:
                    for c in checks:
                        o = subprocess.run([os.path.join(os.getcwd(), 'check'), c], env=env, capture_output=True, text=True)
                        r.append('%s:%d' % (c, o.returncode))
                        if o.returncode == 2:
                            r.append(o.stdout[-1500:] + o.stderr[-500:])
            finally:
                for p, s in saved.items():
                    open(p, 'w').write(s)
            with lock:
                print(name, ' '.join(r), flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '.out', ignore_errors=True)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(W)]
[t.start() for t in ts]
[t.join() for t in ts]
