#!/usr/bin/env python3
"""run.py MUTS.jsonl OUT.jsonl [substring of file]: applies each change to a copy of /repo, and if it compiles and the tests
pass runs the checks of the file. Prints those that no check catches."""
import json, os, subprocess, sys, shutil, threading, queue, time, random
AN = os.environ.get('AN', '/tmp/an')
ms = [json.loads(l) for l in open(sys.argv[1])]
out = open(sys.argv[2], 'a')
done = set()
for l in open(sys.argv[2]):
    d = json.loads(l); done.add((d['File'], d['Start'], d['End'], d['Text']))
sub = sys.argv[3] if len(sys.argv) > 3 else ''
W = int(os.environ.get('W', '8'))
G = [('blockcache/', ['C41,C01,C02,C03,C04,C05,C06,C07', 'C08']),
     ('basicstream/', ['C41,C09,C10,C11,C12,C13,C14,C15']),
     ('driver/', ['C41,C44,C16,C17,C19,C20,C21,C22,C24', 'C18,C23,C42']),
     ('fat8/', ['C41,C44,C25,C26,C27,C28,C29']),
     ('fat/', ['C41,C44,C30,C31,C32', 'C49,C51,C34', 'C33', 'C50']),
     ('unixv6/', ['C35,C41']), ('compression/', ['C36,C37,C38,C39,C46,C41']),
     ('cmd/', ['C45']), ('errors.go', ['C40,C41']), ('disks/', ['C43,C41']),
     ('common/', ['C01,C03,C04,C06,C08,C11,C12,C24,C25,C34,C44']),
     ('', ['C40,C42,C43,C44', 'C16,C19,C20,C09,C24'])]
def groups(f):
    for k, g in G:
        if k in f: return g
env = dict(os.environ, GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOSUMDB='off')
aenv = dict(env, GOMAXPROCS='1', GOGC='400')
q = queue.Queue()
for m in ms:
    if sub in m['File'] and (m['File'], m['Start'], m['End'], m['Text']) not in done: q.put(m)
print(q.qsize(), 'to do', flush=True)
lock = threading.Lock()
def work(i):
    d = f'/tmp/am/w{i}'
    shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo', d, symlinks=True)
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        p = os.path.join(d, m['File']); s = open('/repo/' + m['File'], 'rb').read()
        open(p, 'wb').write(s[:m['Start']] + m['Text'].encode() + s[m['End']:])
        r, t0 = '', time.time()
        try:
            if subprocess.run(['go', 'build', './...'], cwd=d, env=env, capture_output=True, timeout=120).returncode: r = 'nobuild'
            elif subprocess.run(['go', 'test', '-vet=off', '-timeout', '20s', './...'], cwd=d, env=env, capture_output=True, timeout=120).returncode: r = 'test'
            else:
                r = 'MISSED'
                for g in groups(m['File']):
                    x = subprocess.run([AN, '-repo', d, '-check', g, '-known', '/verif/known_findings.txt'], env=aenv, capture_output=True, text=True, timeout=400)
                    if 'VIOLATION' in x.stdout:
                        r = 'caught ' + [l for l in x.stdout.split('\n') if 'VIOLATION' in l][0].split('property=')[1][:3]; break
                    if x.returncode: r = 'ERROR ' + x.stderr[-200:]; break
        except subprocess.TimeoutExpired as e: r = 'timeout ' + str(e.cmd[0])
        open(p, 'wb').write(s)
        m['Result'] = r; m['Time'] = round(time.time() - t0, 1)
        with lock:
            out.write(json.dumps(m) + '\n'); out.flush()
            if r not in ('nobuild', 'test') and not r.startswith('caught'): print(r, m['Desc'][:300].replace('\n', ' '), '->', m['Text'][:60], flush=True)
ts = [threading.Thread(target=work, args=(i,)) for i in range(W)]
for t in ts: t.start()
for t in ts: t.join()
shutil.rmtree('/tmp/am', ignore_errors=True)
print('DONE', flush=True)
