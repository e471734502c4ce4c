#!/usr/bin/env python3
"""Tries small source changes (tools/mutate) against the checks of their file; prints the survivors.

usage: mutants.py OUT.jsonl WORKERS STEP:OFFSET [FILE...]     (not used by any check)
"""
import json, os, re, subprocess, sys, threading, queue, time, random
MAP = {
 'buffers.go': 'C11 C31', 'codecs.go': 'C30 C20', 'dtmf/dtmf.go': 'C23 C24', 'dump.go': 'C28', 'g711/alaw.go': 'C26 C27',
 'g711/ulaw.go': 'C26 C27 C28', 'g711/g711.go': 'C26 C27', 'g722/g722.go': 'C27 C28', 'jitter/buffer.go': 'C05 C06 C07 C08 C19', 'jitter/packet.go': 'C05 C06 C07',
 'media.go': 'C31 C10 C28', 'mixer/mixer.go': 'C02 C03 C04', 'opus/opus.go': 'C27 C28', 'pcm.go': 'C31 C25', 'pipe.go': 'C09',
 'resample.go': 'C12', 'resample_soxr.go': 'C12', 'ring/buffer.go': 'C01', 'rtp/codecs.go': 'C30 C27', 'rtp/jitter.go': 'C19', 'rtp/listen.go': 'C29',
 'rtp/mux.go': 'C18', 'rtp/rtp.go': 'C14 C13 C19 C24', 'rtp/session.go': 'C15 C16', 'rtp/media.go': 'C27', 'sdp/codecs.go': 'C20 C30', 'sdp/helpers.go': 'C20 C22',
 'sdp/offer.go': 'C20 C21 C22', 'srtp/srtp.go': 'C17 C21', 'tones/tones.go': 'C25', 'webm/writer.go': 'C28', 'processor.go': '', 'res/embed.go': 'C33',
}
out, workers, so = sys.argv[1], int(sys.argv[2]), sys.argv[3]
step, offs = map(int, so.split(':'))
files = sys.argv[4:] or list(MAP)
done = set()
if os.path.exists(out):
    for l in open(out):
        r = json.loads(l); done.add((r['file'], r['idx']))
q = queue.Queue(); jobs = []
for f in files:
    for l in subprocess.run(['/tmp/mut/mutate', '/repo/' + f], stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines():
        i, line, what = l.split('\t', 2)
        if int(i) % step != offs or (f, int(i)) in done: continue
        jobs.append((f, int(i), int(line), what))
random.Random(1).shuffle(jobs)
for j in jobs: q.put(j)
lock = threading.Lock()
def sh(cmd, cwd, timeout, env=None):
    e = dict(os.environ, **(env or {}))
    p = subprocess.Popen(['bash', '-c', cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, start_new_session=True)
    try: o, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); o, _ = p.communicate(); return -9, o.decode(errors='replace')
    return p.returncode, o.decode(errors='replace')
def work(w):
    d = f'/tmp/mut/w{w}'
    subprocess.run(['mkdir', '-p', d + '/verif']); subprocess.run(['rsync', '-a', '--delete', '/repo', d] if False else ['cp', '-a', '/repo', d])
    for x in ['run.sh', 'vmc', 'known_findings.txt', 'MANIFEST.json', 'tools']: subprocess.run(['cp', '-a', '/verif/' + x, d + '/verif/'])
    subprocess.run(['mkdir', '-p', d + '/verif/evidence'])
    while True:
        try: f, i, line, what = q.get_nowait()
        except queue.Empty: return
        t = time.time()
        src = subprocess.run(['/tmp/mut/mutate', '/repo/' + f, str(i)], stdout=subprocess.PIPE).stdout
        open(f'{d}/repo/{f}', 'wb').write(src)
        res, why = 'survived', ''
        rc, o = sh('. /opt/vp/env.sh; ${GO:-go} vet ./... 2>&1 | grep -v "^#" | head -3; ${GO:-go} build ./...', d + '/repo', 300)
        if rc != 0: res = 'nobuild'
        else:
            for c in MAP[f].split():
                rc, o = sh(f'nice -n 19 ./run.sh {c} -repo {d}/repo', d + '/verif', 500, {'VMC_FIRST': '1'})
                if rc == 1: res = 'caught'; why = c + ' ' + ' '.join(x for x in o.splitlines() if x.startswith(('FIRST', 'VIOLATION')))[:200]; break
                if rc != 0: why += f' {c}:rc{rc} ' + o[-200:]
            if res == 'survived':
                for _ in range(5):  # some are sensitive to load
                    rc, o = sh('. /opt/vp/env.sh; ${GO:-go} test -count=1 ./... 2>&1 | grep -E "^(---|FAIL|panic)" | head -3', d + '/repo', 300)
                    if 'FAIL' not in o: break
                if 'FAIL' in o or 'panic' in o: res = 'tests'
        subprocess.run(['cp', '-a', '/repo/' + f, f'{d}/repo/{f}'])
        with lock:
            open(out, 'a').write(json.dumps(dict(file=f, idx=i, line=line, what=what, res=res, why=why, t=round(time.time() - t, 1))) + '\n')
ts = [threading.Thread(target=work, args=(w,)) for w in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
