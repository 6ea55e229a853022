#!/usr/bin/env python3
"""Builds the explorer with every mutant (by overlay; /repo is not touched) and
hunts for a violation. usage: run.py MUTANTS.jsonl OUT.jsonl [SCRATCH]
Development aid; see DESIGN.md."""
import json, os, subprocess, sys, multiprocessing, shutil

scratch = sys.argv[3] if len(sys.argv) > 3 else '/tmp/mut'
REPO, MC = os.environ.get('MUT_REPO', '/repo'), os.environ.get('MUT_MC', '/verif/mc')
LEX = 'C06 C07 C08 C09 C10 C11 C24 C23 C05 C18 C19'.split()
EXP = 'C02 C14 C13 C15 C12 C04 C05 C25 C18 C17 C01'.split()
STM = 'C03 C05 C13 C04 C18 C12 C25 C17 C01'.split()
AST = 'C17 C02 C03 C13 C15 C16 C14 C07 C08 C09'.split()
ALL = ['C%02d' % i for i in range(1, 26) if i not in (20, 21, 22)]
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOMAXPROCS='1')
MS = os.environ.get('HUNT_MS', '150')

PICK = """package %s

%s
func picktoken(g bool, a, b TYPE) TYPE {
	if g {
		return a
	}
	return b
}

func picknumber(g bool, a, b int) int {
	if g {
		return a
	}
	return b
}

func pickchar(g bool, a, b rune) rune {
	if g {
		return a
	}
	return b
}
"""

def pick(d):
    p = os.path.basename(d)
    if p == 'lexer': return (PICK % (p, '')).replace('TYPE', 'TokenType')
    return (PICK % (p, 'import "github.com/jchv/cleansheets/ecmascript/lexer"\n')).replace('TYPE', 'lexer.TokenType')

def order(f):
    if '/lexer/' in f: first = LEX
    elif '/ast/' in f: first = AST
    elif 'module' in f: first = ['C16', 'C04', 'C18', 'C12', 'C17']
    elif 'statement' in f or 'declaration' in f or 'script' in f: first = STM
    else: first = EXP
    return first + ([x for x in ALL if x not in first] if 'HUNT_ALL' in os.environ else [])

def work(job):
    i, m = job
    w = f'{scratch}/{os.getpid()}'
    os.makedirs(w, exist_ok=True)
    b = open(f'{REPO}/{m["file"]}', 'rb').read()
    open(w + '/m.go', 'wb').write(b[:m['Start']] + m['text'].encode() + b[m['End']:])
    over = {f'{REPO}/{m["file"]}': w + '/m.go'}
    if m['kind'].startswith('guarded'):
        # Guarded mutants: the change applies only while a condition holds.
        d = os.path.dirname(m['file'])
        open(w + '/pick.go', 'w').write(pick(d))
        over[f'{REPO}/{d}/zz_pick.go'] = w + '/pick.go'
    json.dump({'Replace': over}, open(w + '/o.json', 'w'))
    r = subprocess.run(['go', 'build', '-ldflags=-s -w', '-overlay', w + '/o.json', '-o', w + '/mc', './cmd/mc'], cwd=MC, env=env, capture_output=True, text=True)
    m['i'] = i
    if r.returncode:
        m['result'] = 'no build'
        return m
    try:
        r = subprocess.run([w + '/mc', 'hunt', MS] + (os.environ['HUNT_IDS'].split() if 'HUNT_IDS' in os.environ else order(m['file'])), cwd=w, env=env, capture_output=True, text=True, timeout=int(os.environ.get('HUNT_TIMEOUT', '60')), errors='replace')
        m['result'] = 'survived' if r.returncode == 0 else 'killed: ' + (r.stdout.strip() or r.stderr.strip().split('\n')[0])[:300]
    except subprocess.TimeoutExpired:
        m['result'] = 'survived: out of time'
    if m['result'].startswith('survived'):
        try:
            r = subprocess.run(['go', 'test', '-overlay', w + '/o.json', './ecmascript/...'], cwd=REPO, env=env, capture_output=True, text=True, timeout=100)
            if r.returncode: m['result'] = 'killed by tests'
        except subprocess.TimeoutExpired:
            m['result'] = 'killed by tests'
    return m

if __name__ == '__main__':
    ms = [json.loads(l) for l in open(sys.argv[1])]
    done = set()
    if os.path.exists(sys.argv[2]):
        done = {json.loads(l)['i'] for l in open(sys.argv[2])}
    jobs = [(i, m) for i, m in enumerate(ms) if i not in done]
    out = open(sys.argv[2], 'a')
    with multiprocessing.Pool(int(os.environ.get('HUNT_JOBS', '7'))) as p:
        for m in p.imap_unordered(work, jobs):
            out.write(json.dumps(m) + '\n'); out.flush()
    shutil.rmtree(scratch, ignore_errors=True)
