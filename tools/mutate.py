#!/usr/bin/env python3
"""Mutation sweep: applies one small source change at a time to a scratch copy of /repo and runs every generator with
every oracle (check ALL). Survivors are where the checks may be blind. Usage: mutate.py OUT.jsonl [files...]"""
import sys, os, re, json, subprocess, shutil, random, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('MUT_REPO', '/repo')
CASES = os.environ.get('MUT_CASES', '3000')
FRACTION = float(os.environ.get('MUT_FRACTION', '1'))
FILES = ['circular_buffer.c', 'pub.c', 'sub.c', 'rmc_connection.c', 'rmc_protocol.c', 'rmc_pub_context.c', 'rmc_pub_packet.c', 'rmc_pub_read.c', 'rmc_pub_timeout.c', 'rmc_pub_write.c',
         'rmc_sub_context.c', 'rmc_sub_packet.c', 'rmc_sub_read.c', 'rmc_sub_timeout.c', 'rmc_sub_write.c', 'rmc_list_template.h', 'rmc_log.c', 'rmc_internal.h', 'rmc_protocol.h']

def strip(src):
    """Blanks comments and strings, keeping positions."""
    out = list(src)
    i = 0
    while i < len(src):
        if src.startswith('//', i):
            j = src.find('\n', i); j = len(src) if j < 0 else j
        elif src.startswith('/*', i):
            j = src.find('*/', i) + 2
        elif src[i] == '"':
            j = i + 1
            while src[j] != '"': j += 2 if src[j] == '\\' else 1
            j += 1
        elif src[i] == "'":
            j = i + 1
            while src[j] != "'": j += 2 if src[j] == '\\' else 1
            j += 1
        else:
            i += 1; continue
        for k in range(i, j):
            if out[k] != '\n': out[k] = ' '
        i = j
    return ''.join(out)

def mutants(f):
    src = open(os.path.join(R, f)).read()
    s = strip(src)
    # log statements do not count
    for m in re.finditer(r'RMC_LOG\w*\s*\(', s):
        d, k = 0, m.end() - 1
        while True:
            d += s[k] == '('; d -= s[k] == ')'
            k += 1
            if not d: break
        s = s[:m.start()] + ''.join(c if c == '\n' else ' ' for c in s[m.start():k]) + s[k:]
    res = []
    def add(a, b, new, what): res.append((f, a, b, new, what))
    for m in re.finditer(r'(?<![-<>=!+*/&|])(<=|>=|==|!=|<(?![<=])|>(?![>=]))', s):
        line = s[s.rfind('\n', 0, m.start()) + 1: s.find('\n', m.start())]
        if line.lstrip().startswith('#'): continue
        if m.group() in '<>' and s[m.start() - 1] == '-': continue
        for n in {'<': ['<='], '<=': ['<'], '>': ['>='], '>=': ['>'], '==': ['!='], '!=': ['==']}[m.group()]:
            add(m.start(), m.end(), n, f'{m.group()} to {n}')
    for m in re.finditer(r'&&|\|\|', s): add(m.start(), m.end(), '||' if m.group() == '&&' else '&&', 'and/or')
    for m in re.finditer(r'(?<=[\w\)\]]) ([-+]) (?=[\w\(])', s): add(m.start(1), m.end(1), '-' if m.group(1) == '+' else '+', 'plus/minus')
    for m in re.finditer(r'(?<=[\w\)\]])\s*([-+]) ?1\b', s): add(m.start(1), m.end(), '', 'drop +-1')
    for m in re.finditer(r'(?<![\w.\[])(\d+)\b(?!\.)', s):
        line = s[s.rfind('\n', 0, m.start()) + 1: s.find('\n', m.start())]
        if line.lstrip().startswith('#include') or 'Copyright' in line: continue
        v = int(m.group(1))
        add(m.start(1), m.end(1), str(v + 1), f'{v} to {v + 1}')
    # statements
    for m in re.finditer(r'(?<=[;{}:\)\n])[ \t]*\n?[ \t]+([A-Za-z_\(\*][^;{}]*);', s):
        t = m.group(1)
        if re.match(r'(return|goto|break|continue|case|default|typedef|struct|extern|static|else|for|while|if|switch|do)\b', t):
            if re.match(r'(break|continue)\b', t): add(m.start(1), m.end(1), '', 'drop ' + t)
            mm = re.match(r'return\s+(.+)$', t, re.S)
            if mm and mm.group(1).strip() not in ('0',): add(m.start(1), m.end(1), 'return 0', 'return 0 for ' + mm.group(1)[:30])
            continue
        if re.match(r'[A-Za-z_][\w]*(\s*\*+\s*|\s+)[A-Za-z_]\w*\s*(=|\[|;|$|,)', t) and not re.match(r'\w+\s*=', t): continue
        if re.match(r'(const|unsigned|struct)\b', t): continue
        add(m.start(1), m.end(1), '', 'drop ' + re.sub(r'\s+', ' ', t)[:60])
    for m in re.finditer(r'\b(if|while)\s*\(', s):
        d, k = 0, m.end() - 1
        while True:
            d += s[k] == '('; d -= s[k] == ')'
            k += 1
            if not d: break
        c = src[m.end():k - 1]
        if m.group(1) == 'if':
            add(m.end(), k - 1, '0', 'never: ' + re.sub(r'\s+', ' ', c)[:60])
            add(m.end(), k - 1, '1', 'always: ' + re.sub(r'\s+', ' ', c)[:60])
    return [(f, a, b, new, what, src.count('\n', 0, a) + 1) for f, a, b, new, what in res]

def run(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, errors='replace', **k)

class Slot:
    def __init__(self, n):
        self.d = f'/tmp/mut/w{n}'
        run(['rm', '-rf', self.d])
        os.makedirs(self.d)
        shutil.copytree(R, self.d + '/repo', ignore=shutil.ignore_patterns('.git'))
        self.b = self.d + '/b'
        os.makedirs(self.b)
        r = run(['make', '-s', '-f', V + '/harness/Makefile', f'B={self.b}', f'REPO={self.d}/repo', f'H={V}/harness', self.b + '/rmcheck'])
        assert os.path.exists(self.b + '/rmcheck'), r.stderr
        os.makedirs(self.d + '/o')
    def test(self, m):
        f, a, b, new, what, line = m
        p = f'{self.d}/repo/{f}'
        orig = open(f'{R}/{f}').read()
        open(p, 'w').write(orig[:a] + new + orig[b:])
        try:
            if f.endswith('.h'): [os.remove(self.b + '/' + o) for o in os.listdir(self.b) if o.endswith('.o')]
            r = run(['make', '-s', '-f', V + '/harness/Makefile', f'B={self.b}', f'REPO={self.d}/repo', f'H={V}/harness', self.b + '/rmcheck'], timeout=300)
            if r.returncode: return dict(res='nobuild')
            env = dict(os.environ, RC_CASES=CASES, RC_WORKERS='1', RC_NOSHRINK='1')
            try: r = run([self.b + '/rmcheck', 'run', os.environ.get('MUT_CHECK', 'ALL'), self.d + '/o', self.d + '/e.json'], env=env, timeout=400)
            except subprocess.TimeoutExpired: return dict(res='timeout')
            out = r.stdout.strip().splitlines()
            return dict(res='killed' if r.returncode == 1 else 'survived' if r.returncode == 0 else f'rc{r.returncode}', msg=' / '.join(x for x in out if 'VIOLATION' not in x)[-300:] if r.returncode else '')
        finally:
            open(p, 'w').write(orig)
            os.utime(p)
            if f.endswith('.h'): [os.remove(self.b + '/' + o) for o in os.listdir(self.b) if o.endswith('.o')]

def main():
    out = sys.argv[1]
    files = sys.argv[2:] or FILES
    ms = [m for f in files for m in mutants(f)]
    random.seed(5)
    if FRACTION < 1: ms = [m for m in ms if random.random() < FRACTION]
    if os.environ.get('MUT_SKIP'):  # a former sweep: leave out what it saw killed
        was = {}
        for l in open(os.environ['MUT_SKIP']):
            r = json.loads(l); was.setdefault((r['file'], r['what'], r['new']), set()).add(r['res'])
        ms = [m for m in ms if was.get((m[0], m[4], m[3]), {'new'}) - {'killed', 'nobuild'}]
    print(len(ms), 'mutants', flush=True)
    if os.environ.get('MUT_LIST'):
        for m in ms: print(m[0], m[5], m[4], '=>', repr(m[3]))
        return
    import queue
    q = queue.Queue()
    n = int(os.environ.get('MUT_SLOTS', '8'))
    with cf.ThreadPoolExecutor(n) as ex: 
        for s in ex.map(Slot, range(n)): q.put(s)
    o = open(out, 'a')
    def one(m):
        s = q.get()
        try: r = s.test(m)
        except Exception as e: r = dict(res='error', msg=repr(e))
        finally: q.put(s)
        r.update(file=m[0], line=m[5], what=m[4], new=m[3], a=m[1], b=m[2])
        o.write(json.dumps(r) + '\n'); o.flush()
    with cf.ThreadPoolExecutor(n) as ex: list(ex.map(one, ms))
main()
