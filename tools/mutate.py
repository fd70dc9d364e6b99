#!/usr/bin/env python3
"""Mutation campaign: small syntactic changes of /repo's library, each judged by the quick checks of the related properties.
   mutate.py list | run LOG [FILTER]     scratch copies in /tmp/mut; survivors are to be looked at by hand"""
import re, os, sys, subprocess, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REL = [('Semaphore', 'C01 C02 C03 C04 C05'), ('Mutex', 'C06 C07'), ('RingBufferSimple', 'C08'), ('RingBufferGuarded', 'C10 C09'),
       ('MemoryPool', 'C12 C14 C13 C11'), ('ObjectPool', 'C13 C12'), ('BlockPool', 'C15 C12'), ('MessageQueue', 'C22 C21 C25 C17 C18 C20 C19 C16')]
def code_lines(path):
    inb = False; pre = []
    for i, l in enumerate(open(path).read().split('\n')):
        t = l.strip()
        if inb:
            if '*/' in t: inb = False
            continue
        if t.startswith('/*'):
            if '*/' not in t: inb = True
            continue
        if t.startswith('#'):
            if re.match(r'#\s*if', t): pre.append('HAS_PTHREADS' in t and 'n' or 'o')
            elif re.match(r'#\s*else', t) and pre: pre[-1] = 'dead' if pre[-1] == 'n' else 'o'
            elif re.match(r'#\s*endif', t) and pre: pre.pop()
            continue
        if 'dead' in pre or not t or t.startswith('//') or t.startswith('*'): continue
        yield i, l
SUBS = [(r'(?<![<>=!\-+])<(?![<=>])(?=\s)', '<='), (r'(?<![->=<])>(?![>=])(?=\s)', '>='), (r'<=', '<'), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
        (r'\+ 1\b', '+ 2'), (r'- 1\b', '- 0'), (r'\+\+', '--'), (r'(?<!-)--(?!-)', '++'), (r'\bsignal\(', 'broadcast('), (r'cond_broadcast\(', 'cond_signal('),
        (r'memory_order_(seq_cst|acquire|release|acq_rel)', 'memory_order_relaxed'), (r'\buint32_t\b', 'uint16_t'), (r'\buint16_t\b', 'uint8_t'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
        (r'if \( ?!', 'if ( '), (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '3'), (r'std::atomic<\s*(\w+)\s*>', r'\1'), (r'\bsizeof\( ?void ?\* ?\)', '4'), (r'std::lock_guard< ?\w+ ?> \w+[({].*', ';'), (r'std::unique_lock< ?\w+ ?> (\w+) ?[({].*', r'')]
def mutants():
    for path in sorted(glob.glob('/repo/src/*.[ch]pp')):
        f = os.path.basename(path); lines = open(path).read().split('\n')
        for i, l in code_lines(path):
            c = l.split('//')[0]; seen = set()
            def out(new, what):
                if new != l and new not in seen: seen.add(new); return [(f, i, l, new, what)]
                return []
            if re.search(r'=\s*(delete|default)\s*;', c): continue
            if re.match(r'\s*(template|class|struct|using|namespace|friend|static_assert|typedef|#)', c) and 'uint' not in c: continue
            for pat, rep in SUBS:
                if pat in (r'(?<![->=<])>(?![>=])(?=\s)', r'(?<![<>=!\-+])<(?![<=>])(?=\s)') and not re.search(r'\b(if|for|while|return)\b|\?', c): continue
                for m in re.finditer(pat, c):
                    new = c[:m.start()] + m.expand(rep) + c[m.end():]
                    yield from out(new, pat)
            prev = next((x.strip() for x in reversed(lines[:i]) if x.strip() and not x.strip().startswith(('//', '*', '/*', '#'))), ';')
            m = re.match(r'(\s*)(?:else )?if \((.*)\)\s*(\{?|throw.*|return.*|break;.*)$', c)
            if m:
                yield from out(re.sub(r'if \(.*\)(\s*(\{?|throw.*|return.*|break;.*))$', r'if ( true )\1', c), 'true'); yield from out(re.sub(r'if \(.*\)(\s*(\{?|throw.*|return.*|break;.*))$', r'if ( false )\1', c), 'false')
            if prev[-1] in ';{})' and c.rstrip().endswith(';') and re.match(r'\s*[\w:+\-*.>&<( ]+', c) and not re.match(r'\s*(return|using|const|auto|static|virtual|explicit|friend|\}|std::\w+ ?<|[\w:< >]+\s+\w+\s*(=|\{|;))', c):
                yield from out(re.match(r'\s*', c).group() + ';', 'delete')
            if re.match(r'\s*throw', c): yield from out(re.match(r'\s*', c).group() + ';', 'delete')
            # swap with the next statement
            if i + 1 < len(lines) and c.rstrip().endswith(';') and lines[i + 1].strip().endswith(';') and not lines[i + 1].strip().startswith(('//', 'return', '*')) and '{' not in c + lines[i + 1]:
                yield (f, i, l, None, 'swap')
def main():
    ms = list(mutants())
    if sys.argv[1] == 'list':
        for m in ms: print(m[0], m[1] + 1, m[4], '|', (m[3] or 'SWAP').strip())
        print(len(ms)); return
    log = sys.argv[2]; flt = sys.argv[3] if len(sys.argv) > 3 else ''; part = sys.argv[4] if len(sys.argv) > 4 else '0/1'; pk, pn = map(int, part.split('/'))
    done = set(open(log).read().split('\n')) if os.path.exists(log) else set(); done = {d.split(' => ')[0] for d in done}
    w = f'/tmp/mut/{os.path.basename(log)}.src'; b = f'/tmp/mut/{os.path.basename(log)}.build'
    for n, (f, i, old, new, what) in enumerate(ms):
        if n % pn != pk or not re.search(flt, f): continue
        key = f'{f}:{i+1} [{what}] {(new if new is not None else "SWAP " + old).strip()}'
        if key in done: continue
        shutil.rmtree(w, ignore_errors=True); os.makedirs(w); subprocess.run(['cp', '-r', '/repo/src', '/repo/examples', w])
        ls = open(f'{w}/src/{f}').read().split('\n')
        if new is None: ls[i], ls[i + 1] = ls[i + 1], ls[i]
        else: ls[i] = new
        open(f'{w}/src/{f}', 'w').write('\n'.join(ls))
        inc = f'{w}/inc'; os.makedirs(inc)
        props = next(p for k, p in REL if f.startswith(k)).split(); res = 'SURVIVED'
        for p in props:
            r = subprocess.run(['python3', f'{V}/mc/check.py', p, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, MC_REPO=w, MC_BUILD=b))
            if r.returncode == 2 and 'does not compile' in r.stdout: res = 'nocompile'; break
            if r.returncode == 1: res = 'killed by ' + p; break
            if r.returncode: res = f'TOOL {p} {r.stdout[-200:]!r}'; break
        with open(log, 'a') as fh: fh.write(f'{key} => {res}\n')
        # keep the object cache small
        objs = sorted(glob.glob(b + '/obj/*'), key=os.path.getmtime)
        for o in objs[:-80]: os.remove(o)
main()
