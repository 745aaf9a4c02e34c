#!/usr/bin/env python3
"""mutate.py [FILE-REGEX]: plants simple changes one at a time in a scratch copy of /repo/gel and runs the checks of the
module against it (quick tier). Prints and records the survivors. Not used by any check."""
import re, os, zlib, sys, subprocess, shutil, json, random
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {'circular_buffer': ['C01', 'C02'], 'queue': ['C03'], 'stack': ['C04', 'C28'], 'listx': ['C05'], 'circular_event_log': ['C06', 'C07'],
       'wearleveling': ['C08', 'C09', 'C10'], 'parameter': ['C11', 'C12', 'C13', 'C14'], 'timecheck': ['C22', 'C20', 'C21', 'C18', 'C15'], 'watcher': ['C15'],
       'debounce': ['C16'], 'pulsecounter': ['C17'], 'keypad': ['C18', 'C19'], 'stopwatch': ['C20', 'C21'], 'timer': ['C21'], 'pid': ['C23'],
       'scheduler': ['C24', 'C25'], 'serializer': ['C26'], 'crc16-ccitt': ['C27'], 'crc32': ['C27'], 'page_manager': ['C28'], 'state_machine': ['C29'],
       'maybe': ['C30'], 'struct_update': ['C31']}
OUT = os.environ.get('MUT_OUT', '/tmp/mut')
def mutants(text):
    """yield (line, description, new text)"""
    clean = re.sub(r'/\*.*?\*/|//[^\n]*', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)
    lines = text.split('\n'); cl = clean.split('\n')
    seen = set()
    def emit(i, new, what):
        t = '\n'.join(lines[:i] + [new] + lines[i + 1:])
        if t in seen or t == text: return None
        seen.add(t); return (i + 1, what, t)
    sub = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<\-])<(?![<=])', '<='), (r'(?<![->])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
           (r'(?<!\+)\+(?![+=])', '-'), (r'(?<!-)-(?![-=>])', '+'), (r'\+=', '-='), (r'-=', '+='), (r'\+\+', '--'), (r'--', '++'), (r'<<', '>>'), (r'>>', '<<'),
           (r'(?<!&)&(?!&)(?=\s)', '|'), (r'(?<!\|)\|(?!\|)', '&'), (r'!(?!=)', ''), (r'%', '/'), (r'(?<=\w\s)\*(?=\s\w)', '/'), (r'\bcontinue;', 'break;'), (r'\bbreak;', ';'),
           (r'\b0\b(?!x)', '1'), (r'\b1\b', '0'), (r'\b1\b', '2'), (r'(?<![\w.])([2-9]|\d{2,})\b', lambda m: str(int(m.group(0)) + 1)), (r'(?<![\w.])([2-9]|\d{2,})\b', lambda m: str(int(m.group(0)) - 1)),
           (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\bint\b', 'short'), (r'\bsize_t\b', 'uint8_t'), (r'\buint16_t\b', 'uint8_t'), (r'\buint32_t\b', 'uint16_t'), (r'\bunsigned long\b', 'unsigned int'), (r'\bunsigned long\b', 'unsigned short'),
           (r'\bif \((.*)\) \{?', None), (r'\bsizeof\([^()]*\)', '1')]
    for i, l in enumerate(cl):
        s = l.strip()
        if not s or s.startswith('#include') or s.startswith('0x') or re.match(r'#(if|endif|else|elif|ifndef|ifdef)', s): continue
        cont = '\\' if lines[i].rstrip().endswith('\\') else ''
        for pat, rep in sub:
            for m in re.finditer(pat, l):
                if rep is None:
                    for c in ('0', '1'):
                        n = l[:m.start(1)] + c + l[m.end(1):]
                        r = emit(i, n, 'if -> ' + c)
                        if r: yield r
                    continue
                rr = rep(m) if callable(rep) else rep
                n = l[:m.start()] + rr + l[m.end():]
                r = emit(i, n, '%s -> %s at %d' % (m.group(0), rr, m.start()))
                if r: yield r
        body = s[:-1].rstrip() if s.endswith('\\') else s
        if re.match(r'[\w>.\-\[\]*()&: ]+(\s*[-+|&^]?=[^=]|\+\+|--|\(.*\)).*;$', body) and not re.match(r'(return|typedef|static|extern|struct|const|\w+_t\s+\w+\(|int \w+\(|for|while|if|else)\b', body):
            r = emit(i, ' ;' + (' ' + cont if cont else ''), 'delete statement: ' + body[:60])
            if r: yield r
        m = re.match(r'(\s*return )(.+)(;.*)$', l)
        if m:
            for c in ('0', '1', '-1'):
                r = emit(i, m.group(1) + c + m.group(3), 'return ' + c)
                if r: yield r
def mutants2(text):
    """second set: swapped and repeated statements, other variables and fields, halves of conditions, signedness"""
    clean = re.sub(r'/\*.*?\*/|//[^\n]*', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)
    lines = text.split('\n'); cl = clean.split('\n')
    seen = set()
    def emit(i, new, what, n=1):
        t = '\n'.join(lines[:i] + new + lines[i + n:])
        if t in seen or t == text: return []
        seen.add(t); return [(i + 1, what, t)]
    simple = lambda l: re.match(r'\s+[\w>.\-\[\]*()&: ,]+.*;\s*\\?$', l) and not re.match(r'\s*(return|typedef|extern|static|break|continue|if|else|for|while)\b', l)
    fields = sorted(set(re.findall(r'(?:->|\.)([a-z_]\w*)', clean)))
    kw = set('if else for while return sizeof static const void int unsigned long short char size_t uint8_t uint16_t uint32_t uint64_t int8_t int16_t int32_t struct switch case break continue default do define typedef NULL typeof float double inline extern union enum memcpy memcmp memset assert malloc free signed'.split())
    # functions: blocks between lines that start at column 0 with a word and the closing brace (or the end of the macro)
    start = 0
    for i, l in enumerate(cl):
        if re.match(r'[\w#]', l): start = i
        s = l.strip()
        if not s or s.startswith('#include') or s.startswith('0x') or re.match(r'#(if|endif|else|elif|ifndef|ifdef)', s): continue
        if simple(l):
            if i + 1 < len(cl) and simple(cl[i + 1]):
                yield from emit(i, [lines[i + 1], lines[i]], 'swap with next statement', 2)
            yield from emit(i, [lines[i], lines[i]], 'repeat statement')
        for m in re.finditer(r'(->|\.)([a-z_]\w*)', l):
            for f in fields:
                if f != m.group(2):
                    yield from emit(i, [lines[i][:m.start(2)] + f + lines[i][m.end(2):]], 'field %s -> %s at %d' % (m.group(2), f, m.start()))
        end = i
        while end + 1 < len(cl) and not re.match(r'[\w#}]', cl[end + 1]): end += 1
        names = set(re.findall(r'(?<![\w.>])([a-z_]\w*)\b(?!\s*\()', '\n'.join(cl[start:end + 1]))) - kw
        names = {n for n in names if not n.endswith('_t') and not n.startswith('__')}
        if i > start or cl[start].startswith('#'):
            for m in re.finditer(r'(?<![\w.>#])([a-z_]\w*)\b(?!\s*\()', l):
                if m.group(1) in names:
                    for f in sorted(names, key=lambda x: zlib.crc32((x + l).encode()))[:3]:
                        if f != m.group(1):
                            yield from emit(i, [lines[i][:m.start(1)] + f + lines[i][m.end(1):]], 'name %s -> %s at %d' % (m.group(1), f, m.start()))
        for m in re.finditer(r'&&|\|\|', l):
            k = re.match(r'(.*?\(|.*?return |.*?= )(.*?)\s*(&&|\|\|)\s*(.*?)(\)\s*\{?\s*\\?|;\s*\\?)$', lines[i])
            if k:
                yield from emit(i, [k.group(1) + k.group(2) + k.group(5)], 'first half of the condition')
                yield from emit(i, [k.group(1) + k.group(4) + k.group(5)], 'second half of the condition')
        for a, b in ((r'\bunsigned int\b', 'int'), (r'\bunsigned long\b', 'long'), (r'\buint8_t\b', 'int8_t'), (r'\buint16_t\b', 'int16_t'), (r'\buint32_t\b', 'int32_t'), (r'\bsize_t\b', 'int'), (r'\bsize_t\b', 'uint16_t'), (r'\bint64_t\b', 'int32_t'), (r'\buint64_t\b', 'uint32_t'), (r'\bdouble\b', 'float'), (r'\bfloat\b', 'int')):
            for m in re.finditer(a, l):
                yield from emit(i, [lines[i][:m.start()] + b + lines[i][m.end():]], '%s -> %s at %d' % (m.group(0), b, m.start()))
        for m in re.finditer(r'\+\+|--', l):
            pass
        if re.search(r'\belse\b(?! if)', l):
            yield from emit(i, [re.sub(r'\belse\b', '', lines[i], count=1)], 'else removed')
def mutants3(text):
    """third set: a statement is left out, or a condition fails, only where some variable or field has one particular value"""
    clean = re.sub(r'/\*.*?\*/|//[^\n]*', lambda m: re.sub(r'[^\n]', ' ', m.group(0)), text, flags=re.S)
    lines = text.split('\n'); cl = clean.split('\n')
    kw = set('if else for while return sizeof static const void int unsigned long short char size_t struct switch case break continue default do define typedef NULL typeof float double inline extern union enum memcpy memcmp memset assert malloc free signed'.split())
    start = 0
    for i, l in enumerate(cl):
        if re.match(r'[\w#]', l): start = i
        s = l.strip()
        if not s or i == start or s.startswith('#'): continue
        end = i
        while end + 1 < len(cl) and not re.match(r'[\w#}]', cl[end + 1]): end += 1
        body = '\n'.join(cl[start:end + 1])
        ex = set(re.findall(r'(?<![\w.>#])([a-z_]\w*(?:\[\w+\])?(?:(?:->|\.)[a-z_]\w*)*)\b(?!\s*[\w(*])', body))
        ex = sorted(x for x in ex if x.split('->')[0] not in kw and not x.endswith('_t') and not x.startswith('__'))
        cont = ' \\' if lines[i].rstrip().endswith('\\') else ''
        code = l.rstrip().rstrip('\\').rstrip()
        for x in ex:
            h = zlib.crc32((x + l + str(i)).encode())
            k = (2, 3, 1, 4)[h % 4]
            m = re.match(r'(\s*(?:\} else )?(?:else )?if \()(.*)(\)\s*\{?)$', code)
            if m:
                yield (i + 1, 'condition fails if %s is %d' % (x, k), '\n'.join(lines[:i] + [m.group(1) + '(' + m.group(2) + ') && ((' + x + ') * 1) != %d' % k + m.group(3) + cont] + lines[i + 1:]))
            elif re.match(r'\s+[\w>.\-\[\]*()&: ,+|=^~!<%/]+;$', code) and not re.match(r'\s*(return|typedef|extern|static|break|continue|else|for|while|case|int|unsigned|long|float|double|\w+_t)\b', code):
                yield (i + 1, 'left out if %s is %d' % (x, k), '\n'.join(lines[:i] + [re.match(r'\s*', l).group(0) + 'if (((' + x + ') * 1) != %d) ' % k + code.strip() + cont] + lines[i + 1:]))
if os.environ.get('MUT_SET') == '2': mutants = mutants2
if os.environ.get('MUT_SET') == '3': mutants = mutants3
def run(job):
    k, rel, props, line, what, text = job
    d = '%s/w%d' % (OUT, k)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree(OUT + '/base/gel', d + '/gel')
    open(d + '/' + rel, 'w').write(text)
    res, dt = {}, 0
    for p in props:
        env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD_TAG='-m%d' % k, VERIF_TIER='quick')
        r = subprocess.run([V + '/bin/check', p, '--tier', 'quick', '--jobs', '3'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=V)
        o = r.stdout
        res[p] = r.returncode
        if r.returncode == 2 and 'build failed' in o:
            res = {'nocompile': 1}; break
        if r.returncode == 1: break
        if r.returncode not in (0, 1):
            res['msg'] = o[-400:]
    for t in props:
        for x in ('build', 'out'):
            shutil.rmtree('%s/%s/%s-m%d' % (V, x, t, k), ignore_errors=True)
        try: os.remove('%s/evidence/%s-m%d.json' % (V, t, k))
        except OSError: pass
    shutil.rmtree(d, ignore_errors=True)
    st = 'nocompile' if 'nocompile' in res else 'killed' if 1 in res.values() else 'error' if any(v == 2 or v not in (0, 1) for q, v in res.items() if q != 'msg') else 'SURVIVED'
    rec = dict(file=rel, line=line, what=what, status=st, res=res)
    with open(OUT + '/results.jsonl', 'a') as f:
        f.write(json.dumps(rec) + '\n')
    if st in ('SURVIVED', 'error'):
        print('%-9s %s:%d %s | %s %s' % (st, rel, line, what, text.split('\n')[line - 1].strip()[:100], res.get('msg', '')[-150:]), flush=True)
    return st
def main():
    rx = sys.argv[1] if len(sys.argv) > 1 else '.'
    os.makedirs(OUT, exist_ok=True)
    jobs = []
    if not os.path.exists(OUT + '/base'):
        os.makedirs(OUT + '/base')
        subprocess.run('git -C /repo archive HEAD | tar -x -C %s/base' % OUT, shell=True, check=True)
    for r, _, fs in os.walk(OUT + '/base/gel'):
        for f in sorted(fs):
            rel = os.path.relpath(os.path.join(r, f), OUT + '/base')
            b = os.path.splitext(f)[0]
            if b in MAP and re.search(rx, rel):
                t = open(OUT + '/base/' + rel).read()
                for line, what, new in mutants(t):
                    jobs.append((len(jobs), rel, MAP[b], line, what, new))
    n = int(os.environ.get('MUT_N', '0'))
    if n: jobs = sorted(jobs, key=lambda j: zlib.crc32((j[1] + j[4] + str(j[3])).encode()))[:n]
    print(len(jobs), 'mutants', flush=True)
    if '-n' in sys.argv: return
    from collections import Counter
    with ThreadPoolExecutor(int(os.environ.get('MUT_JOBS', '3'))) as ex:
        print(Counter(ex.map(run, jobs)))
main()
