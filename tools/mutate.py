#!/usr/bin/env python3
"""Development aid: mutates single tokens/statements of the library and runs the
checks concerned, to find behaviour no check looks at.

  mutate.py OUT.jsonl JOBS [file-substring...] [--every=N] [--offset=K] [--second=1]

Works on copies of /repo's include and src under /tmp (VERIF_REPO)."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = '/repo/include/asioext/'
MAP = [
    ('win_file_ops', 'P27 P28 P29'), ('win_path', 'P28'), ('file_handle_win', 'P27 P28 P29'),
    ('linear_buffer', 'P02 P01 P03'), ('url_parser', 'P05 P04'), ('url_view', 'P04 P05'),
    ('socks', 'P06 P07'), ('buffer_sequence_adapter', 'P10 P08'),
    ('posix_file_ops', 'P08 P10 P09 P14 P13 P12 P11 P15 P30'),
    ('impl/file_handle', 'P08 P10 P12 P13 P14 P15'), ('unique_file_handle', 'P12 P15 P08'), ('file_handle.hpp', 'P12 P08 P15 P14 P10'),
    ('open_flags', 'P09'), ('open_args', 'P09'), ('open.', 'P09 P15'),
    ('read_file', 'P11 P15'), ('write_file', 'P11 P15'),
    ('chrono', 'P13'), ('file_perms', 'P14'), ('file_attrs', 'P13 P14'), ('enum', 'P14'),
    ('thread_pool_file_service.hpp', 'P16 P17 P23'), ('thread_pool_file_service', 'P17 P23 P12 P16 P24'), ('io_object_holder', 'P26 P12 P17 P16'),
    ('service_base', 'P23 P16'), ('thread_group', 'P16'),
    ('basic_file', 'P26 P15 P12 P08 P16 P17 P09'),
    ('cancellation_token', 'P18 P17'), ('unique_handler', 'P19'),
    ('compose', 'P20 P16'), ('bind_handler', 'P20'), ('bound_handler', 'P20 P16'), ('work.', 'P20'),
    ('associated_allocator', 'P20 P19'), ('async_result', 'P16 P20 P22'), ('coroutine', 'P07'),
    ('buffered_stream', 'P21'), ('connect', 'P22'),
    ('standard_streams', 'P15'), ('duplicate', 'P12 P15'), ('throw_error', 'P15'), ('error', 'P07'), ('is_raw_byte', 'P11'), ('detail/buffer.', 'P10'),
]

def checks_for(f):
    for k, c in MAP:
        if k in f: return c.split()
    return []

def strip(src):
    """Blanks comments, strings and preprocessor lines, keeping offsets."""
    def blank(m): return re.sub(r'[^\n]', ' ', m[0])
    src = re.sub(r'/\*.*?\*/|//[^\n]*', blank, src, flags=re.S)
    src = re.sub(r'"(?:[^"\\\n]|\\.)*"', blank, src)
    src = re.sub(r'(?m)^[ \t]*#(?:[^\n\\]|\\\n|\\.)*', blank, src)
    return src

def windows_ranges(src):
    """Ranges compiled on Windows or for documentation only."""
    out = []; stack = []
    for m in re.finditer(r'(?m)^[ \t]*#[ \t]*(if|ifdef|ifndef|elif|else|endif)\b([^\n]*)', src):
        k, c = m[1], m[2]
        if k in ('if', 'ifdef', 'ifndef'):
            win = ('WINDOWS' in c and '!' not in c and 'ifndef' != k) or '101700' in c or '101400' in c or 'IS_DOCUMENTATION' in c and '!' not in c and 'BOOST_FILESYSTEM' not in c and 'STD' not in c
            stack.append([win, m.end()])
        elif k in ('else', 'elif') and stack:
            w, st = stack[-1]
            if w: out.append((st, m.start()))
            stack[-1] = [False, m.end()]
        elif k == 'endif' and stack:
            w, st = stack.pop()
            if w: out.append((st, m.start()))
    return out

OPS = [(r'(?<![<=>!+\-*/%&|^])<=(?![=>])', ['<']), (r'(?<![<=>!\-])>=(?!=)', ['>']), (r'==', ['!=']), (r'!=', ['==']),
       (r'(?<= )<(?= )', ['<=']), (r'(?<= )>(?= )', ['>=']),
       (r'(?<= )\+(?= )', ['-']), (r'(?<= )-(?= )', ['+']), (r'(?<= )\*(?= [a-z(])', ['/']), (r'(?<= )/(?= )', ['*']), (r'(?<= )%(?= )', ['*']),
       (r'\+\+(?=\w)', ['--']), (r'(?<=\w)\+\+', ['--']), (r'\+=', ['-=']), (r'-=', ['+=']), (r'\|=', ['&=']), (r'&=(?!=)', ['|=']),
       (r'(?<= )&&(?= )', ['||']), (r'\|\|(?= )', ['&&']), (r'(?<= )& (?=~?[a-z(])', ['| ']), (r'(?<= )\| ', ['& ']),
       (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
       (r'(?<=[(, ])!(?=[a-z(])', ['']), (r'\bstd::min\b', ['std::max']), (r'\bstd::max\b', ['std::min']),
       (r'(?<![\w.x])(\d+)(?![\w.])', [lambda m: str(int(m[1]) + 1), lambda m: str(int(m[1]) - 1) if int(m[1]) > 1 else None]),
       (r'\bif \((?!constexpr)', ['if (!!(0) && ', 'if (!!(1) || ']),
       (r'~(?=[a-z(])', [''])]

def mutants(f):
    src = open(f, newline='').read()
    code = strip(src)
    skip = [] if 'win' in os.path.basename(f) else windows_ranges(src)
    res = []
    def add(a, b, new, what):
        if any(x <= a < y for x, y in skip): return
        line = src.count('\n', 0, a) + 1
        ltext = code[code.rfind('\n', 0, a) + 1:code.find('\n', a)]
        if 'template' in ltext or 'static_assert' in ltext or 'ASIOEXT_ASSERT' in ltext: return
        res.append((f[len('/repo/'):], line, a, b, new, what))
    for pat, news in OPS:
        for m in re.finditer(pat, code):
            for n in news:
                n = n(m) if callable(n) else n
                if n is None: continue
                if n.startswith('if (!!'):
                    # wrap the whole condition
                    d = 0
                    for i in range(m.end() - 1, len(code)):
                        d += code[i] == '('
                        d -= code[i] == ')'
                        if d == 0: break
                    add(m.start(), i + 1, n + '(' + src[m.end():i] + '))', 'cond ' + n[6:])
                else:
                    add(m.start(), m.end(), n, f'{m[0]} -> {n}')
    # delete expression statements
    for m in re.finditer(r'(?m)(?<=[;{})\n])[ \t]*((?!return|typedef|using|friend|template|static|const |explicit|virtual|goto|throw|break|typename|case|public|private|namespace|struct|class|union|inline|operator)[\w:*&.>\-\[\]]+(?:\s*(?:=|\+=|-=|\|=|&=|<<=)[^;={}][^;{}]*|\([^;{}]*\)|\+\+)?;)', code):
        t = m[1].strip()
        if re.match(r'^[\w:<>&*]+ \w+(\(|;| =)', t): continue
        if not re.search(r'[=(+]', t) or t.startswith('ASIOEXT'): continue
        if re.match(r'^(else|do)\b', t): continue
        add(m.start(1), m.end(1), ';' if code[m.start(1) - 1] != '\n' else ';', 'delete ' + ' '.join(t.split())[:60])
    for m in re.finditer(r'\bbreak;', code):
        add(m.start(), m.end(), ';', 'delete break')
    return res

KEYWORDS = set('if else while for do return const auto void bool int char unsigned long short static struct class this true false nullptr typename template '
               'typedef using namespace public private protected new delete throw try catch case default switch break continue sizeof noexcept inline '
               'explicit operator goto std asio detail chrono size_t error_code'.split())

def mutants2(f):
    """Swapped statements and arguments, exchanged identifiers, dropped moves."""
    import random
    rng = random.Random(f)
    src = open(f, newline='').read()
    code = strip(src)
    skip = [] if 'win' in os.path.basename(f) else windows_ranges(src)
    res = []
    def add(a, b, new, what):
        if any(x <= a < y for x, y in skip) or src[a:b] == new: return
        line = src.count('\n', 0, a) + 1
        ltext = code[code.rfind('\n', 0, a) + 1:code.find('\n', a)]
        if 'template' in ltext or 'static_assert' in ltext or 'ASIOEXT_ASSERT' in ltext or 'typedef' in ltext or 'using ' in ltext: return
        res.append((f[len('/repo/'):], line, a, b, new, what))
    for m in re.finditer(r'(?m)^( +)([^\s#}{][^\n{}]*;)\n\1([^\s#}{][^\n{}]*;)$', code):
        if any(re.match(r'(return|break|typedef|using|friend|throw|continue|static|template|goto|case)\b|ASIOEXT_DEL', m[k]) for k in (2, 3)): continue
        if re.search(r'\) ASIOEXT_NOEXCEPT;|= default|_;$', m[0]) and not re.search(r'=|\(', m[2]): continue
        add(m.start(2), m.end(3), src[m.start(3):m.end(3)] + '\n' + m[1] + src[m.start(2):m.end(2)], 'swap statements')
    for m in re.finditer(r'(?m)(?<=[;{}\n])[ ]*\n?( *)([a-z_][\w.>:-]*\([^;{}]*\);)(?=\n)', code):
        t = m[2]
        # moved to the end of the block
        d = 0; i = m.end(2)
        while i < len(code) and d >= 0:
            d += code[i] == '{'; d -= code[i] == '}'; i += 1
        if re.match(r'(return|throw)\b', t): continue
        end = i - 1
        if code[m.end(2):end].strip() and not re.search(r'return', code[m.end(2):end]) :
            add(m.start(2), end, src[m.end(2):end].strip() + ' ' + src[m.start(2):m.end(2)] + '\n', 'move statement to the end: ' + ' '.join(t.split())[:50])
    for m in re.finditer(r'std::(?:move|forward<[\w&]+>)\((\w+)\)', code):
        add(m.start(), m.end(), m[1], 'drop move')
    for m in re.finditer(r'(?<=\()([\w.*&>-]+), ([\w.*&>-]+)(?=\))', code):
        add(m.start(), m.end(), m[2] + ', ' + m[1], 'swap arguments')
    # functions: top-level-ish brace blocks at the smallest indentation
    for fm in re.finditer(r'(?m)^( *)[^\s#}{][^\n;]*(?:\n[^\n;{}]*){0,8}\n\1\{\n(.*?)^\1\}', code, re.S):
        if re.match(r' *(namespace|class|struct|enum|union)\b', fm[0]): continue
        occ = []
        for m in re.finditer(r'(?<![\w.:>])([a-z_]\w*)(?![\w(:<])', code[fm.start():fm.end()]):
            if m[1] in KEYWORDS or m[1].endswith('_t') or m[1].endswith('_type'): continue
            nxt = code[fm.start() + m.end():fm.start() + m.end() + 2]
            if re.match(r' [\w&*]', nxt): continue # a type
            occ.append((fm.start() + m.start(), fm.start() + m.end(), m[1]))
        names = sorted({o[2] for o in occ})
        if len(names) < 2: continue
        for a, b, n in occ:
            if a < fm.start(2): continue
            add(a, b, rng.choice([x for x in names if x != n]), 'other identifier')
    return res

def run(mu, idx):
    f, line, a, b, new, what = mu
    d = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
    try:
        shutil.copytree('/repo/include', d + '/repo/include')
        shutil.copytree('/repo/src', d + '/repo/src')
        p = d + '/repo/' + f
        s = open(p, newline='').read()
        open(p, 'w', newline='').write(s[:a] + new + s[b:])
        r = dict(file=f, line=line, a=a, b=b, new=new, what=what, text=s[a:b][:80])
        if 'win' not in os.path.basename(f) and subprocess.run(
                ['g++', '-std=gnu++20', '-w', '-fsyntax-only', '-DASIOEXT_STANDALONE', '-DASIOEXT_SEPARATE_COMPILATION', '-I' + d + '/repo/include',
                 d + '/repo/src/asioext.cpp'], capture_output=True).returncode:
            r['invalid'] = True
            return r
        v = d + '/verif'
        os.mkdir(v)
        for x in ('engine', 'props'): os.symlink(VERIF_SNAP + '/' + x, v + '/' + x)
        for x in ('checks.py', 'run_check.py', 'KNOWN_FINDINGS.txt', 'properties.jsonl', 'MANIFEST.json'): shutil.copy(VERIF_SNAP + '/' + x, v)
        r = dict(file=f, line=line, a=a, b=b, new=new, what=what, text=s[a:b][:80])
        r['ltext'] = s.split('\n')[line - 1].strip()
        env = dict(os.environ, VERIF_REPO=d + '/repo', VERIF_SEED='1', VERIF_TIER='quick', TMPDIR=d)
        for c in checks_for(f):
            q = subprocess.run(['python3', v + '/run_check.py', c, 'quick'], env=env, capture_output=True, text=True)
            if q.returncode == 1:
                m = re.search(r'^P\d\d \[\w+\] (.*)$', q.stdout, re.M)
                r['killed'] = c; r['how'] = m[1][:100] if m else ''
                return r
            if q.returncode != 0:
                r['invalid'] = True
                r['err'] = (q.stdout + q.stderr)[-300:]
                return r
        r['survived'] = True
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    global VERIF_SNAP
    out, jobs = sys.argv[1], int(sys.argv[2])
    subs = [x for x in sys.argv[3:] if not x.startswith('--')]
    opt = dict(x[2:].split('=') for x in sys.argv[3:] if x.startswith('--'))
    every, offset = int(opt.get('every', 1)), int(opt.get('offset', 0))
    VERIF_SNAP = tempfile.mkdtemp(prefix='mutsnap-', dir='/tmp')
    for x in ('engine', 'props'): shutil.copytree(VERIF + '/' + x, VERIF_SNAP + '/' + x)
    for x in ('checks.py', 'run_check.py', 'KNOWN_FINDINGS.txt', 'properties.jsonl', 'MANIFEST.json'): shutil.copy(VERIF + '/' + x, VERIF_SNAP)
    files = []
    for r, ds, fs in os.walk(INC):
        for x in fs:
            p = os.path.join(r, x)
            if x in ('config.hpp', 'asioext.hpp', 'version.hpp'): continue
            if subs and not any(s in p for s in subs): continue
            if checks_for(p[len(INC):]) or checks_for(p): files.append(p)
    ms = []
    for p in sorted(files): ms += mutants2(p) if 'second' in opt else mutants(p)
    if 'kind' in opt: ms = [m for m in ms if re.search(opt['kind'], m[5])]
    done = set()
    if os.path.exists(out):
        for l in open(out):
            r = json.loads(l); done.add((r['file'], r['a'], r['new']))
    ms = [m for i, m in enumerate(ms) if i % every == offset and (m[0], m[2], m[4]) not in done]
    if 'list' in opt:
        for m in ms: print(m[0], m[1], m[5])
        return
    print(len(ms), 'mutants', flush=True)
    with cf.ThreadPoolExecutor(jobs) as ex, open(out, 'a') as o:
        for r in ex.map(lambda x: run(x[1], x[0]), enumerate(ms)):
            o.write(json.dumps(r) + '\n'); o.flush()
    shutil.rmtree(VERIF_SNAP)

main()
