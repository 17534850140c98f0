#!/usr/bin/env python3
"""Random syntactic mutants of the library: automut.py N SEED [FILE-REGEX].  Runs the checks of the file on each and logs the ones no
check reports to /tmp/am/missed-SEED.txt (as unified diffs)."""
import difflib, os, random, re, shutil, subprocess, sys, tempfile, glob
V = '/verif'
SRC = '/repo/src/lib'
N, SEED = int(sys.argv[1]), int(sys.argv[2])
FR = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
MAP = [('CountableSet|Vector|BaseMatrix|DenseMatrix|FixedMatrix', 'C24 C45 C17 C19 C01 C23 C42 C02 C03 C08 C20'),
       ('SparseMatrix', 'C42 C06 C07 C02 C01 C23 C19 C17'),
       ('MatrixOperations|MatrixCheck|MatrixConstr|MatrixConv|Utils', 'C45 C24 C40 C44 C16 C01 C23 C17 C42 C18'),
       ('MatrixOrder', 'C43 C01 C23'), ('LU|CG|Iterative|Cholesky', 'C40 C41 C44 C16 C18 C15 C01 C04 C23 C02'),
       ('HyperCube', 'C21 C26 C05 C04'), ('mesh/|Simplex', 'C22 C26 C25 C14 C13 C05 C04 C17 C02 C03 C12 C23'),
       ('loader', 'C12 C04 C02 C26'), ('export', 'C11 C23 C02'), ('sf/|quadr|Normal', 'C09 C10 C02 C25 C20 C45'), ('.', 'C03 C08 C17 C24 C45')]
OPS = [(r'(?<![<>=!\-])<(?![<=])', '<='), (r'<=', '<'), (r'(?<![>\-<=])>(?![>=])', '>='), (r'>=', '>'), (r'==', '!='), (r'!=', '=='), (r'&&', '||'), (r'\|\|', '&&'),
       (r' \+ ', ' - '), (r' - ', ' + '), (r'\+=', '-='), (r'-=', '+='), (r' \* ', ' + '), (r'\*=', '+='), (r'/', '*'), (r'\+\+', '--'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\b0\b', '1'), (r'\b1\b', '0'), (r'\b2\b', '1'), (r'\bi\b', 'j'), (r'\bj\b', 'i'), (r'\bi\b', 'i + 1'), (r'\bj\b', 'j + 1'), (r'rows\(\)', 'columns()'), (r'columns\(\)', 'rows()'),
       (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'\brow\(\)', 'column()'), (r'\bcolumn\(\)', 'row()'), (r'if\s*\((.*)\)\s*$', r'if (!(\1))'),
       (r'(?<=\bi1, )i2', 'i1'), (r'\bi1, i2', 'i2, i1'), (r'm1\b', 'm2'), (r'm2\b', 'm1'), (r'v1\b', 'v2'), (r'v2\b', 'v1'), (r'\bmin\b', 'max'), (r'\bmax\b', 'min')]


def sites():
    out = []
    for f in sorted(glob.glob(SRC + '/**/*', recursive=True)):
        if not f.endswith(('.h', '.inl', '.cpp')) or not FR.search(f[len(SRC):]):
            continue
        com = False
        for n, l in enumerate(open(f).read().split('\n')):
            s = l.strip()
            if '/*' in s:
                com = True
            if com or s.startswith(('//', '#', 'template', '*', 'using', 'typedef', 'throw', 'namespace')) or not s:
                if '*/' in s:
                    com = False
                continue
            code = l.split('//')[0]
            for k, (a, b) in enumerate(OPS):
                for m in re.finditer(a, code):
                    if a in ('/',) or ('<' in a or '>' in a) and ('template' in code or 'std::' in code or 'Matrix<' in code or 'Vector<' in code or 'cast<' in code):
                        if a != '/':
                            continue
                    r = code[:m.start()] + m.expand(b) + code[m.end():]
                    if r != code:
                        out.append((f, n, r))
            if re.match(r'^[\w\.\->\[\]\(\), \*\+]+(=|\(|\+\+|\+=|-=|\*=).*;$', s) and not re.match(r'^(const |auto |Index |T |size_t |return|typename|virtual|inline|static|using|for|while|if|else|DynamicVector|SparseMatrix|DenseMatrix|M |V )', s) and not f.endswith('.h'):
                out.append((f, n, ''))
            if s.startswith('return') and not f.endswith('.h') and False:
                out.append((f, n, ''))
    return out


random.seed(SEED)
S = sites()
byf = {}
for x in S:
    byf.setdefault(x[0], []).append(x)
print(len(S), 'sites', flush=True)
pick = []
fs = sorted(byf)
w = [len(byf[f]) ** 0.6 for f in fs]
while len(pick) < N:
    f = random.choices(fs, w)[0]
    x = random.choice(byf[f])
    if x not in pick:
        pick.append(x)
caught = bad = miss = 0
for num, (f, n, r) in enumerate(pick):
    d = tempfile.mkdtemp(prefix='am')
    try:
        subprocess.run('git -C /repo archive HEAD src | tar -x -C ' + d, shell=True, check=True)
        p = d + '/src/lib' + f[len(SRC):]
        old = open(p).read()
        ls = old.split('\n')
        ls[n] = r
        new = '\n'.join(ls)
        open(p, 'w').write(new)
        t = subprocess.run(['clang++', '-std=c++14', '-fsyntax-only', '-w', '-I' + d + '/src/lib', '-I/verif/sa/drv', '-x', 'c++', '-'], input='#include "%s"\n' % p[len(d + '/src/lib/'):].replace('.inl', '.h') if os.path.exists(p.replace('.inl', '.h')) else '', capture_output=True, text=True)
        if t.returncode:
            bad += 1
            continue
        chk = next(c for a, c in MAP if re.search(a, f[len(SRC):])).split()
        got = None
        cnt = 0
        for c in chk:
            e = dict(os.environ, NS_REPO=d)
            q = subprocess.run(['python3', V + '/sa/check.py', c], capture_output=True, text=True, env=e)
            if q.returncode == 1:
                got = c
                break
            if q.returncode != 0:
                got = 'rc%d %s' % (q.returncode, c)
                break
        diff = ''.join(difflib.unified_diff(old.splitlines(1), new.splitlines(1), 'a/src/lib' + f[len(SRC):], 'b/src/lib' + f[len(SRC):], n=2))
        if got is None:
            miss += 1
            with open('/tmp/am/missed-%d.txt' % SEED, 'a') as o:
                o.write('==== %d\n%s' % (num, diff))
            with open('/tmp/am/m%d-%d.diff' % (SEED, num), 'w') as o:
                o.write(diff)
        else:
            caught += 1
            with open('/tmp/am/caught-%d.txt' % SEED, 'a') as o:
                o.write('==== %s\n%s' % (got, diff))
        print(num, os.path.basename(f), n + 1, got, r.strip()[:80], flush=True)
    finally:
        shutil.rmtree(d)
print('caught', caught, 'missed', miss, 'not compiling', bad)
