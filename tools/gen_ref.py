#!/usr/bin/env python3
"""Generates the reference data in /verif/mon/ref from sources independent of /repo
(Python's cp949 codec and Unicode database, glibc's UHC converter, ICU's Korean
collation, KS X 1001 order), except hanja.tsv, which pins the published readings
of the fixed tree (base commit plus the repair of U+574D) and records for each which independent source confirms it.

  gen_ref.py [--base DIR]   DIR: the tree whose readings are pinned
"""
import json, re, subprocess, sys, unicodedata, collections
R = '/verif/mon/ref/'
base = sys.argv[sys.argv.index('--base')+1] if '--base' in sys.argv else None

# --- CP949 ---------------------------------------------------------------
pairs = []
for a in range(0x80, 0x100):
    for b in range(256):
        try: s = bytes([a, b]).decode('cp949')
        except UnicodeDecodeError: continue
        if len(s) == 1: pairs.append((a << 8 | b, ord(s)))
assert len(pairs) == 17048 and len({u for _, u in pairs}) == 17048
for c, u in pairs:
    assert chr(u).encode('cp949') == bytes([c >> 8, c & 255])
blob = b'\n'.join(bytes([c >> 8, c & 255]) for c, _ in pairs)
got = subprocess.run(['iconv', '-f', 'UHC', '-t', 'UTF-8'], input=blob, stdout=subprocess.PIPE, check=True).stdout.decode().split('\n')
bad = [(hex(c), hex(u), g) for (c, u), g in zip(pairs, got) if g != chr(u)]
print('glibc UHC disagreements:', bad)
open(R+'cp949.tsv', 'w').write(''.join('%04x\t%04x\n' % p for p in pairs))

# --- Jamo ----------------------------------------------------------------
cons = 'KIYEOK,SSANGKIYEOK,KIYEOK-SIOS,NIEUN,NIEUN-CIEUC,NIEUN-HIEUH,TIKEUT,SSANGTIKEUT,RIEUL,RIEUL-KIYEOK,RIEUL-MIEUM,RIEUL-PIEUP,RIEUL-SIOS,RIEUL-THIEUTH,RIEUL-PHIEUPH,RIEUL-HIEUH,MIEUM,PIEUP,SSANGPIEUP,PIEUP-SIOS,SIOS,SSANGSIOS,IEUNG,CIEUC,SSANGCIEUC,CHIEUCH,KHIEUKH,THIEUTH,PHIEUPH,HIEUH'.split(',')
short = dict(zip(cons, 'G GG GS N NJ NH D DD L LG LM LB LS LT LP LH M B BB BS S SS ZS J JJ C K T P H'.split()))
vows = 'A AE YA YAE EO E YEO YE O WA WAE OE YO U WEO WE WI YU EU YI I'.split()
comp = dict(AE='A I', E='EO I', YAE='YA I', YE='YEO I', WA='O A', WAE='O A I', OE='O I', WEO='U EO', WE='U EO I', WI='U I', YI='EU I')
stroke = dict(G=1,N=1,D=2,L=3,M=3,B=4,S=2,ZS=1,J=3,C=4,K=2,T=3,P=4,H=3,A=2,YA=3,EO=2,YEO=3,O=2,YO=3,U=2,YU=3,EU=1,I=1)
def parts(n):
    if n in comp: return comp[n].split()
    if n in vows: return [n]
    if n.startswith('SSANG'): return [short[n[5:]]]*2
    return [short[x] for x in n.split('-')]
rows = []
for n in cons+vows:
    s = short.get(n, n)
    r = [s]
    for kind in ('LETTER', 'CHOSEONG', 'JUNGSEONG', 'JONGSEONG'):
        try: cp = ord(unicodedata.lookup('HANGUL %s %s' % (kind, n)))
        except KeyError: cp = 0
        # modern letters only: the ones syllables are made of, by definition of the Unicode algorithm
        r.append('%04x' % cp if cp else '0')
    ps = parts(n)
    assert all(p in stroke for p in ps)
    r += [','.join(ps), str(sum(stroke[p] for p in ps)), n]
    rows.append(r)
# forms that are not modern leads/tails (archaic: not used by precomposed syllables)
used = [set(), set(), set()]
for c in range(0xac00, 0xd7a4):
    for i, x in enumerate(unicodedata.normalize('NFD', chr(c))): used[i].add(ord(x))
for r in rows:
    for col, u in ((2, used[0]), (3, used[1]), (4, used[2])):
        if int(r[col], 16) not in u: r[col] = '0'
assert [sum(r[c] != '0' for r in rows) for c in (1,2,3,4)] == [51,19,21,27]
open(R+'jamo.tsv', 'w').write(''.join('\t'.join(r)+'\n' for r in rows))
open(R+'nfd.tsv', 'w').write(''.join('%04x\t%s\n' % (c, '\t'.join('%04x' % ord(x) for x in unicodedata.normalize('NFD', chr(c)))) for c in range(0xac00, 0xd7a4)))

# --- Hanja ---------------------------------------------------------------
if base:
    t = {int(a,16): int(b,16) for a, b in re.findall(r'(0x[0-9a-f]+): (0x[0-9a-f]+)', open(base+'/hanja/table.go').read())}
    icu = {int(k): v for k, v in json.loads(subprocess.check_output(['node', '/verif/tools/icu_readings.js'])).items()}
    # KS X 1001 lists hanja by reading: bracket each position by its neighbours
    ks = [(c, u) for c, u in pairs if 0xCAA1 <= c <= 0xFDFE and c & 0xff >= 0xa1]
    assert len(ks) == 4888
    seq = [(u, None if 0xF900 <= u <= 0xFA0B else icu.get(u)) for _, u in ks]
    poly = {ord(unicodedata.normalize('NFC', chr(u))) for _, u in ks if 0xF900 <= u <= 0xFA0B}
    rng = collections.defaultdict(set)
    fixed = [i for i, (u, r) in enumerate(seq) if r and u not in poly]
    import bisect
    for i, (u, r) in enumerate(seq):
        nu = ord(unicodedata.normalize('NFC', chr(u)))
        j = bisect.bisect_left(fixed, i)
        lo = seq[fixed[j-1]][1] if j else 0xac00
        k = bisect.bisect_right(fixed, i)
        hi = seq[fixed[k]][1] if k < len(fixed) else 0xd7a3
        rng[nu].add((lo, hi))
    st = collections.Counter(); un = []
    with open(R+'hanja.tsv', 'w') as f:
        for k in sorted(t):
            v = t[k]
            if icu.get(k) == v: s = 'icu'
            elif any(lo <= v <= hi for lo, hi in rng.get(k, ())): s = 'ksx'
            elif k in icu or k in rng: s = 'alt'; un.append((chr(k), chr(v), chr(icu[k]) if k in icu else rng[k]))
            else: s = 'pin'
            st[s] += 1
            f.write('%04x\t%04x\t%s\n' % (k, v, s))
    print(st, un)
    bad = [(chr(u), chr(t[u]), lo, hi) for _, u in ks if u in t for (lo, hi) in rng[u] if u not in poly and not lo <= t[u] <= hi]
    print('KS X 1001 order violations among non-polyphonic hanja:', bad)
