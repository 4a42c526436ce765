#!/usr/bin/env python3
"""One-off: derive sample instructions for every row of /repo/src/table.h (run once; the result,
corpus/extra.txt, is committed and is what the simulators read).  Only a workload: no encoding is
recorded for these lines, so they carry no expectation about how an instruction is encoded."""
import random, re, subprocess, sys, tempfile, os
random.seed(7)
src = open('/repo/src/table.h').read()
body = src[src.index('const insn table[]'):]
opsrc = open('/repo/src/operand.h').read()

def split_top(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '<' or ch == '(': d += 1
        if ch == '>' or ch == ')': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out

rows = []
for m in re.finditer(r'^\s*INSN\((.*)\),\s*$', body, re.M):
    parts = split_top(m.group(1))
    rows.append((parts[2].strip('"'), parts[3:]))

# dot tables, with namespace
tables = {}
ns = None
flat = re.sub(r'\\\n', ' ', opsrc)
for m in re.finditer(r'^namespace (\w+)|^\}|DEFINE_DOT_TABLE\((\w+),\s*(-?\d+),\s*\w+,(.*?)\)\s*;?\s*$|DEFINE_FLAG\((\w+),\s*"([^"]+)",', flat, re.M | re.S):
    if m.group(1): ns = m.group(1)
    elif m.group(2):
        ents = re.findall(r'"([^"]*)"', m.group(4))
        tables[(ns + '::' if ns else '') + m.group(2)] = (int(m.group(3)), [('.' + e) for e in ents if e])
    elif m.group(5):
        tables[(ns + '::' if ns else '') + m.group(5)] = (0, [m.group(6)])
    elif m.group(0).startswith('}'): ns = None

S2R = re.findall(r'"(SR?M?_?\w+)"', opsrc[opsrc.index('DEFINE_OPERAND(s2r)'):opsrc.index('std::optional<uint64_t> value;\n    if (equal(token, "SR_TID"))')])
R = random
def reg(): return R.choice(['R%d' % R.randrange(255), 'R0', 'R254', 'RZ', 'R%d' % R.randrange(16)])
def sreg(): return reg() + (R.choice(['', '', '', '.reuse']))
def pred(): return R.choice(['P%d' % R.randrange(7), 'PT'])
def npred(): return R.choice(['', '!']) + pred()
def num(lo, hi):
    v = R.choice([lo, hi, R.randint(lo, hi), R.randint(max(lo, -16), min(hi, 16)), 0 if lo <= 0 <= hi else lo])
    return R.choice(['%d', '0x%x'] )% v if v >= 0 else R.choice(['%d' % v, '-0x%x' % -v])
def cbuf(): return 'c[0x%x][0x%x]' % (R.randrange(32), 4 * R.randrange(0x1fff))
def flt(): return R.choice(['1.5', '-2.0', '0.1', '3', '-7', '+INF', '-INF', 'QNAN', 'INF', '+1.25', '65504.0', '0.00001', '%d.%d' % (R.randrange(1000), R.randrange(1000))])
def addr(off, size, shr):
    r = R.choice([reg(), reg(), '', 'RZ'])
    if not off: return '[' + (r or 'RZ') + ']'
    if r in ('', 'RZ'):
        return '[%s%s%s]' % (r, '+' if r else '', num(0, min((1 << size) - 1, 0xffff)).replace('-', ''))
    v = R.choice(['', '+' + num(0, (1 << (size - 1)) - 1), '-0x%x' % R.randrange(1, 1 << (size - 1))])
    return '[' + r + v + ']'

def ex(op):
    m = re.match(r'^([\w:]+)(?:<(.*)>)?$', op)
    n, a = m.group(1), (m.group(2) or '')
    args = split_top(a)
    ints = [int(x) for x in args if re.match(r'^-?\d+$', x)]
    if n in ('dgpr',): return reg()
    if n in ('sgpr',): return sreg()
    if n == 'mirror_dgpr': return '@MIRROR@'
    if n == 'comma': return ','
    if n in ('pred',): return npred() if 'true' in args else pred()
    if n == 'inverted_pred': return pred()
    if n in ('neg',): return R.choice(['', '', '-'])
    if n == 'tilde': return R.choice(['', '~'])
    if n == 'abs':
        i = ex(args[1]); return R.choice([i, '|' + i + '|'])
    if n == 'po': return R.choice(['', '', '.PO'])
    if n == 'cbuf': return cbuf()
    if n == 'imm': return num(-(1 << 19), (1 << 19) - 1)
    if n in ('fimm', 'fimm32', 'dimm20', 'fimm16_low', 'fimm16_high', 'fimm9_low', 'fimm9_high'): return flt()
    if n == 'uimm32': return num(0, 2**32 - 1)
    if n == 'simm32': return num(-2**31, 2**31 - 1)
    if n in ('uimm16', 'nop::mask'): return num(0, 65535)
    if n == 'uimm_extended': return num(0, (1 << 20) - 1)
    if n == 'uinteger': return num(0, (1 << ints[0]) - 1)
    if n == 'sinteger': return num(-(1 << (ints[0] - 1)), (1 << (ints[0] - 1)) - 1)
    if n == 'mask4': return num(0, 15)
    if n == 'bop': return R.choice(['.AND', '.OR', '.XOR'])
    if n == 'cc_text': return 'CC'
    if n == 'default_rz': return ''
    if n == 'zero': return '0'
    if n == 'label': return '@LABEL@'
    if n == 'flow_tests': return R.choice(['', 'CC.' + R.choice(['F', 'LT', 'GE', 'T', 'FCSM_TR', 'RGT'])])
    if n == 's2r': return R.choice(S2R + ['SR_TID', 'SR_TID.X', 'SR_TID.Y', 'SR_TID.Z', 'SR_CTAID.X', 'SR_CTAID.Y', 'SR_CTAID.Z'])
    if n == 'memory::address':
        off = 'false' not in args
        size = ints[1] if len(ints) > 1 else 24
        return addr(off, size, 0)
    if n == 'ldc::address': return 'c[0x%x]' % R.randrange(32) + addr(True, 16, 0)
    if n == 'ald::imm_attr': return 'a[%s]' % num(0, 1023)
    if n == 'ald::patch_attr': return 'a[%s+%s]' % (reg(), num(-1024, 1023))
    if n == 'ald::phys_attr': return 'a[%s]' % reg()
    if n == 'ald::p' or n == 'image::p': return '.P'
    if n == 'image::d': return '.D'
    if n == 'ald::phys': return '.PHYS'
    if n == 'b2r::warp': return '.WARP'
    if n == 'b2r::result': return '.RESULT'
    if n == 'xmad::signs': return R.choice(['', '.U16.U16', '.S16.U16', '.U16.S16', '.S16.S16'])
    if n == 'lop3::lut': return '.LUT'
    if n in ('f2f::rounding',): return R.choice(['', '.ROUND', '.FLOOR', '.CEIL', '.TRUNC', '.PASS', '.RN', '.RM', '.RP', '.RZ'])
    if n == 'f2i::int_format': return R.choice(['.U16', '.U32', '.U64', '.S16', '.S32', '.S64'])
    if n == 'i2f::int_format': return R.choice(['.U8', '.U16', '.U32', '.U64', '.S8', '.S16', '.S32', '.S64'])
    if n == 'i2i::format': return R.choice(['.U8', '.U16', '.U32', '.S8', '.S16', '.S32'])
    if n in ('i2f::selector', 'i2i::selector'): return R.choice(['', '', '.B0', '.B1', '.B2', '.B3', '.H0', '.H1'])
    if n == 'p2r::mode': return R.choice(['PR', 'CC'])
    if n == 'ldg::size': return R.choice(['', '.U8', '.S8', '.U16', '.S16', '.32', '.64', '.128', '.U.128'])
    if n == 'atomic_size': return R.choice(['', '.U32', '.S32', '.U64', '.F32.FTZ.RN', '.F16x2.RN', '.S64'])
    if n == 'lea::hi': return '.HI'
    if n == 'lea::lo': return R.choice(['', '.LO'])
    if n == 'shf::r': return '.R'
    if n == 'shf::l': return '.L'
    if n == 'video::src_format': return R.choice(['', '.S8', '.S16', '.S32', '.U8', '.U16', '.U32'])
    if n == 'video::imm_format': return R.choice(['', '.U16', '.S16'])
    if n == 'video::selector': return R.choice(['', '.B0', '.B1', '.B2', '.B3', '.H0', '.H1'])
    if n == 'store_cache': return R.choice(['', '.CG', '.CS', '.WT'])
    if n == 'tex_type': return R.choice(['1D', 'ARRAY_1D', '2D', 'ARRAY_2D', '3D', 'ARRAY_3D', 'CUBE', 'ARRAY_CUBE'])
    if n == 'b_text': return '.B'
    if n == 'lod_text': return '.LOD'
    if n == 'texs_mode': return R.choice(['', '.LZ', '.LL']) + R.choice(['', '.DC'])
    if n == 'tlds_type': return R.choice(['1D', '2D', '3D', 'ARRAY_2D'])
    if n == 'texs_type': return R.choice(['1D', '2D', 'ARRAY_2D', '3D', 'CUBE'])
    if n == 'texs_swizzle': return R.choice(['R', 'G', 'B', 'A', 'RG', 'RA', 'GA', 'BA', 'RGB', 'RGA', 'RBA', 'GBA', 'RGBA'])
    if n == 'txq::mode': return R.choice(['TEX_HEADER_DIMENSION', 'TEX_HEADER_TEXTURE_TYPE', 'TEX_HEADER_SAMPLER_POS'])
    for key in (n,):
        if key in tables:
            d, ents = tables[key]
            return R.choice(ents + ([''] if d >= 0 else []))
    raise KeyError(op)

def render(mn, ops):
    s = mn; dst = None
    for o in ops:
        t = ex(o)
        if not t: continue
        if o.startswith('dgpr<0>') and dst is None: dst = t
        if t == '@MIRROR@': t = dst
        if t == '@LABEL@': t = R.choice(['0x%x' % (8 * R.randrange(64)), '@L'])
        if t == ',': s += ','
        elif t.startswith('.'):
            # a modifier straight after a literal or a bracket needs a space
            s += (' ' if s[-1].isdigit() and not re.search(r'R\d+$', s) or s.endswith('INF') or s.endswith('QNAN') else '') + t
        else: s += ' ' + t if s[-1] not in '-~|' else t
    return s

d = tempfile.mkdtemp()
acc = {}
bad = []
def ok(s):
    p = os.path.join(d, 'x.s'); open(p, 'w').write('L:\n' + s.replace('@L', 'L') + ';\n')
    r = subprocess.run(['/repo/_build/nxas', p, '-o', os.path.join(d, 'x.o')], stderr=subprocess.DEVNULL)
    return r.returncode
stat = []
for i, (mn, ops) in enumerate(rows):
    good = set(); tries = 0
    while len(good) < 6 and tries < 60:
        tries += 1
        s = render(mn, ops)
        if s in good or s in acc: continue
        rc = ok(s)
        if rc == 0: good.add(s)
        else: bad.append((rc, s))
    for g in sorted(good): acc[g] = i
    stat.append((len(good), i, mn))
print([x for x in stat if x[0] < 4])
from collections import Counter
print(Counter(rc for rc, _ in bad))
for rc, s in bad:
    if rc != 1: print(rc, s)
with open('/verif/corpus/extra.txt', 'w') as f:
    for s in acc: f.write(s.replace('@L', 'LABEL') + '\n')
badset = sorted({s for rc, s in bad if rc == 1})
R.shuffle(badset)
with open('/verif/corpus/rejects.txt') as f: have = f.read().split('\n')
with open('/verif/corpus/rejects_extra.txt', 'w') as f:
    for s in badset[:200]: f.write(s.replace('@L', 'LABEL') + '\n')
print(len(acc), len(badset), len(rows))
