#!/usr/bin/env python3
"""Once: transcribes the confirmed tables of the base commit into spec/src/tables.rs (the frozen reference)."""
import re, sys
s = open('/repo/src/base_cells.rs').read()
def body(name):
    i = s.index('const %s:' % name); i = s.index('= [', i) + 2
    d = 0
    for j in range(i, len(s)):
        if s[j] == '[': d += 1
        if s[j] == ']':
            d -= 1
            if d == 0: return s[i:j+1]
def nums(t):
    t = re.sub(r'//[^\n]*', '', t).replace('INVALID_BASE_CELL', '127')
    t = re.sub(r'[A-Za-z]\w*', '', t)
    return [int(x) for x in re.findall(r'-?\d+', t)]
def strip(t): return t
nb = nums(body('baseCellNeighbors')); rot = nums(body('baseCellNeighbor60CCWRots'))
bd = nums(re.sub(r'[A-Za-z]\w*', '', re.sub(r'//[^\n]*','',body('baseCellData'))))
fj = nums(re.sub(r'[A-Za-z]\w*', '', re.sub(r'//[^\n]*','',body('faceIjkBaseCells').replace('ccwRot60',''))))
assert len(nb) == 122*7 and len(rot) == 122*7, (len(nb), len(rot))
assert len(bd) == 122*7, len(bd)
assert len(fj) == 20*27*2, len(fj)
o = ["//! Frozen reference tables (see tools/gen_tables.py)."]
def t2(name, ty, l, w):
    o.append("pub const %s: [[%s; %d]; %d] = [" % (name, ty, w, len(l)//w))
    for i in range(0, len(l), w): o.append("    %s," % l[i:i+w])
    o.append("];")
t2("NBR", "u8", nb, 7)
t2("NBR_ROT", "u8", [max(0, x) for x in rot], 7)
t2("HOME", "i32", [x for i in range(122) for x in bd[7*i:7*i+4]], 4)
t2("CW_OFFSET", "i32", [x for i in range(122) for x in (bd[7*i+5:7*i+7] if bd[7*i+4] else [-1,-1])], 2)
t2("FACE_BC", "u8", fj[0::2], 27)
t2("FACE_ROT", "u8", fj[1::2], 27)
open('/verif/spec/src/tables.rs','w').write("\n".join(o)+"\n")
