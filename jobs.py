"""The jobs of every property: which harness, with which bounds."""
import subprocess
VARIANTS = {"def": [], "port": ["-include", "@H/vf_portable.h"], "m32": ["-m32"], "cxx": ["-x", "c++", "-std=c++14", "-fno-exceptions", "-fno-rtti", "-Wno-c++11-narrowing", "-include", "tommyds/tommy.h"], "nd": ["-DNDEBUG"], "uc": ["-funsigned-char"], "m32port": ["-m32", "-include", "@H/vf_portable.h"]}
FOUR = ("def", "port", "m32", "m32port")
KNOWN = []
ASSUME = []
MAP, ORD, MEM, DONE, EACH, PURE, OWN, HEAP, COST, LOAD, BLK, NODE, FRAG, WASTE, WORK = (1 << i for i in range(15))
def z3version():
    try: return subprocess.run(["z3", "--version"], stdout=subprocess.PIPE, text=True).stdout.split()[2]
    except Exception: return "?"
PROPS = {}
def P(pid, **kw): PROPS[pid] = dict(kw, quick=[], thorough=[])
def job(pid, name, h, e, p=(), tier="both", **kw):
    d = dict(name=name, h=h, e=e, p=list(p), **kw)
    if tier in ("quick", "both"): PROPS[pid]["quick"].append(d)
    if tier in ("thorough", "both"): PROPS[pid]["thorough"].append(d)
def jobs(pid, tier): return PROPS[pid][tier]

def hist(pid, name, pfx, g, pk=0, s=10, nf=1, lo=3, ph=2, win=1, st=1, ro=0, every=4, bmax=16, work=100000, wlo=None, base=0, stride=1, rm=0, **kw):
    job(pid, name, "map.c", pfx + "_hist", [g, pk, s, nf, lo, ph, win, st, ro, every, bmax, work, lo if wlo is None else wlo, base, stride, rm], **kw)
DL = 0x89249249            # one bit in every digit of a trie key (5 + 9*3 bits), the lowest of the digits
DH = 0x84924924            # the highest of the digits
DT, DM, DB = 0xff000000, 0x00038000, 0x3f # top digits, a middle digit and a half, the two bottom digits
D4 = 0x81000009            # four digits: the first, the second, the last two
EL = 0x85555555            # the same for the in-place trie (6 + 13*2 bits)
EH = 0x8a000002
E4 = 0x85000001
ALL = 0xffffffff
def arr(pid, name, pfx, g=MAP, es=8, lim=1000, grows=2, edges=10, lo=0, kinds=2, two=1, e="grow", **kw): job(pid, name, "arr.c", pfx + "_" + e, [g, es, lim, grows, edges, lo, kinds, two], **kw)
def fill(pid, name, pfx, g, n, es=8, step=1, v="def", **kw): job(pid, name, "arr.c", pfx + "_fill", [g, es, n, step, n], v=v, **dict(dict(steps=400000000), **kw))
def lst(pid, name, e, p, **kw): job(pid, name, "list.c", e, p, **kw)
def tree(pid, name, e, p, **kw): kw.setdefault("logic", 3); job(pid, name, "tree.c", e, p, **kw)
def hsh(pid, name, e, p=(), **kw): job(pid, name, "hash.c", e, p, **kw)
def alc(pid, name, e, p, **kw): job(pid, name, "alloc.c", e, p, **kw)
def mul(pid, name, e, p, **kw): job(pid, name, "multi.c", e, p, **kw)
Q, TH = "quick", "thorough"

def huge(pid, g, kinds=("tbl", "dyn", "lin"), st=15, v="def", sfx="", **kw):
	"""thousands of elements: concrete low bits, symbolic high bits, one free key"""
	d = dict(ph=2, s=18, pk=10, lo=0, every=512, stride=200, bmax=3000, v=v, steps=400000000); d.update(kw)
	for t in kinds: hist(pid, t + "-huge" + sfx, t, g, st=st, **d)
def hugetries(pid, g, kinds=("trie", "inp"), st=14, v="def", sfx="", **kw):
	d = dict(ph=2, nf=1, lo=0x80000001, every=512, stride=50, v=v, steps=400000000); d.update(kw)
	for t in kinds: hist(pid, t + "-huge" + sfx, t, g, st=st, pk=9, **d); hist(pid, t + "-huge-low" + sfx, t, g, st=st, pk=8, **d)

P("P01")
lst("P01", "ops", "list_ops", [MAP, 3, 2, 2, 8, 2])
lst("P01", "ops3", "list_ops", [MAP, 2, 2, 3, 6, 1])
lst("P01", "ops-m32", "list_ops", [MAP, 3, 2, 2, 8, 1], v="m32")
lst("P01", "ops4", "list_ops", [MAP, 2, 1, 4, 6, 1], tier=TH)
lst("P01", "ops3-sort", "list_ops", [MAP, 4, 3, 3, 8, 1], tier=TH)
P("P02")
lst("P02", "any6", "list_sort", [MAP, 6, 8, 0, 0, 0])
lst("P02", "any5-then", "list_sort", [MAP, 5, 8, 1, 1, 0])
lst("P02", "bits8", "list_sort", [MAP, 8, 1, 2, 0, 0])
lst("P02", "wide4", "list_sort", [MAP, 0, 64, 1, 1, 0, 0, 0, 5])
for o in range(8): lst("P02", "long-%d" % o, "list_sort", [MAP, 33, 8, 1, 0, 4, o, 2])
lst("P02", "any7", "list_sort", [MAP, 7, 8, 1, 0, 0], tier=TH)
lst("P02", "any8", "list_sort", [MAP, 8, 8, 1, 0, 0], tier=TH)
lst("P02", "bits11", "list_sort", [MAP, 11, 1, 0, 0, 0], tier=TH)
for o in range(8): lst("P02", "long3-%d" % o, "list_sort", [MAP, 63, 8, 1, 0, 4, o, 3], tier=TH)
for o in (2, 3, 6, 7): lst("P02", "huge-%d" % o, "list_sort", [MAP, 1000, 10, 1, 0, 4, o, 1], steps=400000000)
P("P03")
lst("P03", "any6", "list_sort", [COST, 6, 8, 0, 0, 0])
lst("P03", "any-upto5", "list_sort", [COST, 0, 16, 0, 0, 0, 0, 0, 6])
lst("P03", "ordered", "list_sort", [COST, 0, 16, 0, 0, 1, 0, 0, 65])
lst("P03", "increasing", "list_sort", [COST, 0, 16, 0, 0, 2, 0, 0, 65])
lst("P03", "decreasing", "list_sort", [COST, 0, 16, 0, 0, 3, 0, 0, 65])
for o in range(8): lst("P03", "long-%d" % o, "list_sort", [COST, 33, 8, 1, 0, 4, o, 2]); lst("P03", "long64-%d" % o, "list_sort", [COST, 64, 8, 1, 0, 4, o, 1])
lst("P03", "any8", "list_sort", [COST, 8, 8, 1, 0, 0], tier=TH)
lst("P03", "bits12", "list_sort", [COST, 12, 1, 0, 0, 0], tier=TH)
for o in range(8): lst("P03", "long3-%d" % o, "list_sort", [COST, 64, 8, 1, 0, 4, o, 3], tier=TH)

for o in (2, 3, 6, 7): lst("P03", "huge-%d" % o, "list_sort", [COST, 1000, 10, 1, 0, 4, o, 1], steps=400000000)
lst("P03", "ordered128", "list_sort", [COST, 127, 16, 0, 0, 1, 0, 0, 3])
P("P04")
hist("P04", "collide", "tbl", MAP, st=1, pk=2, win=1)
hist("P04", "spread", "tbl", MAP, st=8, pk=7, win=1, bmax=17)
hist("P04", "free2", "tbl", MAP, st=5, nf=2, lo=2, ph=1, win=2, wlo=1)
hist("P04", "same", "tbl", MAP, st=0, pk=1, win=2)
hist("P04", "m32", "tbl", MAP, st=0, pk=0, v="m32")
hist("P04", "free3", "tbl", MAP, st=5, nf=3, lo=17, ph=1, win=2, tier=TH)
hist("P04", "win3", "tbl", MAP, st=5, nf=2, lo=1, ph=1, win=3, tier=TH)
hist("P04", "big", "tbl", MAP, st=3, pk=8, ph=3, bmax=40, tier=TH)
huge("P04", MAP, ("tbl",)); hist("P04", "huge-9", "tbl", MAP, st=16, ph=2, pk=10, s=18, lo=0, every=4096, stride=2000, bmax=30000, steps=1000000000)
P("P05")
hist("P05", "grow-shrink", "dyn", MAP)
hist("P05", "same", "dyn", MAP, pk=1, st=0)
hist("P05", "big", "dyn", MAP, st=3, ro=2, pk=7)
hist("P05", "free2", "dyn", MAP, st=5, nf=2, lo=2, ph=1, win=2, wlo=1)
hist("P05", "win2", "dyn", MAP, st=0, ph=1, win=2)
hist("P05", "edge", "dyn", MAP, st=11, ph=2, win=1, pk=2, s=12)
hist("P05", "free3", "dyn", MAP, st=5, nf=3, lo=17, ph=1, win=2, tier=TH)
hist("P05", "phases3", "dyn", MAP, st=4, ph=3, win=1, pk=6, tier=TH)
hist("P05", "large", "dyn", MAP, st=10, ph=2, win=1, pk=0, every=64, tier=TH)
hist("P05", "win3", "dyn", MAP, st=1, ph=1, win=3, lo=1, tier=TH)
huge("P05", MAP, ("dyn",)); huge("P05", MAP, ("dyn",), sfx="-last", ro=1, pk=8); hist("P05", "huge-9", "dyn", MAP, st=16, ph=2, pk=10, s=18, lo=0, every=4096, stride=2000, steps=1000000000)
P("P06")
hist("P06", "small", "lin", MAP, st=2, ph=2)
hist("P06", "edge", "lin", MAP, st=11, ph=2, ro=2)
hist("P06", "big", "lin", MAP, st=7, ph=2, ro=1, pk=2, every=16)
hist("P06", "same", "lin", MAP, st=11, ph=1, pk=1, every=16)
hist("P06", "reverse", "lin", MAP, st=12, ph=3, win=1, pk=7, every=16)
hist("P06", "win2", "lin", MAP, st=11, ph=1, win=2, lo=1)
hist("P06", "shrinking", "lin", MAP, st=4, ro=2, tier=TH)
hist("P06", "growing", "lin", MAP, st=6, ro=1, pk=2, every=8, tier=TH)
hist("P06", "phases3", "lin", MAP, st=4, ph=3, win=1, pk=6, every=16, tier=TH)
hist("P06", "large", "lin", MAP, st=10, ph=2, win=1, pk=0, every=64, tier=TH)
hist("P06", "free3", "lin", MAP, st=5, nf=3, lo=5, ph=1, win=2, tier=TH)
huge("P06", MAP, ("lin",)); huge("P06", MAP, ("lin",), sfx="-last", ro=1, pk=8); huge("P06", MAP, ("lin",), st=14, sfx="-3", ph=3); hist("P06", "huge-9", "lin", MAP, st=16, ph=2, pk=10, s=18, lo=0, every=4096, stride=2000, steps=1000000000)
P("P07")
for t, st in (("tbl", 8), ("dyn", 1), ("lin", 11)):
	hist("P07", t + "-same", t, ORD, pk=1, st=st, ph=2 if t != "lin" else 1, ro=2, every=64)
	hist("P07", t + "-few", t, ORD, pk=4, st=st, ph=2 if t != "lin" else 1, ro=1, every=64)
	hist("P07", t + "-free", t, ORD, pk=0, st=0, nf=2, lo=1, ph=1, win=2)
for t, m in (("trie", D4), ("inp", E4)):
	hist("P07", t + "-same", t, ORD, pk=1, st=0, nf=1, lo=m, ph=2, win=1)
	hist("P07", t + "-free", t, ORD, pk=4, st=5, nf=2, lo=m & 0xc0000009, ph=1, win=2)
hist("P07", "lin-reverse", "lin", ORD, pk=4, st=12, ph=3, win=1, every=64)
hist("P07", "lin-long", "lin", ORD, pk=4, st=6, ph=2, ro=2, every=64, tier=TH)
hist("P07", "lin-long1", "lin", ORD, pk=1, st=4, ph=3, ro=2, every=64, tier=TH)
hist("P07", "dyn-long", "dyn", ORD, pk=4, st=4, ph=3, ro=2, every=64, tier=TH)
hist("P07", "trie-deep", "trie", ORD, pk=4, st=5, nf=2, lo=DL, ph=1, win=2, tier=TH)
hist("P07", "inp-deep", "inp", ORD, pk=4, st=5, nf=2, lo=EL, ph=1, win=2, tier=TH)
huge("P07", ORD, st=14, pk=4, ro=1)
P("P08")
hist("P08", "deep2", "trie", MAP, nf=1, lo=DL, ph=1, st=5, win=1)
hist("P08", "high", "trie", MAP, nf=1, lo=DH, ph=1, st=5, win=1)
hist("P08", "top", "trie", MAP, nf=1, lo=DT, ph=1, st=5, win=1)
hist("P08", "middle", "trie", MAP, nf=1, lo=DM, ph=1, st=5, win=2, wlo=0x00028000)
hist("P08", "bottom", "trie", MAP, nf=1, lo=DB, ph=1, st=0, win=1)
hist("P08", "all", "trie", MAP, nf=0, lo=ALL, ph=1, st=5, win=1)
hist("P08", "four", "trie", MAP, nf=2, lo=D4, ph=1, st=5, win=2, wlo=0x81000001)
hist("P08", "many", "trie", MAP, nf=1, lo=0x80000009, ph=2, st=8, win=1, pk=7)
hist("P08", "equal-branch", "trie", MAP, nf=3, lo=0x07000000, ph=1, st=13, win=1)
hist("P08", "equal-last", "trie", MAP, nf=3, lo=0x00000007, ph=1, st=13, win=1)
hist("P08", "m32", "trie", MAP, nf=1, lo=D4, ph=1, st=5, win=1, v="m32")
hist("P08", "port", "trie", MAP, nf=1, lo=DL, ph=1, st=5, win=1, v="port")
hist("P08", "deep3", "trie", MAP, nf=2, lo=DL, ph=1, st=5, win=1, tier=TH)
hist("P08", "deep3w", "trie", MAP, nf=1, lo=DL, ph=1, st=5, win=2, tier=TH)
hist("P08", "four-w3", "trie", MAP, nf=1, lo=D4, ph=1, st=5, win=3, tier=TH)
hist("P08", "all2", "trie", MAP, nf=0, lo=ALL, ph=1, st=5, win=2, tier=TH)
hugetries("P08", MAP, ("trie",))
P("P09")
hist("P09", "deep2", "inp", MAP | HEAP, nf=1, lo=EL, ph=1, st=5, win=1)
hist("P09", "deep3", "inp", MAP | HEAP, nf=1, lo=EL, ph=1, st=5, win=2, wlo=0x85000055)
hist("P09", "high", "inp", MAP | HEAP, nf=1, lo=EH, ph=1, st=5, win=2)
hist("P09", "top", "inp", MAP | HEAP, nf=1, lo=0xff000000, ph=1, st=5, win=1)
hist("P09", "bottom", "inp", MAP | HEAP, nf=1, lo=0x3f, ph=1, st=0, win=1)
hist("P09", "all", "inp", MAP | HEAP, nf=0, lo=ALL, ph=1, st=5, win=1)
hist("P09", "four", "inp", MAP | HEAP, nf=2, lo=E4, ph=1, st=5, win=2)
hist("P09", "many", "inp", MAP | HEAP, nf=1, lo=0x80000005, ph=2, st=8, win=1, pk=7)
hist("P09", "equal-branch", "inp", MAP | HEAP, nf=4, lo=0x03000000, ph=1, st=13, win=1, wlo=0x03000000)
hist("P09", "equal-last", "inp", MAP | HEAP, nf=3, lo=0x00000003, ph=1, st=13, win=1)
hist("P09", "equal-first", "inp", MAP | HEAP, nf=3, lo=0x03000000, ph=1, st=13, win=1, base=0x0c000000)
hist("P09", "m32", "inp", MAP | HEAP, nf=1, lo=E4, ph=1, st=5, win=1, v="m32")
hist("P09", "port", "inp", MAP | HEAP, nf=1, lo=EL, ph=1, st=5, win=1, v="port")
hist("P09", "deep3x", "inp", MAP | HEAP, nf=2, lo=EL, ph=1, st=5, win=2, tier=TH)
hist("P09", "four-w3", "inp", MAP | HEAP, nf=1, lo=E4, ph=1, st=5, win=3, tier=TH)
hist("P09", "all2", "inp", MAP | HEAP, nf=0, lo=ALL, ph=1, st=5, win=2, tier=TH)

def trees(pid, g, thorough=True):
	tree(pid, "shape3", "tree_shape", [g, 3, 2])
	tree(pid, "shape4", "tree_shape", [g, 4, 1])
	tree(pid, "any4", "tree_any", [g, 4, 1, 8])
	tree(pid, "extreme", "tree_any", [g, 3, 1, 3, 0, 1])
	if not thorough: return
	tree(pid, "shape4-2", "tree_shape", [g, 4, 2], tier=TH)
	tree(pid, "shape5", "tree_shape", [g, 5, 1], tier=TH)
	tree(pid, "any6", "tree_any", [g, 6, 1, 8], tier=TH)
hugetries("P09", MAP | HEAP, ("inp",))
P("P10"); trees("P10", MAP); tree("P10", "m32", "tree_any", [MAP, 4, 1, 8], v="m32"); tree("P10", "sparse5", "tree_sparse", [MAP, 5, 1, 0, 0, 0, 3]); tree("P10", "run", "tree_run", [MAP, 20, 2, 2])
for o in (0, 1, 3): tree("P10", "run300-%d" % o, "tree_run", [MAP, 300, o, 3], steps=400000000)
P("P11"); trees("P11", COST)
tree("P11", "sparse6", "tree_sparse", [COST, 6, 1])
for o in range(4): tree("P11", "run-%d" % o, "tree_run", [COST, 30, o, o % 3])
tree("P11", "sparse5-2", "tree_sparse", [COST, 5, 2, 0, 0, 0, 2])
tree("P11", "sparse7", "tree_sparse", [COST, 7, 1], tier=TH)
for o in range(4): tree("P11", "run70-%d" % o, "tree_run", [COST, 70, o, (o + 1) % 3], tier=TH)

def arrays(pid, g, v="def", sfx=""):
	if pid == "P28": # the 32-bit array divides where the 64-bit one shifts: smaller bounds
		arr(pid, "arr" + sfx, "arr", g, lim=200, two=0, edges=3, kinds=1, grows=1, v=v)
		arr(pid, "arrof" + sfx, "arrof", g, lim=130, es=24, two=0, edges=2, kinds=1, grows=1, v=v)
		arr(pid, "arr-insert" + sfx, "arr", g, lim=130, lo=127, two=0, edges=1, grows=1, v=v)
		arr(pid, "blk" + sfx, "blk", g, lim=9000, two=0, edges=3, kinds=1, v=v); arr(pid, "blkof" + sfx, "blkof", g, lim=9000, es=13, two=0, edges=3, kinds=1, v=v); arr(pid, "blk-insert" + sfx, "blk", g, lim=4097, lo=4094, two=0, edges=2, v=v)
		return
	arr(pid, "arr" + sfx, "arr", g, lim=300, two=0, edges=6, kinds=2, grows=1, v=v)
	arr(pid, "arrof" + sfx, "arrof", g, lim=200, es=24, two=0, edges=3, kinds=1, v=v)
	arr(pid, "blk" + sfx, "blk", g, lim=9000, two=0, edges=3, kinds=1, v=v)
	arr(pid, "blkof" + sfx, "blkof", g, lim=9000, es=13, two=0, edges=3, kinds=1, v=v)
	arr(pid, "arr-insert" + sfx, "arr", g, lim=130, lo=126, two=0, edges=2, v=v)
	arr(pid, "blk-insert" + sfx, "blk", g, lim=4097, lo=4094, two=0, edges=2, v=v)
for o in range(4): tree("P11", "run500-%d" % o, "tree_run", [COST, 500, o, 3], steps=400000000)
P("P12")
arr("P12", "ptr-two", "arr", lim=1 << 10, grows=1, edges=1, kinds=1)
arr("P12", "ptr-any", "arr", lim=1 << 33, grows=1, edges=1, two=0, kinds=1)
arr("P12", "of-any-12", "arrof", lim=1 << 33, es=12, grows=1, edges=1, two=0, kinds=1)
arr("P12", "ptr-grow", "arr", lim=1 << 12, two=0, edges=5, kinds=1)
arr("P12", "ptr-insert", "arr", lim=130, lo=60, two=0, edges=6)
arr("P12", "of-two-13", "arrof", lim=300, es=13, grows=1, edges=1, kinds=1)
arr("P12", "of-grow-24", "arrof", lim=140, es=24, two=0, edges=3, kinds=1)
arr("P12", "of-insert-3", "arrof", lim=130, lo=126, es=3, two=0, edges=1, grows=1)
arr("P12", "m32", "arr", lim=1 << 20, two=0, edges=2, grows=1, kinds=1, v="m32")
arr("P12", "ptr-grow3", "arr", lim=1 << 13, grows=3, two=0, edges=6, kinds=1, tier=TH)
arr("P12", "of-grow-100", "arrof", lim=1 << 10, es=100, two=0, edges=6, kinds=2, tier=TH)
arr("P12", "of-grow-1", "arrof", lim=1 << 10, es=1, two=0, edges=6, kinds=2, tier=TH)
arr("P12", "ptr-two-insert", "arr", lim=300, two=1, edges=4, tier=TH)
arr("P12", "of-huge", "arrof", lim=2000, es=1 << 24, grows=1, edges=1, two=0, kinds=1)
fill("P12", "ptr-fill", "arr", MAP, 70000); fill("P12", "ptr-fill-7", "arr", MAP, 9001, step=7); fill("P12", "of-fill-12", "arrof", MAP, 20000, es=12); fill("P12", "of-fill-1", "arrof", MAP, 70000, es=1, step=3); fill("P12", "of-fill-m32", "arrof", MAP, 20000, es=5, v="m32")
P("P13")
arr("P13", "ptr-two", "blk", lim=20000, grows=1, edges=1, kinds=1)
arr("P13", "ptr-grow", "blk", lim=20000, two=0, edges=9, kinds=1)
arr("P13", "ptr-insert", "blk", lim=4100, lo=4090, two=0, edges=3)
arr("P13", "ptr-any", "blk", lim=1 << 20, two=0, grows=1, edges=1, lo=(1<<20)-20000, kinds=1)
arr("P13", "of-two-24", "blkof", lim=12288, es=24, grows=1, edges=1, kinds=1)
arr("P13", "of-grow-13", "blkof", lim=12288, es=13, two=0, edges=9, kinds=1)
arr("P13", "of-insert-3", "blkof", lim=4100, lo=4093, es=3, two=0, edges=2)
arr("P13", "table-segments", "blk", lim=65 * 4096, lo=63 * 4096, two=0, grows=1, edges=1, kinds=1)
arr("P13", "m32", "blk", lim=20000, two=0, edges=2, grows=1, kinds=1, v="m32")
arr("P13", "of-huge", "blkof", lim=20000, es=1 << 22, two=0, grows=2, edges=1, kinds=1)
arr("P13", "of-huge-two", "blkof", lim=6000, es=1 << 21, two=1, grows=1, edges=1, kinds=1)
arr("P13", "ptr-grow3", "blk", lim=40000, grows=3, two=0, edges=9, kinds=1, tier=TH)
arr("P13", "of-grow-100", "blkof", lim=20000, es=100, two=0, edges=9, kinds=2, tier=TH)
arr("P13", "of-grow-1", "blkof", lim=20000, es=1, two=0, edges=9, kinds=2, tier=TH)
fill("P13", "ptr-fill", "blk", MAP, 70000); fill("P13", "ptr-fill-7", "blk", MAP, 9001, step=7); fill("P13", "of-fill-12", "blkof", MAP, 20000, es=12); fill("P13", "of-fill-1", "blkof", MAP, 70000, es=1, step=3); fill("P13", "ptr-fill-300k", "blk", MAP, 300000, step=5000)
P("P14")
alc("P14", "small", "alloc_fill", [MAP, 1, 80, 1, 3, 8, 2])
alc("P14", "sizes", "alloc_fill", [MAP, 81, 200, 7, 4, 2, 2])
alc("P14", "around-segment", "alloc_fill", [MAP, 3900, 260, 1, 3, 2, 1])
alc("P14", "aligns", "alloc_fill", [MAP, 8, 30, 13, 11, 4, 1])
alc("P14", "hist", "alloc_hist", [MAP, 7, 3, 2, 2])
alc("P14", "hist-m32", "alloc_hist", [MAP, 6, 3, 2, 2], v="m32")
alc("P14", "small-m32", "alloc_fill", [MAP, 1, 40, 1, 5, 2, 2], v="m32")
alc("P14", "all-small", "alloc_fill", [MAP, 1, 600, 1, 9, 8, 2], tier=TH)
alc("P14", "all-large", "alloc_fill", [MAP, 601, 4500, 1, 6, 3, 2], tier=TH)
alc("P14", "aligns-all", "alloc_fill", [MAP, 1, 300, 1, 11, 16, 1], tier=TH)
alc("P14", "hist10", "alloc_hist", [MAP, 9, 12, 2, 2], tier=TH)

# the same small histories for every container, for the properties that are common to them
def tables(pid, g, st=(0, 1, 11), v="def", sfx="", **kw):
	hist(pid, "tbl" + sfx, "tbl", g, st=st[0], v=v, **dict(dict(pk=2), **kw))
	hist(pid, "dyn" + sfx, "dyn", g, st=st[1], v=v, **kw)
	hist(pid, "lin" + sfx, "lin", g, st=st[2], v=v, **dict(dict(every=8), **kw))
def tries(pid, g, v="def", sfx="", **kw):
	hist(pid, "trie" + sfx, "trie", g, nf=1, lo=D4, ph=1, st=5, win=2, v=v, **kw)
	hist(pid, "trie-many" + sfx, "trie", g, nf=1, lo=0x00000009, ph=2, st=8, win=1, pk=7, v=v, **kw)
	hist(pid, "inp" + sfx, "inp", g, nf=1, lo=E4, ph=1, st=5, win=2, v=v, **kw)
	hist(pid, "inp-many" + sfx, "inp", g, nf=1, lo=0x00000005, ph=2, st=8, win=1, pk=7, v=v, **kw)
def allocs(pid, g, v="def", sfx=""):
	alc(pid, "alloc" + sfx, "alloc_fill", [g, 1, 60, 5, 4, 2, 2], v=v)
	alc(pid, "alloc-large" + sfx, "alloc_fill", [g, 3940, 110, 1, 2, 1, 1], v=v)
	alc(pid, "alloc-hist" + sfx, "alloc_hist", [g, 6, 3, 2, 1], v=v)
def deeper(pid, g):
	hist(pid, "tbl-deep", "tbl", g, st=8, ph=3, win=2, lo=1, tier=TH)
	hist(pid, "dyn-deep", "dyn", g, st=4, ph=2, win=2, lo=1, every=16, tier=TH)
	hist(pid, "lin-deep", "lin", g, st=4, ph=2, win=2, lo=1, every=16, tier=TH)
	hist(pid, "lin-deep3", "lin", g, st=11, ph=3, win=1, ro=2, every=16, tier=TH)
	hist(pid, "trie-deep", "trie", g, nf=1, lo=DL, ph=1, st=5, win=2, tier=TH)
	hist(pid, "inp-deep", "inp", g, nf=1, lo=EL, ph=1, st=5, win=2, tier=TH)
def lists(pid, g, v="def", sfx=""):
	lst(pid, "list" + sfx, "list_ops", [g, 3, 2, 2, 8, 1], v=v)
def few_trees(pid, g, v="def", sfx=""):
	tree(pid, "tree-shape3" + sfx, "tree_shape", [g, 3, 2], v=v)
	tree(pid, "tree-shape4" + sfx, "tree_shape", [g, 4, 1], v=v)
	tree(pid, "tree-any" + sfx, "tree_any", [g, 3, 1, 4], v=v)
alc("P14", "many", "alloc_fill", [MAP, 8, 3, 24, 2, 2, 9000], steps=400000000); alc("P14", "many-large", "alloc_fill", [MAP, 1000, 2, 1031, 2, 1, 700], steps=400000000)
P("P15"); tables("P15", DONE); tries("P15", DONE); arrays("P15", DONE); allocs("P15", DONE); deeper("P15", DONE)
hist("P15", "lin-reverse", "lin", DONE, st=12, ph=3, win=0, every=64, pk=0)
hist("P15", "lin-full", "lin", DONE, st=7, ph=2, ro=2, every=64)
huge("P15", DONE, ("dyn", "lin")); huge("P15", DONE, ("dyn", "lin"), st=16, sfx="-9", every=4096, stride=2000, steps=1000000000)
fill("P15", "arr-fill", "arr", DONE, 20000); fill("P15", "arrof-fill", "arrof", DONE, 20000, es=12); fill("P15", "blk-fill", "blk", DONE, 70000); fill("P15", "blkof-fill", "blkof", DONE, 20000, es=12)
P("P16"); tables("P16", MEM, every=1); tries("P16", MEM, every=1); arrays("P16", MEM); allocs("P16", MEM); few_trees("P16", MEM); deeper("P16", MEM)
arr("P16", "of-huge", "arrof", MEM, lim=2000, es=1 << 24, grows=1, edges=1, two=0, kinds=1); arr("P16", "blkof-huge", "blkof", MEM, lim=20000, es=1 << 22, two=0, grows=1, edges=1, kinds=1)
hist("P16", "lin-reverse", "lin", MEM, st=12, ph=3, win=0, every=1, pk=0)
hist("P16", "lin-full", "lin", MEM, st=7, ph=2, ro=2, every=1)
huge("P16", MEM, ("dyn", "lin")); huge("P16", MEM, ("dyn", "lin"), st=16, sfx="-9", every=4096, stride=2000, steps=1000000000)
fill("P16", "arr-fill", "arr", MEM, 20000); fill("P16", "arrof-fill", "arrof", MEM, 20000, es=12); fill("P16", "blk-fill", "blk", MEM, 70000); fill("P16", "blkof-fill", "blkof", MEM, 20000, es=12)
P("P17")
for v in FOUR: hsh("P17", "short-" + v, "hash_any", [0, 29, 8], v=v)
hsh("P17", "long", "hash_any", [47, 4, 2])
for v in FOUR: hsh("P17", "upto100-" + v, "hash_any", [29, 72, 16], v=v, tier=TH)
hsh("P17", "all-100", "hash_any", [29, 72, 1]); hsh("P17", "all-100-port", "hash_any", [29, 72, 1], v="port"); hsh("P17", "long65536-port", "hash_any", [65535, 14, 1, 14], v="port"); hsh("P17", "long255", "hash_any", [255, 3, 1]); hsh("P17", "long1024", "hash_any", [1023, 3, 1, 12]); hsh("P17", "long65536", "hash_any", [65535, 14, 1, 14], steps=400000000); hsh("P17", "long-million", "hash_any", [(1 << 20) + 6, 1, 1, 14], steps=400000000); hsh("P17", "long512-all", "hash_any", [510, 4, 2], tier=TH); hsh("P17", "long1024-all", "hash_any", [1020, 8, 1], tier=TH)
P("P18")
for v in FOUR: hsh("P18", "short-" + v, "str_any", [0, 14, 8, 3], v=v)
hsh("P18", "long", "str_any", [22, 4, 2, 2])
for v in FOUR: hsh("P18", "upto50-" + v, "str_any", [14, 36, 16, 9], v=v, tier=TH)
hsh("P18", "all-80", "str_any", [14, 67, 1, 1]); hsh("P18", "all-80-port", "str_any", [14, 67, 1, 1], v="port"); hsh("P18", "long254", "str_any", [254, 3, 1, 1]); hsh("P18", "long1024", "str_any", [1022, 4, 1, 1, 12]); hsh("P18", "long65536", "str_any", [65530, 14, 1, 1, 12], steps=400000000); hsh("P18", "long512-all", "str_any", [510, 4, 2, 2], tier=TH); hsh("P18", "long1024-all", "str_any", [1022, 4, 1, 1], tier=TH)
P("P19")
hsh("P19", "one32", "int32_one"); hsh("P19", "one64", "int64_one"); hsh("P19", "ref", "int_ref"); hsh("P19", "one32-m32", "int32_one", v="m32"); hsh("P19", "one64-m32", "int64_one", v="m32"); hsh("P19", "ref-m32", "int_ref", v="m32"); hsh("P19", "ref-port", "int_ref", v="port")
P("P20")
for v in FOUR: hsh("P20", "bits32-" + v, "bits32", v=v); hsh("P20", "bits64-" + v, "bits64", v=v); hsh("P20", "size-" + v, "bits_size", v=v)
P("P21")
tables("P21", EACH); lst("P21", "list", "list_ops", [EACH, 3, 2, 2, 8, 1]); few_trees("P21", EACH)
hist("P21", "lin-states", "lin", EACH, st=7, ph=2, ro=2, every=64); hist("P21", "dyn-states", "dyn", EACH, st=3, ph=2, every=64)
deeper("P21", EACH); tree("P21", "tree-shape5", "tree_shape", [EACH, 5, 1, 0, 0, 0, 0, 3000], tier=TH)
hist("P21", "lin-reverse", "lin", EACH, st=12, ph=3, win=0, every=64, pk=7)
hist("P21", "lin-large", "lin", EACH, st=10, ph=2, win=1, every=64, tier=TH)
huge("P21", EACH)
P("P22")
for n, st, ph, ro in (("edge", 11, 2, 0), ("big", 7, 3, 1), ("mid", 6, 2, 2)): hist("P22", n, "lin", COST, st=st, ph=ph, ro=ro, win=2 if n == "edge" else 1, work=450, every=64, cost=True, pk=0)
hist("P22", "reverse", "lin", COST, st=12, ph=3, ro=2, work=450, every=64, cost=True, pk=0)
hist("P22", "shrinking", "lin", COST, st=4, ph=2, ro=2, work=450, every=64, cost=True, pk=0)
hist("P22", "search", "lin", PURE, st=11, ph=2, every=64, pk=0)
hist("P22", "large", "lin", COST, st=10, ph=3, ro=2, work=450, every=64, cost=True, pk=0)
hist("P22", "larger", "lin", COST, st=9, ph=4, ro=0, win=2, work=450, every=64, cost=True, pk=0, tier=TH)
huge("P22", COST, ("lin",), work=1500, cost=True); huge("P22", COST, ("lin",), st=16, sfx="-9", work=1500, cost=True, every=4096, stride=2000, steps=1000000000)
P("P23")
hist("P23", "dyn", "dyn", LOAD, st=1, ph=2, every=64); hist("P23", "dyn-big", "dyn", LOAD, st=4, ph=3, ro=1, every=64); hist("P23", "dyn-large", "dyn", LOAD, st=10, ph=2, ro=1, every=64, s=12)
hist("P23", "lin", "lin", LOAD, st=11, ph=3, every=64); hist("P23", "lin-big", "lin", LOAD, st=4, ph=3, ro=1, every=64); hist("P23", "lin-large", "lin", LOAD, st=10, ph=3, ro=2, every=64, s=12)
hist("P23", "lin-reverse", "lin", LOAD, st=12, ph=3, every=64)
hist("P23", "dyn-win", "dyn", LOAD, st=1, ph=1, win=3, lo=0, every=64); hist("P23", "lin-win", "lin", LOAD, st=11, ph=1, win=3, lo=0, every=64)
hist("P23", "lin-4", "lin", LOAD, st=4, ph=4, ro=1, every=64, tier=TH); hist("P23", "dyn-4", "dyn", LOAD, st=4, ph=4, ro=1, every=64, tier=TH)
huge("P23", LOAD, ("dyn", "lin")); huge("P23", LOAD, ("dyn", "lin"), sfx="-3", ph=3, st=14); huge("P23", LOAD, ("dyn", "lin"), st=16, sfx="-9", every=4096, stride=2000, steps=1000000000); huge("P23", LOAD, ("dyn", "lin"), rm=1, sfx="-value")
P("P24")
mul("P24", "tbl", "tblA_pair", [MAP, 18, 20, 2, 10, 1])
mul("P24", "dyn", "dynA_pair", [MAP, 10, 19, 2, 10, 1])
mul("P24", "lin", "linA_pair", [MAP, 34, 66, 1, 10, 3])
mul("P24", "trie", "trieA_pair", [MAP, 5, 7, 2, 0, D4])
mul("P24", "inp", "inpA_pair", [MAP, 5, 7, 2, 0, E4])
mul("P24", "share", "trie_share", [MAP, 2, 0, 0, 0, DL])
mul("P24", "objects", "objects", [MAP, 2, 1])
mul("P24", "objects-keys", "objects", [MAP, 1, 0x80000008])
mul("P24", "arrays", "arrays", [MAP, 3, 70, 60])
mul("P24", "arrays-blk", "arrays", [MAP, 2, 2100, 1100])
mul("P24", "allocs", "allocs", [MAP, 4, 2, 4]); mul("P24", "trees", "trees", [MAP, 17, 1, 7, 12], logic=3); mul("P24", "trees300", "trees", [MAP, 301, 50, 97, 12], logic=3, steps=400000000); mul("P24", "trees300-up", "trees", [MAP, 300, 50, 1, 12], logic=3, steps=400000000)
mul("P24", "nested", "nested", [MAP, 4, 4, 3]); mul("P24", "nested-more", "nested", [MAP, 20, 18, 1])
mul("P24", "dyn-large", "dynA_pair", [MAP, 130, 260, 1, 12, 1]); mul("P24", "lin-large", "linA_pair", [MAP, 130, 260, 1, 12, 1]); mul("P24", "trie-large", "trieA_pair", [MAP, 80, 70, 1, 0, 9]); mul("P24", "inp-large", "inpA_pair", [MAP, 80, 70, 1, 0, 5])
mul("P24", "allocs3", "allocs", [MAP, 6, 3, 4], tier=TH); mul("P24", "nested-all", "nested", [MAP, 5, 5, 7], tier=TH)
mul("P24", "share3", "trie_share", [MAP, 3, 0, 0, 0, DL], tier=TH)
mul("P24", "lin2", "linA_pair", [MAP, 34, 66, 2, 10, 1], tier=TH)
mul("P24", "trie3", "trieA_pair", [MAP, 5, 7, 3, 0, D4], tier=TH)
mul("P24", "inp3", "inpA_pair", [MAP, 5, 7, 3, 0, E4], tier=TH)
mul("P24", "objects3", "objects", [MAP, 2, 3], tier=TH)
P("P25"); tables("P25", PURE); tries("P25", PURE); few_trees("P25", PURE)
hist("P25", "lin-reverse", "lin", PURE, st=12, ph=3, win=0, every=64, pk=7)
hist("P25", "lin-states", "lin", PURE, st=7, ph=2, ro=2, every=64); hist("P25", "dyn-states", "dyn", PURE, st=3, ph=2, every=64)
deeper("P25", PURE); tree("P25", "tree-shape5", "tree_shape", [PURE, 5, 1, 0, 0, 0, 0, 3000], tier=TH)
huge("P25", PURE, st=14, win=0)
P("P26"); tables("P26", OWN | MAP, ph=2); tries("P26", OWN | MAP); lists("P26", OWN | MAP); few_trees("P26", OWN | MAP); arrays("P26", OWN | MAP); allocs("P26", OWN | MAP)
lst("P26", "list-sort", "list_sort", [OWN | MAP, 5, 8, 0, 1, 0]); hsh("P26", "hash", "hash_any", [0, 17, 2]); hsh("P26", "string", "str_any", [0, 10, 2, 2])
job("P26", "table-size", "cap.c", "table_cap", [0, 1 << 26, 1]);
deeper("P26", OWN | MAP); lst("P26", "list3", "list_ops", [OWN | MAP, 3, 2, 3, 6, 1], tier=TH)
huge("P26", OWN | MAP, st=14)
P("P27"); tables("P27", HEAP); tries("P27", HEAP); lists("P27", HEAP); few_trees("P27", HEAP); arrays("P27", HEAP); allocs("P27", HEAP); deeper("P27", HEAP)
huge("P27", HEAP, st=16, every=4096, stride=2000, bmax=30000, steps=1000000000)
P("P28")
A32 = MAP | ORD | MEM | DONE
tables("P28", A32, v="m32", st=(0, 0, 11)); tries("P28", A32, v="m32"); lists("P28", MAP, v="m32"); few_trees("P28", MAP | COST, v="m32"); arrays("P28", MAP | MEM | DONE, v="m32"); allocs("P28", MAP | MEM | DONE, v="m32")
lst("P28", "sort", "list_sort", [MAP | COST, 5, 8, 0, 0, 0], v="m32"); hsh("P28", "hash", "hash_any", [0, 17, 4], v="m32"); hsh("P28", "string", "str_any", [0, 10, 4, 2], v="m32"); hsh("P28", "integers", "int_ref", v="m32"); hsh("P28", "bits", "bits_size", v="m32"); hsh("P28", "hash-port", "hash_any", [0, 17, 4], v="m32port")
for t in ("tbl", "dyn", "lin"): hist("P28", t + "-top", t, MAP, pk=5, s=12, lo=1, ph=1, st=0, win=1, every=64, v="m32")
arr("P28", "arr-wide", "arr", MAP, lim=1 << 20, two=0, edges=1, grows=1, kinds=1, v="m32"); arr("P28", "blk-wide", "blk", MAP, lim=1 << 20, two=0, edges=1, grows=1, kinds=1, lo=(1<<20) - 10000, v="m32")
hist("P28", "dyn-deep", "dyn", A32, st=4, ph=2, every=16, v="m32", tier=TH); hist("P28", "lin-deep", "lin", A32, st=4, ph=2, every=16, v="m32", tier=TH); hist("P28", "trie-deep", "trie", A32, nf=1, lo=DL, ph=1, st=5, win=2, v="m32", tier=TH); hist("P28", "inp-deep", "inp", A32, nf=1, lo=EL, ph=1, st=5, win=2, v="m32", tier=TH)
tree("P28", "tree-shape4-2", "tree_shape", [MAP | COST, 4, 2], v="m32", tier=TH)
huge("P28", MAP | MEM, v="m32", st=14); hugetries("P28", MAP, v="m32")
P("P29")
def cap(name, p, **kw): job("P29", name, "cap.c", "table_cap", p, **kw)
cap("small", [0, 130, 20]); cap("upto-2^20", [0, 1 << 20, 2]); cap("upto-2^28", [0, 1 << 28, 1]); cap("m32", [0, 1 << 24, 3], v="m32"); cap("port", [0, 1 << 20, 2], v="port"); cap("m32port", [0, 1 << 20, 2], v="m32port")
def capsize(name, lg, **kw): job("P29", name, "cap.c", "table_size", [lg], **kw)
capsize("any", 60); capsize("any-port", 60, v="port"); capsize("any-m32", 28, v="m32"); capsize("any-m32port", 28, v="m32port")
cap("many", [0, 70, 60], tier=TH)
P("P30")
hist("P30", "deep2", "trie", BLK, nf=1, lo=DL, ph=1, st=5, win=1)
hist("P30", "four", "trie", BLK, nf=2, lo=D4, ph=1, st=5, win=1)
hist("P30", "four2", "trie", BLK, nf=1, lo=D4, ph=1, st=5, win=2)
hist("P30", "many", "trie", BLK, nf=1, lo=0x00000009, ph=2, st=8, win=1, pk=7)
hist("P30", "many-last", "trie", BLK, nf=1, lo=0x00000009, ph=2, st=8, win=1, pk=8, ro=1)
hist("P30", "bottom", "trie", BLK, nf=1, lo=DB, ph=1, st=0, win=1)
mul("P30", "share", "trie_share", [MAP, 2, 0, 0, 0, DL])
hist("P30", "deep3", "trie", BLK, nf=1, lo=DL, ph=1, st=5, win=2, tier=TH)
hist("P30", "four3", "trie", BLK, nf=2, lo=D4, ph=1, st=5, win=2, tier=TH)
hugetries("P30", BLK, ("trie",))

P("P31")
for k, e in (("arr", 8), ("arrof", 12), ("blk", 8), ("blkof", 12)):
	arr("P31", k + "-any", k, FRAG, es=e, lim=1 << 20 if k[0] == "b" else 1 << 33, grows=1, edges=1, two=0, kinds=1)
	arr("P31", k + "-grow", k, FRAG, es=e, lim=1 << 14, grows=2, edges=1, two=0, kinds=1 + ("of" in k))
	fill("P31", k + "-fill", k, FRAG, 20000, es=e); fill("P31", k + "-fill-7", k, FRAG, 9001, es=e, step=7, v="m32")
	arr("P31", k + "-grow3", k, FRAG, es=e, lim=1 << 14, grows=3, edges=1, two=0, kinds=1 + ("of" in k), tier=TH)
hist("P31", "tbl", "tbl", FRAG, st=8, ph=2); hist("P31", "lin", "lin", FRAG, st=11, ph=2, every=16); hist("P31", "lin-3", "lin", FRAG, st=12, ph=3, every=16, pk=7); hist("P31", "lin-last", "lin", FRAG, st=7, ph=2, ro=1, pk=2, every=64)
hist("P31", "trie", "trie", FRAG, nf=1, lo=D4, ph=1, st=5, win=2); hist("P31", "trie-many", "trie", FRAG, nf=1, lo=0x9, ph=2, st=8, pk=7); hist("P31", "inp", "inp", FRAG, nf=1, lo=E4, ph=1, st=5, win=1)
hist("P31", "lin-m32", "lin", FRAG, st=12, ph=2, every=16, v="m32")
alc("P31", "alloc", "alloc_fill", [FRAG, 8, 20, 40, 2, 2]); alc("P31", "alloc-hist", "alloc_hist", [FRAG, 7, 3, 1, 1, 0])
huge("P31", FRAG, ("lin",), st=16, every=4096, stride=2000, steps=1000000000); huge("P31", FRAG, ("lin",), sfx="-last", ro=1, pk=8, st=14, ph=3)
hist("P31", "lin-large", "lin", FRAG, st=10, ph=3, every=64, tier=TH); alc("P31", "alloc-all", "alloc_fill", [FRAG, 1, 600, 1, 5, 2], tier=TH)
P("P32")
for k, e in (("arr", 8), ("arrof", 12), ("blk", 8), ("blkof", 12)):
	arr("P32", k + "-any", k, WASTE, es=e, lim=1 << 20 if k[0] == "b" else 1 << 33, grows=1, edges=1, two=0, kinds=1)
	arr("P32", k + "-grow", k, WASTE, es=e, lim=1 << 14, grows=2, edges=1, two=0, kinds=1 + ("of" in k))
	fill("P32", k + "-fill", k, WASTE, 70000, es=e); fill("P32", k + "-fill-7", k, WASTE, 20001, es=e, step=7, v="m32"); fill("P32", k + "-fill-5000", k, WASTE, 300000, es=e, step=5000)
	arr("P32", k + "-grow3", k, WASTE, es=e, lim=1 << 14, grows=3, edges=1, two=0, kinds=1 + ("of" in k), tier=TH)
arr("P32", "arrof-3", "arrof", WASTE, es=3, lim=1 << 20, grows=2, edges=1, two=0, kinds=2); arr("P32", "blkof-3", "blkof", WASTE, es=3, lim=1 << 17, grows=1, edges=1, two=0, kinds=2); arr("P32", "arrof-16M", "arrof", WASTE, es=1 << 24, lim=2000, grows=2, edges=1, two=0, kinds=1)
P("P33")
lst("P33", "sort5", "list_badcmp", [MAP, 5, 2]); lst("P33", "sort6", "list_badcmp", [MAP, 6, 2]); lst("P33", "sort4-wide", "list_badcmp", [MAP, 4, 32]); lst("P33", "sort4-m32", "list_badcmp", [MAP, 4, 2], v="m32")
tree("P33", "tree5", "tree_badcmp", [COST | MAP, 5, 1]); tree("P33", "tree4-2", "tree_badcmp", [COST | MAP | OWN, 4, 2]); tree("P33", "tree4-m32", "tree_badcmp", [COST | MAP, 4, 1], v="m32")
lst("P33", "sort7", "list_badcmp", [MAP, 7, 2]); tree("P33", "tree7", "tree_badcmp", [COST | MAP, 7, 0]); tree("P33", "tree5-2", "tree_badcmp", [COST | MAP | OWN, 5, 2])
lst("P33", "sort8", "list_badcmp", [MAP, 8, 2], tier=TH); lst("P33", "sort9", "list_badcmp", [MAP, 9, 2], tier=TH); tree("P33", "tree8", "tree_badcmp", [COST | MAP, 8, 0], tier=TH); tree("P33", "tree6-2", "tree_badcmp", [COST | MAP | OWN, 6, 2], tier=TH)
P("P34")
for t, st in (("tbl", 8), ("dyn", 1), ("lin", 11)):
	hist("P34", t, t, NODE, pk=0, st=st, ph=2, every=64); hist("P34", t + "-win", t, NODE, pk=1, st=0, ph=1, win=2)
hist("P34", "trie", "trie", NODE, nf=1, lo=DL, ph=1, st=5, win=1); hist("P34", "inp", "inp", NODE, nf=1, lo=EL, ph=1, st=5, win=1); hist("P34", "trie-many", "trie", NODE, nf=1, lo=0x9, ph=2, st=8, pk=7); hist("P34", "inp-many", "inp", NODE, nf=1, lo=0x9, ph=2, st=8, pk=7)
hist("P34", "lin-m32", "lin", NODE, st=12, ph=2, every=64, v="m32"); hist("P34", "inp-m32", "inp", NODE, nf=1, lo=E4, ph=1, st=5, v="m32")
lst("P34", "walk", "list_walk", [NODE, 8]); lst("P34", "ops", "list_ops", [NODE, 3, 2, 2, 8, 1]); lst("P34", "walk-m32", "list_walk", [NODE, 6], v="m32")
lst("P34", "walk12", "list_walk", [NODE, 12], tier=TH); lst("P34", "ops3", "list_ops", [NODE, 3, 2, 3, 6, 1], tier=TH); hist("P34", "dyn-large", "dyn", NODE, st=10, ph=2, every=64, tier=TH); hist("P34", "lin-large", "lin", NODE, st=10, ph=2, every=64, tier=TH)

# the histories with all the removals by value (and by turns); the others remove by element, but in the window
for pid, g in (("P04", MAP), ("P05", MAP), ("P06", MAP), ("P08", MAP), ("P09", MAP | HEAP), ("P07", ORD), ("P15", DONE), ("P16", MEM), ("P21", EACH), ("P22", COST), ("P23", LOAD), ("P31", FRAG), ("P30", BLK)):
	for t, st, ph, pk in (("tbl", 8, 2, 7), ("dyn", 4, 2, 8), ("lin", 4, 2, 8), ("lin", 12, 3, 0), ("trie", 8, 2, 7), ("inp", 8, 2, 7)):
		if {"P04": "tbl", "P05": "dyn", "P06": "lin", "P08": "trie", "P09": "inp", "P22": "lin", "P30": "trie"}.get(pid, t) != t: continue
		if pid == "P23" and t not in ("dyn", "lin") or pid == "P31" and t == "dyn" or pid == "P21" and t in ("trie", "inp"): continue
		kw = dict(lo=0x80000009 if t == "trie" else 0x80000005) if t in ("trie", "inp") else {}
		if pid == "P22": kw = dict(work=450, cost=True)
		if pid in ("P07",): pk = 4
		hist(pid, t + "-value" + ("-reverse" if st == 12 else ""), t, g, st=st, ph=ph, pk=pk, rm=1, every=16, win=0 if pid == "P15" else 1, **kw)
		if pid in ("P05", "P06", "P23"): hist(pid, t + "-turns" + ("-reverse" if st == 12 else ""), t, g, st=st, ph=ph, pk=pk, rm=2, every=16, ro=1, **kw)
P("P35")
A35 = MAP | ORD | MEM | DONE
for v in ("cxx", "nd", "uc", "port"):
	o = dict(v=v, optional=v == "cxx"); x = "-" + v
	for t, st, pk in (("tbl", 8, 2), ("dyn", 12, 7), ("lin", 12, 0)): hist("P35", t + x, t, A35, st=st, ph=2, pk=pk, every=16, **o)
	for t, st, pk in (("tbl", 0, 1), ("dyn", 1, 8), ("lin", 11, 8)): hist("P35", t + "-value" + x, t, A35, st=st, ph=2, pk=pk, rm=1, every=16, **o); hist("P35", t + "-values" + x, t, A35, st=4, ph=2, pk=pk, rm=1, every=16, tier=TH, **o)
	hist("P35", "trie" + x, "trie", A35, nf=1, lo=D4, ph=1, st=5, win=2, **o); hist("P35", "trie-many" + x, "trie", A35, nf=1, lo=0x9, ph=2, st=8, pk=7, rm=1, **o)
	hist("P35", "inp" + x, "inp", A35, nf=1, lo=E4, ph=1, st=5, win=2, **o); hist("P35", "inp-many" + x, "inp", A35, nf=1, lo=0x5, ph=2, st=8, pk=7, rm=1, **o)
	lst("P35", "list" + x, "list_ops", [MAP, 3, 2, 2, 8, 1], **o); lst("P35", "sort" + x, "list_sort", [MAP | COST, 5, 8, 0, 0, 0], **o); lst("P35", "walk" + x, "list_walk", [NODE, 6], **o)
	tree("P35", "tree-shape3" + x, "tree_shape", [MAP | COST, 3, 2], **o); tree("P35", "tree-shape4" + x, "tree_shape", [MAP | COST, 4, 1], **o); tree("P35", "tree-any" + x, "tree_any", [MAP | COST, 3, 1, 4], **o)
	arr("P35", "arr" + x, "arr", MAP | MEM | DONE, lim=200, two=0, edges=3, kinds=2, grows=1, **o); arr("P35", "arrof" + x, "arrof", MAP | MEM | DONE, lim=130, es=24, two=0, edges=2, kinds=1, grows=1, **o)
	arr("P35", "blk" + x, "blk", MAP | MEM | DONE, lim=9000, two=0, edges=3, kinds=1, **o); arr("P35", "blkof" + x, "blkof", MAP | MEM | DONE, lim=9000, es=13, two=0, edges=3, kinds=1, **o)
	alc("P35", "alloc" + x, "alloc_fill", [MAP | MEM | DONE, 1, 60, 5, 4, 2, 2], **o); alc("P35", "alloc-hist" + x, "alloc_hist", [MAP | MEM | DONE, 6, 3, 2, 1], **o)
	hsh("P35", "hash" + x, "hash_any", [0, 25, 2], **o); hsh("P35", "string" + x, "str_any", [0, 13, 2, 2], **o); hsh("P35", "integers" + x, "int_ref", **o); hsh("P35", "bits" + x, "bits_size", **o)
	job("P35", "table-size" + x, "cap.c", "table_size", [60], **o)
	mul("P35", "objects" + x, "objects", [MAP, 2, 1], tier=TH, **o); mul("P35", "nested" + x, "nested", [MAP, 4, 4, 1], **o); mul("P35", "nested-more" + x, "nested", [MAP, 4, 4, 3], tier=TH, **o)
	huge("P35", MAP | MEM, sfx=x, st=14, v=v, optional=v == "cxx")
	for n, ph in (("lin", 3), ("dyn", 3)): hist("P35", n + "-large" + x, n, A35, st=10, ph=ph, every=64, tier=TH, **o)
	tree("P35", "tree-shape5" + x, "tree_shape", [MAP | COST, 5, 1], tier=TH, **o); lst("P35", "list3" + x, "list_ops", [MAP, 3, 2, 3, 6, 1], tier=TH, **o); hist("P35", "trie-deep" + x, "trie", A35, nf=1, lo=DL, ph=1, st=5, win=2, tier=TH, **o); hist("P35", "inp-deep" + x, "inp", A35, nf=1, lo=EL, ph=1, st=5, win=2, tier=TH, **o)

# more than 65536 elements: counters, positions and masks of 16 bits are not enough
def h66(pid, t, g, sfx="", **kw):
	d = dict(ph=1, st=17, win=0, every=16384, stride=6000, steps=2000000000, t=250)
	if t in ("trie", "inp"): d.update(nf=1, lo=0x80000001, pk=9)
	else: d.update(s=18, pk=10, lo=0)
	if t == "tbl": d.update(bmax=70000)
	d.update(kw)
	if "tl" in d: d["t"] = d.pop("tl")
	hist(pid, t + d.pop("name", "-66000") + sfx, t, g, **d)
for pid, t in (("P04", "tbl"), ("P05", "dyn"), ("P06", "lin"), ("P08", "trie"), ("P09", "inp")): h66(pid, t, MAP | MEM | DONE)
BIG = dict(steps=2000000000, t=250)
for o in range(4): lst("P02", "66000-%d" % o, "list_large", [MAP, 70000, o, 3], **BIG); lst("P03", "66000-%d" % o, "list_large", [COST, 70000, o, 3], **BIG)
lst("P01", "66000", "list_large", [MAP, 70000, 1, 3], **BIG)
tree("P10", "66000", "tree_large", [MAP | MEM, 66000, 24001, 3], **BIG); tree("P11", "66000", "tree_large", [COST, 66000, 24001, 3], **BIG); tree("P11", "66000-up", "tree_large", [COST, 66000, 1, 3], **BIG); tree("P16", "tree-66000", "tree_large", [MEM, 66000, 24001, 1], **BIG)
alc("P14", "66000", "alloc_large", [MAP, 66000, 8], **BIG); alc("P14", "66000-24", "alloc_large", [MAP, 66000, 24], **BIG)
h66("P16", "trie", MEM, pk=11); h66("P30", "trie", BLK, pk=11); h66("P08", "trie", MAP, pk=11, sfx="-pairs"); h66("P09", "inp", MAP, pk=11, sfx="-pairs"); h66("P07", "lin", ORD, pk=0, s=17)
for t in ("tbl", "dyn", "lin"): h66("P16", t, MEM)
h66("P22", "lin", COST, work=1500, cost=True); h66("P23", "dyn", LOAD); h66("P23", "lin", LOAD); h66("P15", "lin", DONE); h66("P15", "trie", DONE, pk=11); h66("P31", "lin", FRAG); h66("P31", "trie", FRAG, pk=11)
for t in ("tbl", "dyn", "lin"): h66("P21", t, EACH)

# work that does not grow with the number of elements
P("P36")
W = dict(cost=True, steps=400000000)
def flow(name, t, pk=0, s=12, top=11, rounds=100, per=150, look=0, each=1000000000, bmax=16, base=0, big=0, **kw): job("P36", name, "map.c", t + "_flow", [WORK | COST, pk, s, top, rounds, per, look, big, 0, 0, bmax, each, 0, base], **dict(W, **kw))
lst("P36", "list", "list_work", [WORK, 7, 60], **W)
for x in ("tbl", "dyn", "lin"): flow(x, x, look=0 if x == "tbl" else 150, each=1000000000 if x == "dyn" else 600); flow(x + "-same", x, pk=1, top=8)
flow("tbl-search", "tbl", look=150, bmax=300, each=150)
for x in ("trie", "inp"): flow(x, x, pk=9, per=200, look=150, each=1500); flow(x + "-low", x, pk=0, per=200, look=150, each=1500); flow(x + "-same", x, pk=1, per=200, each=1500)
for x in ("arr", "arrof", "blk", "blkof"):
	job("P36", x, "arr.c", x + "_work", [WORK, 24, 2000, 1, 250, 300, 4096000], **W); job("P36", x + "-steps", "arr.c", x + "_work", [WORK, 8, 20000, 37, 250, 300], **W)
for x in ("tbl", "dyn", "lin"): flow(x + "-more", x, look=0 if x == "tbl" else 150, top=22, rounds=400, each=1000000000 if x == "dyn" else 300, tier=TH); flow(x + "-same-more", x, pk=1, top=22, rounds=400, tier=TH)
for x in ("trie", "inp"): flow(x + "-more", x, pk=9, top=22, rounds=400, per=200, look=150, each=1500, tier=TH); flow(x + "-same-more", x, pk=1, top=22, rounds=400, per=200, each=1500, tier=TH)
for x in ("tbl", "dyn", "lin"):
	for n, b, t in (("-1000", 4, "both"), ("-4000", 12, TH), ("-20000", 101, "both"), ("-32768", 104, TH)): flow(x + n, x, look=0 if x == "tbl" else 300, s=16, per=300, big=b, each=1000000000 if x == "dyn" else 1500, bmax=16 if b < 100 else 8192, tier=t); flow(x + "-same" + n, x, pk=1, big=b, rounds=1000, per=300, tier=t)
for x in ("trie", "inp"):
	for n, b, t in (("-1000", 4, "both"), ("-4000", 12, TH), ("-20000", 101, "both"), ("-32768", 104, TH)): flow(x + n, x, pk=9, per=200, look=150, each=1500, big=b, tier=t); flow(x + "-same" + n, x, pk=1, per=200, each=1500, big=b, tier=t)
alc("P36", "alloc", "alloc_work", [WORK, 2000, 6, 60, 300], **W)

# more than 2^20 elements, beyond what the tests of the repository reach
def million(pid, t, g, sfx="", **kw): h66(pid, t, g, **dict(dict(st=19, pk=9 if t in ("trie", "inp") else 12, every=262144, stride=150000, s=22, tl=500, steps=20000000000, name="-million" + sfx), **kw))
for pid, t in (("P04", "tbl"), ("P05", "dyn"), ("P06", "lin"), ("P08", "trie"), ("P09", "inp")): million(pid, t, MAP | MEM | DONE, tier="both" if t in ("trie", "inp") else TH)
BIG = dict(steps=20000000000, t=500); MIL = 1050000
lst("P01", "million", "list_large", [MAP, MIL, 1, 3], **BIG)
for o in (0, 1): lst("P02", "million-%d" % o, "list_large", [MAP, MIL, o, 3], **BIG); lst("P03", "million-%d" % o, "list_large", [COST, MIL, o, 3], **BIG)
tree("P10", "million", "tree_large", [MAP | MEM, MIL, 240001, 3], tier=TH, **BIG); tree("P11", "million", "tree_large", [COST, MIL, 240001, 3], tier=TH, **BIG); tree("P11", "million-up", "tree_large", [COST, MIL, 1, 3], tier=TH, **BIG)
alc("P14", "350000", "alloc_large", [MAP, 350000, 8], **BIG)
million("P16", "trie", MEM, pk=11); million("P16", "lin", MEM); million("P16", "dyn", MEM); million("P30", "trie", BLK, pk=11); million("P07", "lin", ORD, pk=13); million("P07", "dyn", ORD, pk=13, tier=TH); million("P07", "trie", ORD, pk=9, tier=TH)
million("P22", "lin", COST, work=1500, cost=True); million("P23", "dyn", LOAD); million("P23", "lin", LOAD); million("P15", "lin", DONE); million("P15", "dyn", DONE); million("P31", "lin", FRAG); million("P31", "trie", FRAG, pk=11); million("P21", "lin", EACH, tier=TH); million("P21", "dyn", EACH, tier=TH)
fill("P12", "ptr-million", "arr", MAP, MIL, **BIG); fill("P12", "of-million", "arrof", MAP, MIL, es=4, step=999, **BIG); fill("P13", "ptr-million", "blk", MAP, MIL, **BIG); fill("P13", "of-million", "blkof", MAP, MIL, es=4, step=999, **BIG)
