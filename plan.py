"""What each check runs."""
A = ("RTreeMC.tla", "RTreeMC1.cfg")   # abstract machine, one tree, hierarchies
B = ("RTreeMC.tla", "RTreeMC2.cfg")   # abstract machine, two trees
G2 = ("BoxGeomMC.tla", "BoxGeomMC2.cfg")
G3 = ("BoxGeomMC.tla", "BoxGeomMC3.cfg")
# shape machine: every choice of the heuristics, removals, bulk loaded trees; last: negative control
S = [("Structure.tla", "Structure1.cfg"), ("Structure.tla", "Structure3.cfg")]
S0 = [("Structure.tla", "Structure2.cfg")]
SX = [("Structure.tla", "StructureMixed.cfg", "fail")]
SBIG = [("Structure.tla", f"Structure{k}big.cfg") for k in (1, 2, 3, 4, 5, 6)]
# arithmetic of bulk loading
L = [("BulkLoad.tla", "BulkLoad62.cfg"), ("BulkLoad.tla", "BulkLoad42.cfg"), ("BulkLoad.tla", "BulkLoad43.cfg")]
LX = [("BulkLoad.tla", "BulkLoadUneven.cfg", "fail")]
LBIG = [("BulkLoad.tla", f"BulkLoad{k}big.cfg") for k in (62, 42, 43, 63, 55, 203, 322, 44, 61)]
MODELS = {
    "C01": [A, B], "C02": [A], "C03": [A, G2], "C04": [A, G2], "C05": [A, G2], "C06": [A, G2], "C07": [A, G2], "C08": [A, G2],
    "C09": [A], "C10": [A], "C11": [A], "C12": [A], "C13": [A], "C14": [A], "C15": [A], "C16": [B], "C17": [A], "C18": [A],
    "C19": [A], "C20": [], "C21": [B], "C22": [B], "C23": [G2], "C24": [G2, G3], "C25": [G2, G3], "C26": [G2, G3],
}
MODELS["C01"] += S
MODELS["C02"] += S[:1]
MODELS["C12"] += S + SX
MODELS["C13"] += S[:1] + S0
MODELS["C14"] += S + S0 + L[:2]
MODELS["C15"] += L + LX + S[1:]
# the algorithms, step by step
D = [("DrainIter.tla", "DrainIter.cfg")]
N = [("NearestSearch.tla", "NearestSearch.cfg")]
NX = [("NearestSearch.tla", "NearestSlack.cfg"), ("NearestSearch.tla", "NearestNoGuard.cfg", "fail"), ("NearestSearch.tla", "NearestNoFallback.cfg", "fail"), ("NearestSearch.tla", "NearestStrict.cfg", "fail")]
H = [("SpillHeap.tla", "SpillHeap.cfg"), ("SpillHeap.tla", "SpillHeapDrop.cfg", "fail")]
Q = [("Searches.tla", "SearchSelect.cfg")]
J = [("Searches.tla", "SearchJoin.cfg"), ("Searches.tla", "SearchJoinSkip.cfg", "fail")]
for p in ("C02", "C03", "C04", "C08", "C17", "C18", "C19"):
    MODELS[p] += Q
MODELS["C05"] += N + NX
MODELS["C06"] += N + H
MODELS["C07"] += N
MODELS["C09"] += N
MODELS["C10"] += D + [("DrainIter.tla", "DrainIterLost.cfg", "fail")]
MODELS["C11"] += D
MODELS["C12"] += [("DrainIter.tla", "DrainIterStale.cfg", "fail")]
MODELS["C16"] += J
NB, DB, QB, JB = [("NearestSearch.tla", "NearestSearchbig.cfg"), ("NearestSearch.tla", "NearestSlackbig.cfg")], [("DrainIter.tla", "DrainIterbig.cfg")], [("Searches.tla", "SearchSelectbig.cfg")], [("Searches.tla", "SearchJoinbig.cfg")]
BIG = {"C01": SBIG[:3], "C02": SBIG[:1], "C12": SBIG, "C13": SBIG, "C14": SBIG + LBIG, "C15": LBIG + SBIG[2:3] + SBIG[5:],
       "C23": [("BoxGeomMC.tla", "BoxGeomMC2big.cfg")], "C24": [("BoxGeomMC.tla", "BoxGeomMC2big.cfg"), ("BoxGeomMC.tla", "BoxGeomMC3big.cfg")],
       "C25": [("BoxGeomMC.tla", "BoxGeomMC2big.cfg"), ("BoxGeomMC.tla", "BoxGeomMC3big.cfg")], "C26": [("BoxGeomMC.tla", "BoxGeomMC2big.cfg")]}
for p, m in (("C02", QB), ("C03", QB), ("C04", QB), ("C08", QB), ("C05", NB), ("C06", NB), ("C07", NB), ("C10", DB), ("C11", DB), ("C12", DB), ("C16", JB)):
    BIG[p] = BIG.get(p, []) + m
PURE = {"C20", "C24", "C25"}   # no trees involved
QUICK = {"C16": 200}
PLAN = {}
for p, models in MODELS.items():
    quick = [{"n": QUICK.get(p, 800 if p in PURE else 500)}]
    if p not in PURE:
        quick.append({"scout": 1000000, "secs": 20, "scale": 300, "seed": 77})
    gen = [] if p in PURE else [{"module": "Gen.tla", "cfg": "Gen.cfg"}]
    PLAN[p] = {"models": {"quick": models, "thorough": models + BIG.get(p, [])}, "quick": {"rounds": quick, "spec": gen}}
    deep = []
    for k in range(40):
        deep.append({"n": QUICK.get(p, 3000), "seed": 1000 * k})
        if p not in PURE:
            deep.append({"scout": 10**7, "secs": 60, "scale": [300, 900, 2500][k % 3], "seed": 1000 * k + 77})
    PLAN[p]["thorough"] = {"rounds": deep, "budget": 1500, "spec": [dict(g, cfg="GenAll.cfg", seed=k) for g in gen for k in range(3)]}
