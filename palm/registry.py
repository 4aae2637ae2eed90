from . import compose, faults, iters, loading, pointers, ops, semantic, storage, typelevel
from .iters import UNB
from .check_base import check

TYPES = "compile-fail witnesses decided by rustc's type and borrow checker on the current source; "


@check("C11", "proof", TYPES + "every (pointer kind, key type, value type) combination over entries that are Send+Sync, only Send, "
       "only Sync or neither, for the tree and its handles, and generic witnesses quantified over all configurations",
       floors={"programs that must be rejected": 100, "programs that must be accepted": 15})
def c11(r):
    typelevel.c11(r)


@check("C12", "proof", TYPES + "every pair of a handle-producing call and a conflicting use of the tree, lifetime extension of everything "
       "returned, invariance of mutable handles; each offending program has an accepted twin",
       floors={"programs that must be rejected": 300, "programs that must be accepted": 7})
def c12(r):
    typelevel.c12(r)


@check("C18", "other", TYPES + "node sizes 4 and up are accepted for branches and leaves and every pointer kind, 0 to 3 are rejected; "
       "and the fixed capacities on the path from the root (type layout of the cursor) reach any attainable height",
       floors={"programs that must be rejected": 8, "programs that must be accepted": 18, "fixed-capacity paths": 1},
       assumptions=["a tree of 2^32 or more leaf-splitting insertions is out of reach in practice"])
def c18(r):
    typelevel.c18_config(r)
    typelevel.c18_paths(r)


# ---------------------------------------------------------------- what operations do

ABS = ("abstract interpretation of the function's MIR from a tree of symbolic size and node widths (heights 1 to 3, plus new and emptied trees), "
       "generic in keys, values and pointer kind; ")
SEM_ASSUME = (
    "keys are totally ordered by a lawful Ord and user code does not panic (panics are the subject of C16)",
    "trees start from the invariant every operation is shown to restore: separators are no less than their child's keys and less than the next child's, "
    "a branch child's last separator equals its parent's, only roots are shared between trees",
    "heights beyond those analysed behave as those analysed; node sizes are symbols of at least 4",
    "counters and lengths stay below 2^40",
)


def heights(r, quick, thorough):
    return thorough if r.thorough else quick


@check("C01", "other", ABS + "for every position of the key the value returned is that entry's, and only absent keys give nothing",
       floors={"cases": 50, "functions": 10}, assumptions=SEM_ASSUME)
def c01(r):
    semantic.judge(r, semantic.variants(ops.lookups, ["d", "r", "ds"] + (["rs"] if r.thorough else [])), semantic.BROKEN)


@check("C02", "other", ABS + "for every position of the key and every fill of the nodes the entries afterwards are the old ones with the key mapped to the value, "
       "in order, in nodes within their capacity",
       floors={"cases": 15, "functions": 15}, assumptions=SEM_ASSUME)
def c02(r):
    deep = {None: 3 if r.thorough else 2, "insert_recursive": 3}
    cs = semantic.select(semantic.variants(ops.inserts, ["d", "ds"] + (["r", "rs"] if r.thorough else [])), deep)
    cs += semantic.select([c for c in semantic.variants(ops.entries, ["d"]) if "insert" in c.name or "get_mut/" in c.name], deep)
    semantic.judge(r, cs, semantic.BROKEN)


@check("C03", "other", ABS + "for every position the entry returned is the addressed one and the entries afterwards are the others, in order",
       floors={"cases": 25, "functions": 15}, assumptions=SEM_ASSUME)
def c03(r):
    cs = semantic.variants(ops.removes, ["d", "r", "ds"] + (["rs"] if r.thorough else []))
    cs += [c for c in semantic.variants(ops.entries, ["d"]) if " remove" in c.name]
    semantic.judge(r, semantic.select(cs, {None: 3}), semantic.BROKEN)


@check("C21", "other", ABS + "an entry is occupied exactly for the keys the tree holds, and every method of the handles is compared with what it has to do to the entry asked for",
       floors={"cases": 35, "functions": 20}, assumptions=SEM_ASSUME)
def c21(r):
    cs = semantic.select(semantic.variants(ops.entries, ["d"] + (["r", "ds", "rs"] if r.thorough else [])), {None: 3 if r.thorough else 2})
    semantic.judge(r, cs, semantic.BROKEN)


# ---------------------------------------------------------------- iteration

def light(c):
    """Cheap iterator cases: all but the two-sided ranges over trees of height two, and mutable ranges over them."""
    h = semantic.height_of(c)
    if h < 2 or "iter, copied" in c.name or c.group == "C07":
        return True
    if c.group == "C05":
        return h == 2
    return h == 2 and c.kw["order"] != "<" and not c.kw["mut"]


def medium(c):
    """What the properties about iteration add to that."""
    h, o = semantic.height_of(c), c.kw.get("order")
    if h < 3 or c.group == "C05" or o in ("=", ">"):
        return not (c.kw.get("mut") and o == "<" and h > 1)
    return c.name.startswith("range") and (c.kw.get("lo"), c.kw.get("hi")) == (UNB, UNB)


def reach(cs, quick, thorough, deep):
    return [c for c in cs if semantic.height_of(c) <= (thorough if deep else quick)]


def iterating(r, modes, thorough_modes, pick=light, **kw):
    cs = semantic.variants(iters.iter_cases, thorough_modes if r.thorough else modes, **kw)
    cs += semantic.variants(iters.range_cases, thorough_modes if r.thorough else modes, **kw)
    if False in kw.get("muts", (False,)):
        cs += semantic.variants(iters.copy_cases, thorough_modes if r.thorough else modes)
    return [c for c in cs if r.thorough or pick(c)]


def changing(r, modes, thorough_modes):
    """Operations that change the tree."""
    ms = thorough_modes if r.thorough else modes
    deep = {None: 3 if r.thorough else 2, "insert_recursive": 3}
    cs = semantic.select(semantic.variants(ops.inserts, ms), deep)
    cs += semantic.variants(ops.removes, ms)
    cs += semantic.select(semantic.variants(ops.entries, ms), {None: 3 if r.thorough else 2})
    return cs


def everything(r, modes, thorough_modes):
    ms = thorough_modes if r.thorough else modes
    cs = semantic.variants(ops.lookups, ms) + changing(r, modes, thorough_modes)
    cs += iterating(r, modes, thorough_modes)
    cs += semantic.variants(iters.owned_cases, ms)
    cs += semantic.variants(storage.all_cases, ms)
    cs += semantic.variants(loading.load_cases, ms[:2], levels=3 if r.thorough else 2)
    cs += [c for c in semantic.variants(compose.all_cases, ms[:2]) if "hash" not in c.name]
    return cs


@check("C04", "other", ABS + "after every operation the stored length is the number of entries found by walking the tree, and len and is_empty report it",
       floors={"cases": 60, "functions": 20}, assumptions=SEM_ASSUME)
def c04(r):
    cs = semantic.variants(storage.length_cases, ["d", "r", "ds"])
    semantic.judge(r, cs, semantic.SIZE | semantic.BROKEN)
    semantic.judge(r, changing(r, ["r"], ["d", "r", "ds"]) + semantic.variants(storage.clone_cases, ["d"]) + loading.load_cases(False), semantic.SIZE)


@check("C05", "other", ABS + "the iterator's steps, in every mix from both ends, yield the entry at that end exactly, and nothing once all are out",
       floors={"cases": 15, "functions": 15}, assumptions=SEM_ASSUME)
def c05(r):
    cs = iterating(r, ["d"], ["d", "r", "ds"], medium, muts=(False,))
    cs = [c for c in cs if c.group == "C05" or UNB in (c.kw["lo"], c.kw["hi"]) or c.kw["order"] == "="]
    cs += [c for c in semantic.variants(iters.iter_cases, ["d"], muts=(True,)) if r.thorough or medium(c)]
    semantic.judge(r, cs, semantic.BROKEN)


@check("C06", "other", ABS + "for every pair of bounds and every position of their keys the range holds exactly the entries within, seen from both ends",
       floors={"cases": 60, "functions": 15}, assumptions=SEM_ASSUME)
def c06(r):
    cs = [c for c in iterating(r, ["d"], ["d", "r", "ds"], medium) if c.group == "C06"]
    semantic.judge(r, cs, semantic.BROKEN)


@check("C07", "other", ABS + "every mix of up to three steps from the two ends yields the entry at that end by value, with the exact count left",
       floors={"cases": 10, "functions": 10}, assumptions=SEM_ASSUME)
def c07(r):
    cs = semantic.variants(iters.owned_cases, ["d", "r", "ds"] + (["rs"] if r.thorough else []))
    semantic.judge(r, cs, semantic.BROKEN | semantic.CONSERVE)


@check("C23", "other", ABS + "everything a mutable iterator lends is written through and the tree read afterwards: no value is lent twice, each write lands on its own entry",
       floors={"cases": 30, "functions": 15}, assumptions=SEM_ASSUME)
def c23(r):
    cs = iterating(r, ["d", "ds"], ["d", "ds", "r", "rs"], medium, muts=(True,))
    semantic.judge(r, cs, semantic.BROKEN)
    typelevel.c23(r)


# ---------------------------------------------------------------- storage

@check("C10", "other", ABS + "a clone is walked next to its original; then every operation runs on a tree whose root is shared with a clone, and no shared node may be written",
       floors={"cases": 80, "functions": 30}, assumptions=SEM_ASSUME)
def c10(r):
    cs = semantic.variants(storage.clone_cases, ["d", "r", "ds"] + (["rs"] if r.thorough else []))
    semantic.judge(r, cs, semantic.BROKEN | semantic.ISOLATE | {"leak"})
    cs = changing(r, ["ds"], ["ds", "rs"]) + iterating(r, ["ds"], ["ds", "rs"], muts=(True,)) + semantic.variants(iters.owned_cases, ["ds"])
    semantic.judge(r, cs, semantic.ISOLATE)


@check("C13", "other", ABS + "every slot moved out of, overwritten, detached or dropped is accounted for: nothing is dropped twice and nothing is left behind",
       floors={"cases": 80, "functions": 30}, assumptions=SEM_ASSUME)
def c13(r):
    cs = changing(r, ["r"], ["d", "r", "ds"]) + semantic.variants(iters.owned_cases, ["r", "ds"]) + semantic.variants(storage.drop_cases, ["d", "r", "ds"])
    cs += loading.load_cases(False) + semantic.variants(compose.union_cases, ["r"])
    semantic.judge(r, cs, semantic.CONSERVE)


@check("C14", "other", ABS + "every access of node storage is within its capacity, to a live, initialised slot, and as what the node holds",
       floors={"cases": 150, "functions": 60}, assumptions=SEM_ASSUME)
def c14(r):
    semantic.judge(r, everything(r, ["r"], ["d", "r", "ds"]), semantic.MEMORY)


@check("C19", "other", ABS + "every loop makes progress on each turn (descends, climbs, or moves a bounded counter) and recursion goes strictly down",
       floors={"cases": 150, "functions": 60}, assumptions=SEM_ASSUME)
def c19(r):
    semantic.judge(r, everything(r, ["r"], ["d", "r", "ds"]), semantic.LOOPS)


@check("C20", "other", ABS + "no path to a panic, failed assertion or arithmetic check can be taken, in debug and in release builds",
       floors={"cases": 150, "functions": 60}, assumptions=SEM_ASSUME)
def c20(r):
    semantic.judge(r, everything(r, ["d"], ["d", "r", "ds"]), semantic.CRASH)


# ---------------------------------------------------------------- whole trees

WHOLE = ("abstract interpretation of the function's MIR over trees taken as ordered sequences of symbolic length, the operations it is built from replaced by their "
         "specifications (each decided by its own check), to a fixpoint over the situations the sequences' ends can be in; ")
WHOLE_ASSUME = SEM_ASSUME[:1] + ("the operations composed (iterating, consuming, loading, inserting, entries) keep their own specifications: C02, C05, C07, C09 and C21 decide those",)


@check("C08", "other", WHOLE + "for every order of the two sides' next keys what reaches the result is the lower one, or the favoured one of an equal pair, and nothing is lost, doubled or dropped twice",
       floors={"cases": 60, "functions": 10}, assumptions=WHOLE_ASSUME)
def c08(r):
    cs = semantic.variants(compose.union_cases, ["d", "r"])
    semantic.judge(r, cs, (semantic.BROKEN | semantic.SIZE | semantic.CONSERVE) - semantic.LOOPS)


@check("C09", "other", ABS + "input of any length, nodes of any width: finished nodes are checked and summarised as children of a symbolic branch, to a fixpoint over the shapes "
       "the load's working state can take (up to 3 levels of branch-bearing branches); the finished tree holds the input in order, a misordered item always panics in debug builds; BTreeMaps are loaded in order",
       floors={"cases": 5, "functions": 15}, assumptions=SEM_ASSUME)
def c09(r):
    n = 4 if r.thorough else 3
    cs = loading.load_cases(True, levels=n) + loading.load_cases(False, levels=n) + semantic.variants(compose.from_cases, ["d", "r"])
    semantic.judge(r, cs, (semantic.BROKEN | semantic.SIZE | semantic.CONSERVE) - semantic.LOOPS)


@check("C17", "other", WHOLE + "the answer is compared with what the entries say for equal, lower, higher, missing and incomparable entries at any position, "
       "and with the same answer for a clone; what is fed to a hasher or formatter is exactly the entries in order",
       floors={"cases": 60, "functions": 6}, assumptions=WHOLE_ASSUME)
def c17(r):
    cs = semantic.variants(compose.compare_cases, ["d", "r"]) + semantic.variants(compose.visit_cases, ["d", "r"])
    semantic.judge(r, cs, semantic.BROKEN - semantic.LOOPS)


@check("C22", "other", WHOLE + "each item of the input reaches the tree by an insertion of just that item, before the next is taken, and none is skipped",
       floors={"cases": 10, "functions": 3}, assumptions=WHOLE_ASSUME)
def c22(r):
    cs = semantic.variants(compose.collect_cases, ["d", "r"])
    semantic.judge(r, cs, (semantic.BROKEN | semantic.SIZE) - semantic.LOOPS)


@check("C15", "other", "abstract interpretation of the MIR of each PointerKind implementation, method by method, over a heap of allocations tagged with the smart pointer and type they were made as, "
       "both when nobody else holds the allocation and when others do; and of the generic wrappers over a kind known by its contract; each outcome compared with that contract",
       floors={"cases": 50, "functions": 30}, assumptions=("Box, Rc and Arc do what std documents", "storage is made by the kind's own constructor and used as the type it was made for (C14 decides the latter for nodes)"))
def c15(r):
    semantic.judge(r, semantic.variants(lambda d, s: pointers.kind_cases(d), ["d", "r"]), semantic.BROKEN | semantic.CONSERVE | semantic.ISOLATE, what="the contract of a pointer kind")


@check("C16", "other", "abstract interpretation of the function's MIR, cleanup paths included, with every call of user code also unwinding and every comparison answering anything, from trees known by their storage alone "
       "(branches perhaps empty, keys in any order, any stored length); what an operation leaves, returning or unwinding, must again be such a tree with every node live and unshared, so the next operation is covered too",
       floors={"cases": 120, "functions": 60},
       assumptions=("user code that panics while a panic unwinds aborts the process", "leaking is allowed when user code panics", SEM_ASSUME[2], SEM_ASSUME[3]))
def c16(r):
    if r.thorough:
        cs = semantic.variants(faults.op_cases, ["d", "r", "ds", "rs"], deep=True)
        cs += semantic.variants(faults.body_cases, ["d", "r"]) + semantic.variants(faults.load_cases, ["d", "r"], levels=3) + semantic.variants(faults.whole_cases, ["d", "r", "ds", "rs"])
    else:
        cs = semantic.variants(faults.op_cases, ["r"]) + [c for c in faults.op_cases(True, True) if semantic.height_of(c) < 2 and c.kw.get("hi") in (None, UNB)]
        cs += semantic.variants(faults.body_cases, ["r"]) + semantic.variants(faults.load_cases, ["d", "r"]) + semantic.variants(faults.whole_cases, ["r", "rs"])
    semantic.judge(r, cs, faults.SAFETY, what="what storage has to be like")
