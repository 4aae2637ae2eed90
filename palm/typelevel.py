"""C11, C12 and the configuration part of C18: type-level witnesses."""
from . import build, witness

KINDS = ("Unique", "Shared", "SyncShared")
# entry types: name, (Send, Sync)
ENTRY = {
    "u32": (True, True),
    "Cell<u32>": (True, False),
    "Rc<u32>": (False, False),
    "MutexGuard<'static, u32>": (False, True),
    "*const u8": (False, False),
}

CFG = """
pub struct Cfg<P>(std::marker::PhantomData<P>);
impl<K, V, P: PointerKind> TreeConfig<K, V> for Cfg<P> {
    type BranchSize = typenum::U6; type LeafSize = typenum::U5; type PointerKind = P;
}
// private handles are named through what the API returns
pub trait Call { type Out; }
impl<A, R> Call for fn(A) -> R { type Out = R; }
"""


def sendsync(kind, k, v):
    ks, ky = ENTRY[k]
    vs, vy = ENTRY[v]
    if kind == "Shared":
        return False, False
    if kind == "Unique":
        return ks and vs, ky and vy
    both = ks and vs and ky and vy
    return both, both


def c11(report):
    neg, pos = [], []
    for cfg in ("Tree64", "Cfg"):
        for kind in KINDS:
            for e in ENTRY:
                for (k, v) in {(e, "u32"), ("u32", e)}:
                    t = "PalmTree<%s, %s, %s<%s>>" % (k, v, cfg, kind)
                    send, sync = sendsync(kind, k, v)
                    own = "OwnedIter<%s, %s, %s<%s>>" % (k, v, cfg, kind)
                    for tr, fn, ok in (("Send", "is_send", send), ("Sync", "is_sync", sync)):
                        key = "%s:%s" % (tr, t)
                        if ok:
                            pos.append((key, "%s is %s" % (t, tr), CFG, "%s::<%s>();" % (fn, t)))
                        else:
                            neg.append((key, "%s is not %s" % (t, tr), CFG, "use_it(None::<%s>);" % t,
                                        "%s::<%s>();" % (fn, t), ("E0277",)))
                        # an owning iterator holds the same storage; being less permissive than the tree is fine
                        if not ok:
                            neg.append(("%s:%s" % (tr, own), "%s is not %s" % (own, tr), CFG, "use_it(None::<%s>);" % own,
                                        "%s::<%s>();" % (fn, own), ("E0277",)))
                    if cfg == "Tree64":
                        # shared handles read entries through a reference: sound to send or share only with Sync entries
                        it = "Iter<'static, %s, %s, Tree64<%s>>" % (k, v, kind)
                        if not (ENTRY[k][1] and ENTRY[v][1]):
                            for tr, fn in (("Send", "is_send"), ("Sync", "is_sync")):
                                neg.append(("%s:%s" % (tr, it), "%s is not %s" % (it, tr), CFG,
                                            "use_it(None::<%s>);" % it, "%s::<%s>();" % (fn, it), ("E0277",)))
                        itm = "IterMut<'static, %s, %s, Tree64<%s>>" % (k, v, kind)
                        if not (ENTRY[k][1] and ENTRY[v][0]):
                            neg.append(("Send:%s" % itm, "%s is not Send" % itm, CFG,
                                        "use_it(None::<%s>);" % itm, "is_send::<%s>();" % itm, ("E0277",)))
                        if not (ENTRY[k][1] and ENTRY[v][1]):
                            neg.append(("Sync:%s" % itm, "%s is not Sync" % itm, CFG,
                                        "use_it(None::<%s>);" % itm, "is_sync::<%s>();" % itm, ("E0277",)))
    ent = "Entry<'static, u32, Rc<u32>, Tree64<Unique>>"
    for tr, fn in (("Send", "is_send"), ("Sync", "is_sync")):
        neg.append(("%s:%s" % (tr, ent), "%s is not %s" % (ent, tr), CFG, "use_it(None::<%s>);" % ent,
                    "%s::<%s>();" % (fn, ent), ("E0277",)))
    ent = "Entry<'static, u32, u32, Tree64<Shared>>"
    neg.append(("Send:" + ent, "%s is not Send" % ent, CFG, "use_it(None::<%s>);" % ent, "is_send::<%s>();" % ent, ("E0277",)))
    # for every configuration, not only the ones above
    gen = CFG + """
fn gen_send<K: Send + Sync, V: Send + Sync, C>() where C: TreeConfig<K, V, PointerKind = %s> { is_send::<PalmTree<K, V, C>>(); }
"""
    for kind in KINDS:
        for bound in ("", "Send", "Sync"):
            for tr, fn in (("Send", "is_send"), ("Sync", "is_sync")):
                need = {"Unique": (tr,), "SyncShared": ("Send", "Sync"), "Shared": ("never",)}[kind]
                if kind != "Shared" and (bound,) == need:
                    continue
                w = "fn generic<K%s, V%s, C: TreeConfig<K, V, PointerKind = %s>>() { use_it(None::<PalmTree<K, V, C>>); " % (
                    ": " + bound if bound else "", ": " + bound if bound else "", kind)
                neg.append(("generic:%s:%s:%s" % (kind, bound or "none", tr),
                            "a %s tree of entries bounded by %r is not %s for every configuration" % (kind, bound, tr),
                            CFG, "", (w + "}", w + "%s::<PalmTree<K, V, C>>(); }" % fn), ("E0277",)))
    seen, uniq = set(), []
    for w in neg:
        if w[0] not in seen:
            seen.add(w[0])
            uniq.append(w)
    seen, up = set(), []
    for w in pos:
        if w[0] not in seen:
            seen.add(w[0])
            up.append(w)
    witness.run(report, uniq, up)


B = ("E0502", "E0499", "E0505", "E0506", "E0503", "E0597", "E0515", "E0716", "E0382", "E0521", "E0594", "E0596", "E0713", None)


def c12(report):
    T = "let mut t = make();"
    U = "let mut t = make();\nlet k = 3u32;"
    neg = []

    def w(key, what, good_parts, codes=B, items=""):
        """good_parts: (before, offending, after)."""
        before, bad, after = good_parts
        neg.append((key, what, items, None, ("\nfn witness() {\n" + before + "\n" + after + "\n}\n",
                                             "\nfn witness() {\n" + before + "\n" + bad + "\n" + after + "\n}\n"), codes))

    readers = {
        "get": "let r = t.get(&1);",
        "get_linear": "let r = t.get_linear(&1);",
        "index": "let r = &t[&1];",
        "iter": "let r = t.iter();",
        "iter-item": "let r = { let mut i = t.iter(); i.next() };",
        "iter-back-item": "let r = { let mut i = t.iter(); i.next_back() };",
        "iter-clone": "let r = t.iter().clone();",
        "range": "let r = t.range(1..3);",
        "range-item": "let r = { let mut i = t.range(1..3); i.next() };",
        "ref-into-iter": "let r = (&t).into_iter();",
        "ref-into-iter-item": "let r = (&t).into_iter().next();",
    }
    muts = {
        "get_mut": "let r = t.get_mut(&1);",
        "index_mut": "let r = &mut t[&1];",
        "iter_mut": "let r = t.iter_mut();",
        "iter_mut-item": "let r = { let mut i = t.iter_mut(); i.next() };",
        "iter_mut-back-item": "let r = { let mut i = t.iter_mut(); i.next_back() };",
        "range_mut": "let r = t.range_mut(1..3);",
        "range_mut-item": "let r = { let mut i = t.range_mut(1..3); i.next() };",
        "mut-into-iter": "let r = (&mut t).into_iter();",
        "mut-into-iter-item": "let r = (&mut t).into_iter().next();",
        "entry": "let r = t.entry(1);",
        "occupied-into_mut": "let r = match t.entry(1) { Entry::Occupied(e) => e.into_mut(), _ => panic!() };",
        "vacant-insert": "let r = match t.entry(1) { Entry::Vacant(e) => e.insert(String::new()), _ => panic!() };",
        "occupied-entry": "let r = match t.entry(1) { Entry::Occupied(e) => e, _ => panic!() };",
        "vacant-entry": "let r = match t.entry(1) { Entry::Vacant(e) => e, _ => panic!() };",
    }
    writes = {
        "insert": "t.insert(5, String::new());",
        "insert_recursive": "t.insert_recursive(5, String::new());",
        "remove": "t.remove(&1);",
        "remove_lowest": "t.remove_lowest();",
        "remove_highest": "t.remove_highest();",
        "get_mut": "use_it(t.get_mut(&2));",
        "iter_mut": "use_it(t.iter_mut());",
        "entry": "use_it(t.entry(7));",
        "append_left": "t.append_left(make());",
        "append_right": "t.append_right(make());",
        "add_assign": "t += make();",
        "extend": "t.extend(vec![(1u32, String::new())]);",
        "overwrite": "t = make();",
        "move": "drop(t);",
        "into_iter": "use_it(t.into_iter());",
    }
    reads = {"get": "use_it(t.get(&2));", "len": "use_it(t.len());", "iter": "use_it(t.iter());",
             "clone": "use_it(t.clone());", "index": "use_it(&t[&1]);"}
    for rn, r in sorted(readers.items()):
        for wn, wr in sorted(writes.items()):
            w("%s-over-%s" % (wn, rn), "the tree cannot be changed (%s) while a handle from %s is alive" % (wn, rn),
              (T + "\n" + r, wr, "use_it(&r);"))
    for rn, r in sorted(muts.items()):
        for wn, wr in sorted(writes.items()) + sorted(("read-" + n, b) for n, b in reads.items()):
            w("%s-over-%s" % (wn, rn), "the tree cannot be used (%s) while a mutable handle from %s is alive" % (wn, rn),
              (T + "\n" + r, wr, "use_it(r);"))
    for hs in (readers, muts):
        for rn, r in sorted(hs.items()):
            # the handle must not outlive the tree
            w("outlive-" + rn, "a handle from %s cannot outlive the tree" % rn,
              ("let keep;\n{\nlet mut t = make();\n" + r + "\nkeep = Some(r);\n", "}", "use_it(keep);") if False else
              ("let mut keep = None;\nlet mut t = make();\nif false { keep = None; }\n" + r + "\nkeep = Some(r);", "drop(t);", "use_it(&keep);"))
            if rn != "vacant-entry" and rn != "occupied-entry":
                pass
    # handles that lend mutably from themselves
    occ = "let mut t = make();\nlet mut e = match t.entry(1) { Entry::Occupied(e) => e, _ => panic!() };"
    w("occupied-get_mut-twice", "an occupied entry lends its value mutably once", (occ + "\nlet a = e.get_mut();", "let b = e.get_mut(); use_it(b);", "use_it(a);"))
    w("occupied-get-over-get_mut", "an occupied entry's value cannot be read while lent mutably", (occ + "\nlet a = e.get_mut();", "use_it(e.get());", "use_it(a);"))
    w("occupied-insert-over-get", "an occupied entry's value cannot be replaced while read", (occ + "\nlet a = e.get();", "e.insert(String::new());", "use_it(a);"))
    w("occupied-insert-over-key", "an occupied entry cannot change while its key is read", (occ + "\nlet a = e.key();", "e.insert(String::new());", "use_it(a);"))
    w("occupied-remove-over-get", "an occupied entry cannot be removed while read", (occ + "\nlet a = e.get();", "use_it(e.remove());", "use_it(a);"))
    w("occupied-remove_entry-over-key", "an occupied entry cannot be removed while its key is read", (occ + "\nlet a = e.key();", "use_it(e.remove_entry());", "use_it(a);"))
    w("occupied-into_mut-over-get", "an occupied entry cannot become a mutable reference while read", (occ + "\nlet a = e.get();", "use_it(e.into_mut());", "use_it(a);"))
    w("occupied-remove-twice", "an occupied entry is removed once", (occ + "\nuse_it(e.remove());", "use_it(e.remove());", ""))
    vac = "let mut t = make();\nlet mut e = match t.entry(77) { Entry::Vacant(e) => e, _ => panic!() };"
    w("vacant-insert-over-key", "a vacant entry cannot be filled while its key is read", (vac + "\nlet a = e.key();", "use_it(e.insert(String::new()));", "use_it(a);"))
    w("vacant-into_key-over-key", "a vacant entry cannot be dissolved while its key is read", (vac + "\nlet a = e.key();", "use_it(e.into_key());", "use_it(a);"))
    w("vacant-insert-twice", "a vacant entry is filled once", (vac + "\nuse_it(e.insert(String::new()));", "use_it(e.insert(String::new()));", ""))
    for nm, call in (("merge_left", "PalmTree::merge_left(t, make())"), ("merge_right", "PalmTree::merge_right(t, make())"),
                     ("add", "t + make()"), ("into_iter", "t.into_iter()"), ("merge_left_iter", "PalmTree::merge_left_iter(t, make())"),
                     ("merge_right_iter", "PalmTree::merge_right_iter(t, make())")):
        w("use-after-" + nm, "a tree consumed by %s cannot be used again" % nm, ("let t = make();\nuse_it(%s);" % call, "use_it(t.len());", ""))
    for nm, call in (("merge_left", "PalmTree::merge_left(make(), t)"), ("merge_right", "PalmTree::merge_right(make(), t)"),
                     ("add", "make() + t"), ("append_left", "make().append_left(t)"), ("append_right", "make().append_right(t)"),
                     ("add_assign", "{ let mut o = make(); o += t; }")):
        w("use-after-right-" + nm, "a right operand consumed by %s cannot be used again" % nm, ("let t = make();\nuse_it(%s);" % call, "use_it(t.len());", ""))
    # shared references do not allow mutation
    for nm, call in (("insert", "t.insert(1, String::new())"), ("remove", "t.remove(&1)"), ("get_mut", "t.get_mut(&1)"),
                     ("iter_mut", "t.iter_mut()"), ("range_mut", "t.range_mut(..)"), ("entry", "t.entry(1)"),
                     ("insert_recursive", "t.insert_recursive(1, String::new())"), ("remove_lowest", "t.remove_lowest()"),
                     ("remove_highest", "t.remove_highest()"), ("append_left", "t.append_left(make())"),
                     ("append_right", "t.append_right(make())")):
        neg.append(("shared-" + nm, "%s needs exclusive access to the tree" % nm, "", None,
                    ("\nfn witness(t: &mut T0) { use_it(%s); }\n" % call, "\nfn witness(t: &T0) { use_it(%s); }\n" % call), ("E0596",)))
    # functions returning handles into local or shorter-lived trees
    sig = [
        ("iter", "Iter<'b, u32, String, Tree64<Unique>>", "&'a T0", "t.iter()"),
        ("range", "Iter<'b, u32, String, Tree64<Unique>>", "&'a T0", "t.range(..)"),
        ("get", "Option<&'b String>", "&'a T0", "t.get(&1)"),
        ("get_linear", "Option<&'b String>", "&'a T0", "t.get_linear(&1)"),
        ("index", "&'b String", "&'a T0", "&t[&1]"),
        ("get_mut", "Option<&'b mut String>", "&'a mut T0", "t.get_mut(&1)"),
        ("index_mut", "&'b mut String", "&'a mut T0", "&mut t[&1]"),
        ("iter_mut", "IterMut<'b, u32, String, Tree64<Unique>>", "&'a mut T0", "t.iter_mut()"),
        ("range_mut", "IterMut<'b, u32, String, Tree64<Unique>>", "&'a mut T0", "t.range_mut(..)"),
        ("entry", "Entry<'b, u32, String, Tree64<Unique>>", "&'a mut T0", "t.entry(1)"),
        ("iter-next", "Option<(&'b u32, &'b String)>", "&'a T0", "t.iter().next()"),
        ("iter-next_back", "Option<(&'b u32, &'b String)>", "&'a T0", "t.iter().next_back()"),
        ("iter_mut-next", "Option<(&'b u32, &'b mut String)>", "&'a mut T0", "t.iter_mut().next()"),
        ("iter_mut-next_back", "Option<(&'b u32, &'b mut String)>", "&'a mut T0", "t.iter_mut().next_back()"),
        ("into_mut", "&'b mut String", "&'a mut T0", "match t.entry(1) { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(String::new()) }"),
    ]
    for nm, ret, arg, call in sig:
        f = "\nfn witness<%s>(t: %s) -> %s { %s }\n"
        neg.append(("extend-" + nm, "the lifetime of what %s returns cannot be extended" % nm, "", None,
                    (f % ("'a: 'b, 'b", arg, ret, call), f % ("'a, 'b", arg, ret, call)), B))
        neg.append(("static-" + nm, "what %s returns is not static" % nm, "", None,
                    (f % ("'a: 'b, 'b", arg, ret, call), f % ("'a", arg, ret.replace("'b", "'static"), call)), B))
    # lending from a handle is bounded by the borrow of the handle
    for nm, ty, call, ret in (("occupied-get_mut", "OccRef", "e.get_mut()", "&'b mut String"),):
        pass
    wr = "\nfn lend<'t, 'b>(e: &'b mut Entry<'t, u32, String, Tree64<Unique>>) -> %s { match e { Entry::Occupied(e) => e.get_mut(), _ => panic!() } }\n"
    neg.append(("extend-occupied-get_mut", "what an occupied entry lends mutably is bounded by the loan of the entry", "", None,
                (wr % "&'b mut String", wr % "&'t mut String"), B))
    wr = "\nfn lend<'t, 'b>(e: &'b Entry<'t, u32, String, Tree64<Unique>>) -> %s { match e { Entry::Occupied(e) => e.get(), _ => panic!() } }\n"
    neg.append(("extend-occupied-get", "what an occupied entry lends is bounded by the loan of the entry", "", None,
                (wr % "&'b String", wr % "&'t String"), B))
    wr = "\nfn lend<'t, 'b>(e: &'b Entry<'t, u32, String, Tree64<Unique>>) -> %s { match e { Entry::Occupied(e) => e.key(), Entry::Vacant(e) => e.key() } }\n"
    neg.append(("extend-entry-key", "an entry's key is bounded by the loan of the entry", "", None,
                (wr % "&'b u32", wr % "&'t u32"), B))
    # mutable handles are invariant: no shorter-lived value can be smuggled in
    for nm, ty in (("IterMut", "IterMut<'a, u32, &%s str, Tree64<Unique>>"), ("Entry", "Entry<'a, u32, &%s str, Tree64<Unique>>")):
        f = "\nfn shrink<'a, 's>(h: %s) -> %s { h }\n"
        neg.append(("invariant-" + nm, "%s is invariant in its values" % nm, "", None,
                    (f % (ty % "'static", ty % "'static"), f % (ty % "'static", ty % "'s")), B))
    # iterators over a tree of borrowed data keep the data borrowed
    neg.append(("borrowed-values", "a tree of borrowed values cannot outlive them", "", None,
                ("\nfn witness() { let s = String::new(); let mut t: StdPalmTree<u32, &str> = PalmTree::new(); t.insert(1, &s); use_it(t.len()); }\n",
                 "\nfn witness() { let mut t: StdPalmTree<u32, &str> = PalmTree::new(); { let s = String::new(); t.insert(1, &s); } use_it(t.len()); }\n"), B))
    neg.append(("borrowed-iter", "an owning iterator of borrowed values cannot outlive them", "", None,
                ("\nfn witness() { let s = String::new(); let mut t: StdPalmTree<u32, &str> = PalmTree::new(); t.insert(1, &s); use_it(t.into_iter()); }\n",
                 "\nfn witness() { let i; { let s = String::new(); let mut t: StdPalmTree<u32, &str> = PalmTree::new(); t.insert(1, &s); i = t.into_iter(); } use_it(i); }\n"), B))

    neg += duplicates()
    pos = [
        ("two-iters", "two shared iterators coexist", "", T + "let mut a = t.iter(); let mut b = t.range(2..); use_it((a.next(), b.next(), a.next()));"),
        ("get-and-iter", "lookups coexist with iterators", "", T + "let a = t.iter(); let g = t.get(&1); let l = t.len(); let h = &t[&2]; use_it((a, g, l, h));"),
        ("items-outlive-iter", "items outlive their iterator", "", T + "let v: Vec<(&u32, &String)> = t.iter().collect(); use_it(v);"),
        ("mut-items", "distinct mutable items coexist", "", T + "let v: Vec<(&u32, &mut String)> = t.iter_mut().collect(); use_it(v); t.insert(1, String::new());"),
        ("reuse-after-handle", "the tree is free again once handles are gone", "", T + "{ let i = t.iter_mut(); use_it(i); } t.insert(1, String::new()); { use_it(t.entry(3)); } t.remove(&3);"),
        ("key-temporary", "lookup keys need not live as long as the result", "", T + "let r = { let k = 3u32; t.get(&k) }; let q = { let k = 4u32; t.get_linear(&k) }; let rr = { let k = 4u32; t.range(k..) }; use_it((r, q, rr));"),
        ("covariant-use", "handles can be passed for shorter lifetimes", "\nfn f<'a>(i: Iter<'a, u32, String, Tree64<Unique>>, j: Iter<'a, u32, String, Tree64<Unique>>) {}\n",
         T + "let u = make(); f(t.iter(), u.iter());"),
    ]
    witness.run(report, neg, pos)


def duplicates():
    """What lends mutably is not duplicable, whatever the configuration or the entries."""
    items = """
fn dup<T: Clone>(_: &T) {}
fn cop<T: Copy>(_: &T) {}
"""
    neg = []
    for kind in KINDS:
        t = "let mut t: PalmTree<u32, u32, Tree64<%s>> = PalmTree::load((0..9).map(|i| (i, i)));" % kind
        for nm, get in (("IterMut", "let h = t.iter_mut();"), ("IterMut of a range", "let h = t.range_mut(2..);"), ("Entry", "let h = t.entry(1);"),
                        ("OccupiedEntry", "let h = match t.entry(1) { Entry::Occupied(e) => e, _ => panic!() };"),
                        ("VacantEntry", "let h = match t.entry(77) { Entry::Vacant(e) => e, _ => panic!() };")):
            neg.append(("dup:%s:%s" % (nm, kind), "%s of a %s tree cannot be duplicated" % (nm, kind), items, t + get, "dup(&h);", ("E0277",)))
        g = "fn generic<'a, K: Copy + Ord, V: Copy, C: TreeConfig<K, V, PointerKind = %s>>(h: &%%s<'a, K, V, C>) { %%s }" % kind
        for nm in ("IterMut", "Entry"):
            neg.append(("dup:generic:%s:%s" % (nm, kind), "%s of a %s tree cannot be duplicated, whatever the configuration" % (nm, kind), items, None,
                        (g % (nm, ""), g % (nm, "dup(h);")), ("E0277",)))
    return neg


def c23(report):
    witness.run(report, duplicates(), [])


def c18_config(report):
    neg, pos = [], []
    item = """
pub struct Cfg<P>(std::marker::PhantomData<P>);
impl<K, V, P: PointerKind> TreeConfig<K, V> for Cfg<P> {
    type BranchSize = typenum::%s; type LeafSize = typenum::%s; type PointerKind = P;
}
"""
    for b, l in (("U4", "U4"), ("U5", "U64"), ("U64", "U5"), ("U7", "U6"), ("U128", "U1024"), ("U4", "U9")):
        for k in KINDS:
            body = "let mut t: PalmTree<u32, String, Cfg<%s>> = PalmTree::new(); t.insert(1, String::new()); use_it(t.iter());" % k
            pos.append(("legal:%s:%s:%s" % (b, l, k), "node sizes %s and %s are legal for %s" % (b, l, k), item % (b, l), body))
    for n in ("U0", "U1", "U2", "U3"):
        for which in ("branch", "leaf"):
            bad = (n, "U8") if which == "branch" else ("U8", n)
            neg.append(("illegal:%s:%s" % (which, n), "a %s size of %s is rejected" % (which, n), "", None,
                        (item % ("U8", "U8"), item % bad), ("E0271", "E0277")))
    witness.run(report, neg, pos)


def c18_paths(report):
    """The path stack's capacity, from the layout of every type that stores parent branches by pointer.

    The smallest legal nodes hold 4 and are split in half, so a tree of height
    h needs about 2^h insertions: 32 levels are out of reach, 16 are not.
    """
    import re
    d = build.dump(True, ())
    types = d["types"]

    def is_branch_ptr(t):
        t = types[t]
        if t["k"] in ("ptr", "ref"):
            return types[t["t"]]["s"].startswith("branch::Branch<")
        if t["k"] == "tuple":
            return any(is_branch_ptr(x) for x in t["ts"])
        if t["k"] == "adt" and t["path"] in ("std::ptr::NonNull",):
            return any(types[a]["s"].startswith("branch::Branch<") for a in t["args"])
        return False

    def has_branch_ptr(t, depth=0):
        if is_branch_ptr(t):
            return True
        t = types[t]
        return depth < 2 and t["k"] == "adt" and t["path"].startswith("crate::") and any(
            has_branch_ptr(f[1], depth + 1) for v in t["variants"] for f in v["fields"])

    caps, growable = set(), 0
    for t in types:
        if t["k"] != "adt":
            continue
        if t["path"].startswith("arrayvec::ArrayVec"):
            for a in t["args"]:
                a = types[a]
                if a["k"] == "array" and a["n"] is not None and has_branch_ptr(a["t"]):
                    caps.add(int(a["n"]))
        elif t["path"] == "std::vec::Vec" and t["args"] and is_branch_ptr(t["args"][0]):
            growable += 1
    for t in types:
        if t["k"] == "array" and t["n"] is not None and has_branch_ptr(t["t"]) and int(t["n"]) not in caps:
            caps.add(int(t["n"]))
    report.analysed["fixed-capacity paths"] = len(caps) + growable
    report.analysed["path capacities"] = sorted(caps)
    for n in sorted(caps):
        if n >= 32:
            report.ok("path-capacity:%d" % n, "a path of %d levels" % n)
        else:
            report.violation("path-capacity:%d" % n, "the path from the root to a leaf is kept in an array of %d, "
                             "which a tree of nodes of 4 outgrows after about 2^%d insertions" % (n, n + 1))
