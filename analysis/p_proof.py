"""C09 proofs of inclusion, C10 proofs of exclusion."""
from core import *
import tries
from tries import Canon, unnib, fmt, value, keccak, hp, unhp, nib
from p_trie import sequences, describe, vals_for, open_trie, root_of, reps, size_variants, long_keys, many_entries, MPT

PROOF = ("pymt.proof", "Proof")
POI, POE = b"MPT-POI", b"MPT-POE"


def spec_walk(I, root_hash, elements, path):
    """what the proof elements show about path: a value, None (absent) or 'open'"""
    db = {}
    for e in elements:
        if isinstance(e, Term) and e.op == "rlp":
            db[keccak(e)] = e.args[0]
    c, p = db.get(root_hash), path
    if c is None:
        return "open"
    while True:
        if not isinstance(c, tuple):
            if isinstance(c, bytes) and c == b"":
                return None
            c = db.get(c)
            if c is None:
                return "open"
        if len(c) == 17:
            if not p:
                return None if isinstance(c[16], bytes) and c[16] == b"" else c[16]
            c, p = c[p[0]], p[1:]
            continue
        q, leaf = unhp(c[0])
        if leaf:
            return c[1] if q == p else None
        if p[: len(q)] != q:
            return None
        c, p = c[1], p[len(q):]


def accepted(c, r):
    """was the proof accepted (None: not decided)"""
    if not r.ok:
        return False
    return c.decided_truth(r.value, "verdict")


def reject(c, t, name, proof, what):
    c.obligations += 1
    r = c.m(t, name, proof)
    if accepted(c, r):
        raise Failure("forged proof accepted", "%s accepted %s" % (name, what))


def accept(c, t, name, proof, what):
    r = c.m(t, name, proof)
    v = c.must(r, "%s of %s" % (name, what))
    if not c.decided_truth(v, "verdict"):
        raise Failure("honest proof rejected", "%s returned %s for %s" % (name, render(v), what))


def verifiers(c, t, canon, secure=False):
    """the trie itself, a root-only trie, and the root-only wrapper class"""
    out = [("the trie", t)]
    cls = c.api(*MPT)
    out.append(("a trie holding only the root", c.must(c.call(cls, Dict(), canon.root, secure), "root-only trie")))
    R = c.api("pymt.empt", "RootEMPT")
    out.append(("RootEMPT", c.must(c.call(R, root=canon.root, secure=secure), "RootEMPT")))
    return out


def mkproof(c, key, root, elements, typ):
    return c.call(c.api(*PROOF), target_key=key, root_hash=root, proof=tuple(elements), proof_type=typ)


def get_poi(c, keys, key, sizes, image=None):
    vals = vals_for(keys, sizes)
    canon = Canon(c.I, vals)
    t, st = open_trie(c, canon)
    kb = unnib(key)
    r = c.m(t, "get_proof_of_inclusion", kb)
    if key not in vals:
        c.raises(r, "get_proof_of_inclusion for absent key %s" % fmt(key))
        return
    proof = c.must(r, "get_proof_of_inclusion for key %s" % fmt(key))
    elements = c.must(c.attr(proof, "proof"), "proof")
    c.equal(c.must(c.attr(proof, "target_key"), "target_key"), kb, "target key of the proof")
    c.equal(c.must(c.attr(proof, "type"), "type"), POI, "type of the proof")
    shown = spec_walk(c.I, canon.root_hash, elements, key)
    c.obligations += 1
    if isinstance(shown, str):
        raise Failure("incomplete proof", "the proof of inclusion for key %s lacks a node on the way from the root" % fmt(key))
    c.equal(shown, vals[key], "value shown by the proof for key %s" % fmt(key))
    for n, v in verifiers(c, t, canon):
        accept(c, v, "verify_proof_of_inclusion", proof, "an honest proof for key %s on %s" % (fmt(key), n))


def forgeries(c, canon, vals, key, fsize):
    """element lists an adversary can present for key"""
    genuine = [mk("rlp", x) for x in canon.path_nodes(c.I, key)]
    root = genuine[0]
    allnodes = [root] + [n for n in canon.nodes.values() if n is not root]
    F = value("X", fsize)
    junk = sym("junk", junk=True, lo=1, generic=True)
    fl = mk("rlp", (hp(key, True), F))
    out = [("only the root node", [root]), ("all genuine nodes", allnodes), ("a forged root leaf", [fl]), ("no element", [])]
    out.append(("the genuine path and junk", genuine + [junk]))
    out.append(("junk", [junk]))
    out.append(("the root and a forged leaf with the whole key", [root, fl]))
    out.append(("the genuine path and a forged leaf with the whole key", genuine + [fl]))
    for i in range(1, len(key) + 1):
        f = mk("rlp", (hp(key[i:], True), F))
        out.append(("the genuine path and a forged leaf with the key's rest from nibble %d" % i, genuine + [f]))
        out.append(("the genuine path without its end and such a forged leaf", genuine[:-1] + [f]))
    fb = mk("rlp", (b"",) * 16 + (F,))
    out.append(("the genuine path and a forged branch value", genuine + [fb]))
    out.append(("the genuine path ending in a forged branch", genuine[:-1] + [fb]))
    for i in range(len(genuine)):
        out.append(("the genuine path without node %d" % i, genuine[:i] + genuine[i + 1:]))
        out.append(("the genuine path with junk for node %d" % i, genuine[:i] + [junk] + genuine[i + 1:]))
        out.append(("the genuine path with bytes behind node %d" % i, genuine[:i] + [mk("cat", (genuine[i], b"\x00"))] + genuine[i + 1:]))
    if len(genuine) > 1:
        out.append(("the genuine path reversed", genuine[::-1]))
    return out


def sound(c, keys, key, sizes, kind, which, fsize):
    """every accepted proof is right about the key and shows it"""
    vals = vals_for(keys, sizes)
    canon = Canon(c.I, vals)
    t, st = open_trie(c, canon)
    kb = unnib(key)
    inc = kind == "inclusion"
    typ = POI if inc else POE
    name = "verify_proof_of_" + kind
    null = mk("rlp", (hp(key, True), b"null"))
    other_root = sym("R", lo=32, hi=32, generic=True)
    for n, v in verifiers(c, t, canon)[which:which + 1]:
        for what, el in forgeries(c, canon, vals, key, fsize):
            shown = spec_walk(c.I, canon.root_hash, el, key)
            bad = (key in vals) != inc or isinstance(shown, str)
            variants = [(el, "")] if inc else [(el + [null], " and the closing leaf"), (el, "")]
            for e, w in variants:
                if bad:
                    for rt, rn in ((canon.root_hash, "the root hash"),) if which else ((canon.root, "the root"),):
                        p = mkproof(c, kb, rt, e, typ)
                        if p.ok:
                            reject(c, v, name, p.value, "%s%s with %s as proof of %s of the %s key %s on %s" % (what, w, rn, kind, "present" if key in vals else "absent", fmt(key), n))
        # a proof for another root
        g = [mk("rlp", x) for x in canon.path_nodes(c.I, key)] + ([] if inc else [null])
        if (key in vals) == inc:
            if inc:
                p = mkproof(c, kb, other_root, g, typ)
                reject(c, v, name, p.value, "a proof that names another root on %s" % n)
            # another proof type is refused
            for wrong in (POE if inc else POI, b"MT-POI"):
                p = mkproof(c, kb, canon.root_hash, g, wrong)
                c.raises(c.m(v, name, p.value), "%s of a proof of another type" % name, "TypeError")


def splice(c, keys, key, sizes, kind):
    """an honest proof for one key does not prove anything about a different key or another trie"""
    vals = vals_for(keys, sizes)
    canon = Canon(c.I, vals)
    t, st = open_trie(c, canon)
    inc = kind == "inclusion"
    r = c.m(t, "get_proof_of_" + kind, unnib(key))
    if (key in vals) != inc:
        return
    proof = c.must(r, "get_proof_of_" + kind)
    el = c.must(c.attr(proof, "proof"), "proof")
    name = "verify_proof_of_" + kind
    V = verifiers(c, t, canon)[len(key) // 2 % 3:][:1]
    targets = set(keys) | {key + (0, 1), key[:-2], key[:-1] + ((key[-1] + 1) % 16,) if key else (1, 1)}
    for k in sorted(targets):
        shown = spec_walk(c.I, canon.root_hash, el, k)
        if inc and (k not in vals or isinstance(shown, str)) or not inc and (k in vals or isinstance(shown, str)):
            p = mkproof(c, unnib(k), c.must(c.attr(proof, "trie_root"), "trie_root"), el, POI if inc else POE)
            for n, v in V:
                reject(c, v, name, p.value, "a proof for key %s relabelled as one for key %s on %s" % (fmt(key), fmt(k), n))
    # after the trie changes, the proof no longer holds
    ch = dict(vals)
    other = next((k for k in sorted(vals) if k != key), None)
    if inc:
        ch[key] = value("N", "long")
    else:
        ch[key] = value("N", "long")
    c2 = Canon(c.I, ch)
    t2, st2 = open_trie(c, c2)
    reject(c, t2, name, proof, "a proof made before key %s was changed" % fmt(key))
    if inc and len(vals) > 1:
        ch = dict(vals)
        del ch[key]
        c3 = Canon(c.I, ch)
        t3, st3 = open_trie(c, c3)
        reject(c, t3, name, proof, "a proof made before key %s was deleted" % fmt(key))


def get_poe(c, keys, key, sizes):
    vals = vals_for(keys, sizes)
    canon = Canon(c.I, vals)
    t, st = open_trie(c, canon)
    kb = unnib(key)
    r = c.m(t, "get_proof_of_exclusion", kb)
    if key in vals:
        c.raises(r, "get_proof_of_exclusion for present key %s" % fmt(key))
        return
    proof = c.must(r, "get_proof_of_exclusion for key %s" % fmt(key))
    elements = c.must(c.attr(proof, "proof"), "proof")
    c.equal(c.must(c.attr(proof, "target_key"), "target_key"), kb, "target key of the proof")
    c.equal(c.must(c.attr(proof, "type"), "type"), POE, "type of the proof")
    shown = spec_walk(c.I, canon.root_hash, elements, key)
    c.true(shown is None, "the proof of exclusion for key %s %s" % (fmt(key), "lacks a node on the way from the root" if isinstance(shown, str) else "shows a value"), "incomplete proof")
    for n, v in verifiers(c, t, canon):
        accept(c, v, "verify_proof_of_exclusion", proof, "an honest proof for key %s on %s" % (fmt(key), n))


def proof_history(c, ops, sizes, kind):
    """proofs made and verified between changes of one trie: each is accepted exactly while its root is the trie's"""
    I = c.I
    inc = kind == "inclusion"
    st = Dict(name="trie storage")
    cls = c.api(*MPT)
    t = c.must(c.call(cls, st), "creating a trie")
    cur, kept = {}, []
    keys = sorted({k for _, k in ops})
    verify, make = "verify_proof_of_" + kind, "get_proof_of_" + kind
    for n, (op, k) in enumerate(ops):
        what = "step %d (%s %s)" % (n + 1, op, fmt(k))
        if op == "set":
            v = value("V%d" % n, sizes[n])
            c.must(c.m(t, "update", unnib(k), v), what)
            cur[k] = v
        elif op == "del":
            r = c.m(t, "delete", unnib(k))
            if k in cur:
                c.must(r, what)
                del cur[k]
        canon = Canon(I, cur)
        for w, rh, proof in kept:
            if cur and rh is canon.root_hash:
                accept(c, t, verify, proof, "the proof %s, whose root is again the trie's after %s" % (w, what))
            else:
                reject(c, t, verify, proof, "the proof %s after %s" % (w, what))
        if not cur:
            continue
        for x in keys:
            r = c.m(t, make, unnib(x))
            if (x in cur) != inc:
                c.raises(r, "%s for the %s key %s after %s" % (make, "present" if x in cur else "absent", fmt(x), what))
                continue
            p = c.must(r, "%s for key %s after %s" % (make, fmt(x), what))
            el = c.must(c.attr(p, "proof"), "proof")
            shown = spec_walk(I, canon.root_hash, el, x)
            c.true(not isinstance(shown, str), "the proof of %s for key %s after %s lacks a node on the way from the root" % (kind, fmt(x), what), "incomplete proof")
            if inc:
                c.equal(shown, cur[x], "value shown by the proof for key %s after %s" % (fmt(x), what))
            accept(c, t, verify, p, "a proof for key %s after %s" % (fmt(x), what))
            if not any(rh is canon.root_hash and w.startswith("of key %s " % fmt(x)) for w, rh, _ in kept):
                kept.append(("of key %s from %s" % (fmt(x), what), canon.root_hash, p))


def gen(kind, tier, seed):
    out = []
    inc = kind == "inclusion"
    n = 0
    for name, ops, sz in sequences(tier):
        ops2 = [(o, s) for o, s in zip(ops, sz) if o[0] != "get"]
        if len(ops2) < 3 or sum(s == "any" for _, s in ops2) > 1:
            continue
        n += 1
        if n > (30 if tier == "quick" else 200):
            break
        out.append(("proofs between changes: " + name, proof_history, (tuple(o for o, _ in ops2), tuple(s for _, s in ops2), kind)))
    full = reps(tier, seed)
    for i, (ks, k) in enumerate(full + long_keys()):
        if not ks:
            continue
        for j, s in enumerate(size_variants(i, len(ks), tier)):
            s = tuple(s)
            out.append(("proof of %s: %s" % (kind, describe(ks, k, s)), get_poi if inc else get_poe, (ks, k, s)))
    for i, (ks, k, s, n) in enumerate(many_entries(tier)):
        out.append(("proof of %s: trie of %s" % (kind, n), get_poi if inc else get_poe, (ks, k, s)))
        if (k in ks) == inc and i % 2 == 0 and len(ks) < 30:
            out.append(("forged proof of %s: trie of %s" % (kind, n), sound, (ks, k, s, kind, i % 3, ("long", "short")[i % 2])))
    step = 2 if tier == "quick" else 1
    for i, (ks, k) in enumerate(full):
        if not ks or len(k) > 8:
            continue
        s = ("long", "short")[i // 2 % 2]
        s = (s,) * len(ks) if i % 4 < 3 else tuple(("long", "short")[(i // 4 + j) % 2] for j in range(len(ks)))
        if i % step == 0 or len(ks) < 3:
            out.append(("forged proof of %s: %s" % (kind, describe(ks, k, s)), sound, (ks, k, s, kind, i // 2 % 3, ("long", "short")[i // 3 % 2])))
        if (k in ks) == inc and (i % step == 0 or len(ks) < 3):
            out.append(("relabelled proof of %s: %s" % (kind, describe(ks, k, s)), splice, (ks, k, s, kind)))
    return out


def gen_poi(tier, seed):
    return gen("inclusion", tier, seed)


def gen_poe(tier, seed):
    return gen("exclusion", tier, seed)
