"""C37 time stamps and identifiers, C38 existence checks, C39 generated keys."""
from core import *
import models
from p_crypto import atoms_of

UT = ("pymt.utils.utils", "Utils")
SHAPE = "%Y-%m-%d %H:%M:%S"


def util(c, name):
    return c.I.getattr(c.api(*UT), name)


def the_time(c, v, what):
    """(the moment, the format) of a text that shows a time"""
    if not (isinstance(v, Term) and v.op == "dtstr"):
        if isinstance(v, (str, bytes)):
            raise Failure("wrong result", "%s is always %s" % (what, render(v)))
        raise Unsupported("text of a time built in another way: %s" % render(v))
    t, fmt, aware = v.args
    if not isinstance(fmt, str):
        raise Unsupported("format of a time")
    c.true(isinstance(t, Term) and t.op == "sym", "%s shows %s and not the time of the call" % (what, render(t)))
    c.true("%" in fmt, "%s has the form %s" % (what, fmt))
    c.true(fmt.startswith(SHAPE), "%s has the form %s" % (what, fmt))
    c.true("%z" in fmt and aware, "%s does not tell its time zone" % what)
    return t


def moment(c, d, what):
    """the moment and the fields that a time object keeps"""
    if not (isinstance(d, Opaque) and d.type == "datetime"):
        raise Failure("wrong result", "%s is %s" % (what, render(d)))
    return d.f["t"], d.f.get("zone")


def stamps(c, what):
    I = c.I
    text, stamp, back, raw = (util(c, n) for n in ("get_timestamp_string", "get_datetime_stamp", "from_timstamp_string", "get_timestamp"))
    if what == "text":
        a = c.must(c.call(text), "get_timestamp_string")
        c.true(kind_of(a) == "str", "get_timestamp_string returns %s" % I.type_name(a))
        b = c.must(c.call(text), "get_timestamp_string")
        c.true(the_time(c, a, "the time stamp") is not the_time(c, b, "the time stamp") and a != b, "two time stamps taken at different times are the same")
    elif what == "bytes":
        a = c.must(c.call(raw), "get_timestamp")
        c.true(kind_of(a) == "bytes", "get_timestamp returns %s" % I.type_name(a))
        t1 = the_time(c, models.decode(I, a), "the time stamp")
        t2 = the_time(c, models.decode(I, c.must(c.call(raw), "get_timestamp")), "the time stamp")
        c.true(t1 != t2, "two time stamps taken at different times are the same")
    elif what == "object":
        a, b = (c.must(c.call(stamp), "get_datetime_stamp") for _ in (0, 1))
        (t1, _), (t2, _) = moment(c, a, "get_datetime_stamp"), moment(c, b, "get_datetime_stamp")
        for t in (t1, t2):
            c.true(isinstance(t, Term) and t.op == "sym", "get_datetime_stamp shows %s and not the time of the call" % render(t))
        c.true(t1 != t2, "two time stamps taken at different times are the same")
    elif what == "back":
        for n in range(3):
            a = c.must(c.call(text), "get_timestamp_string") if n % 2 == 0 else models.decode(I, c.must(c.call(raw), "get_timestamp"))
            t = the_time(c, a, "the time stamp")
            u, zone = moment(c, c.must(c.call(back, a), "from_timstamp_string"), "from_timstamp_string")
            c.true(isinstance(u, Term) and u.op == "fields" and u.args[0] == t, "the time read back is %s, must be that of %s" % (render(u), render(t)))
            c.true(set("YmdHMSz") <= set(u.args[1]), "the time read back keeps only the fields %s" % "".join(u.args[1]))
            c.true(zone is not None, "the time read back has lost its zone")
    elif what == "constants":
        import datetime

        for s in ("2024-02-29 23:59:58 +0000", "1999-12-31 00:00:00 +0530", "2031-01-02 03:04:05 -0800", "0999-10-11 12:13:14 +0000"):
            d = c.must(c.call(back, s), "from_timstamp_string of %s" % s)
            want = datetime.datetime.strptime(s, SHAPE + " %z")
            moment(c, d, "from_timstamp_string")
            if d.f.get("const") is None:
                raise Unsupported("time built from its fields")
            c.true(d.f["const"] == want and d.f["const"].utcoffset() == want.utcoffset(), "from_timstamp_string of %s is %s" % (s, d.f["const"]))
    elif what == "refused":
        for s in ("", "yesterday", "2024-02-30 00:00:00 +0000", "2024-02-28 24:00:00 +0000", "2024-02-28", "2024-02-28 10:00:00 +0000 x"):
            c.raises(c.call(back, s), "from_timstamp_string of %r" % s, "ValueError")
        for s in (None, 5, b"2024-02-28 10:00:00 +0000"):
            c.raises(c.call(back, s), "from_timstamp_string of %s" % I.type_name(s), "TypeError")
    elif what == "id":
        seen = []
        for n in range(3):
            for f, kind in ((util(c, "get_id_string"), "str"), (util(c, "get_id"), "bytes")):
                a = c.must(c.call(f), "an identifier")
                c.true(kind_of(a) == kind, "an identifier is %s, must be %s" % (I.type_name(a), kind))
                if kind == "bytes":
                    a = models.decode(I, a)
                c.true(not isinstance(a, str), "an identifier is always %s" % render(a))
                c.true(any(isinstance(x, Term) and x.op == "sym" and dict(x.args[1]).get("group") in ("uuid", "rand") for x in atoms_of(models._fz(I, a))), "an identifier is %s, which nothing random went into" % render(a))
                seen.append(a)
        c.true(len(set(seen)) == len(seen), "an identifier is handed out twice")


# ------------------------------------------------------------------ C38
LINKS = {"/cwd/lf", "/cwd/ld", "/cwd/lx", "/abs/ld"}
TREE = {"/cwd/lf": "file", "/cwd/ld": "dir", "/abs/ld": "dir", "/cwd/~": "dir", "/cwd/~/f": "file", "/cwd/$HOME": "file", "/cwd/ f ": "file", "/cwd/F": "dir", "/home": "dir", "/home/u": "dir", "/home/u/f": "dir", "/home/u/g": "file",
        "/cwd/a b": "file", "/cwd/d.": "dir", "/cwd/*": "dir", "/cwd/fx": "file", "/abs/~": "file", "/cwd/ü": "file", "/cwd/%66": "dir", "/abs/.": "dir",
        "/": "dir", "/cwd": "dir", "/cwd/f": "file", "/cwd/d": "dir", "/cwd/d/f": "file", "/cwd/.h": "file", "/cwd/s": "special",
        "/other": "dir", "/other/f": "dir", "/other/g": "file", "/other/d": "file", "/abs": "dir", "/abs/f": "file", "/abs/d": "dir", "/f": "dir", "/d": "file", "/g": "file"}
PATHS = ["/abs/f", "/abs/d", "/abs/x", "/abs", "/", "./f", "./d", "./d/f", "./x", "./.h", "./s", "./", "./d/", "./f/", "./../abs/f", "./../abs/d", "./../abs/x", "/cwd/./f", "/abs/../cwd/d", "./g", "./d/../f", ".//f", "././f",
         "/cwd/f/", "/f", "/d", "./..", "./.", "./s/", "/cwd/s", "./lf", "./ld", "./lx", "./ld/", "./lf/", "/abs/ld", "./~", "./~/f", "./~/g", "./$HOME", "./$HOME/g", "/cwd/~", "/abs/~", "./ f ", "./ f", "./f ", "./F", "./D", "./a b", "./d.", "./*", "./f*", "./ü", "./%66", "./%67",
         "./.", "./...", "/cwd/${HOME}", "file:///abs/f", "/abs//f", "//abs/f", "", " ", "./f\n", "./f\0"]
BARE = ["f", "d", "x", "../abs/f", ".h", ".", "..", "d/f", "~", "~/f", "~/g", "~u", "$HOME", "$HOME/g", " f ", "F", "fx", "f*", "lf", "ld", "s"]


def kind_at(cwd, p):
    import posixpath

    q = posixpath.join(cwd, p)
    k = TREE.get(posixpath.normpath(q).replace("//", "/"))
    return None if q.endswith("/") and k == "file" else k


def existence(c, p, cwd):
    I = c.I
    I.cfg["tree"] = TREE
    I.cfg["links"] = LINKS
    for first in (cwd, "/abs" if cwd != "/abs" else "/cwd", cwd):
        I.cfg["cwd"] = first
        k = kind_at(first, p)
        if p.startswith(".//"):
            # what follows ./ looks absolute: only the agreement with the system's own reading is asked for, which is ambiguous
            continue
        c.boolean(c.call(util(c, "file_exists"), p), k == "file", "file_exists(%r) in %s" % (p, first))
        c.boolean(c.call(util(c, "dir_exists"), p), k == "dir", "dir_exists(%r) in %s" % (p, first))
    c.true(not [e for e in I.events if e[0] in ("open", "remove")], "an existence check touches files")


def existence_types(c):
    c.I.cfg["tree"] = TREE
    for n in ("file_exists", "dir_exists"):
        for x in (None, 5, b"/abs/f", List(["/abs/f"]), True):
            c.raises(c.call(util(c, n), x), "%s of %s" % (n, c.I.type_name(x)), "TypeError")
        c.boolean(c.call(util(c, n), "/abs/" + ("f" if n[0] == "f" else "d")), True, n)


# ------------------------------------------------------------------ C39
def keys(c, what):
    I = c.I
    if what == "rsa":
        seen = []
        for n in range(3):
            k = c.must(c.call(util(c, "generate_rsa_keypair")), "generate_rsa_keypair")
            c.true(kind_of(k) == "bytes", "generate_rsa_keypair returns %s" % I.type_name(k))
            c.boolean(c.call(util(c, "rsa_key_valid"), k, "private"), True, "rsa_key_valid of a generated key as private")
            c.boolean(c.call(util(c, "rsa_key_valid"), k, "public"), False, "rsa_key_valid of a generated key as public")
            if not (isinstance(k, Term) and k.op == "pem_priv"):
                raise Failure("wrong result", "generate_rsa_keypair returns %s" % render(k))
            K = k.args[0]
            bits = dict(K.args[1]).get("bits") if len(K.args) > 1 else None
            c.true(isinstance(bits, int) and bits >= 2048, "a generated RSA key has %s bits" % render(bits))
            c.true("PEM" in k.args[2], "a generated RSA key is in the form %s" % render(k.args[2]))
            c.true(k.args[1] in ("", b"", None), "a generated RSA key is under a passphrase")
            seen.append(K)
        c.true(len(set(seen)) == 3, "a key is handed out twice")
    elif what == "ecc default":
        seen = []
        for n in range(3):
            k = c.must(c.call(util(c, "generate_ecc_key")), "generate_ecc_key")
            seen.append(ecc_key(c, k, "p256"))
        c.true(len(set(seen)) == 3, "a key is handed out twice")
    elif what == "ecc curves":
        for cur in ("p192", "p224", "p256", "p384", "p521", "ed25519", "ed448"):
            seen = []
            for name in models.CURVES[cur]:
                seen.append(ecc_key(c, c.must(c.call(util(c, "generate_ecc_key"), name), "generate_ecc_key(%r)" % name), cur))
                seen.append(ecc_key(c, c.must(c.call(util(c, "generate_ecc_key"), curve=name), "generate_ecc_key(curve=%r)" % name), cur))
            c.true(len(set(seen)) == len(seen), "a key is handed out twice")
    elif what == "ecc refused":
        for x in ("", "P-999", "rsa", None, 256, b"P-256"):
            c.raises(c.call(util(c, "generate_ecc_key"), x), "generate_ecc_key(%r)" % (x,))


def ecc_key(c, k, curve):
    c.true(kind_of(k) == "bytes", "generate_ecc_key returns %s" % c.I.type_name(k))
    t = models.decode(c.I, k)
    if not (isinstance(t, Term) and t.op == "ecc_pem"):
        raise Failure("wrong result", "generate_ecc_key returns %s" % render(k))
    c.true(t.args[0] == curve, "a key on the curve %s, must be on %s" % (t.args[0], curve))
    return t.args[1]


def gen_stamps(tier, seed):
    return [("time stamps: " + w, stamps, (w,)) for w in ("text", "bytes", "object", "back", "constants", "refused", "id")]


def gen_exists(tier, seed):
    cwds = ("/cwd", "/other", "/abs", "/") if tier == "quick" else ("/cwd", "/other", "/abs", "/", "/cwd/d", "/nowhere", "/abs/d")
    return [("existence of %s in %s" % (p, d), existence, (p, d)) for p in PATHS + BARE for d in cwds] + [("argument checks", existence_types, ())]


def gen_keys(tier, seed):
    return [("generated keys: " + w, keys, (w,)) for w in ("rsa", "ecc default", "ecc curves", "ecc refused")]
