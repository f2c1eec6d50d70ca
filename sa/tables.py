"""Table rules: registration (C13), error reasons (C21), provider/engine agreement (C27), dispatch tables (C29).

All rules read the initialisers of the global tables from the compiler's intermediate representation; the
few functions that hand tables out or fill method objects are analysed with conditional constant propagation
for each identifier."""
import re
import front, ctab
from ctab import G, FnRef, value, elements, record, string, init, SCCP
from front import AnalysisError, Program
from common import Report
from check import Result

def program():
    return Program()

def calls_to(P, name):
    for m in P.mods:
        for F in m.fns.values():
            for b in F.order:
                for I in F.blocks[b]:
                    if I.op == "call" and I.callee == name:
                        yield F, I

def fnargs(P, name, pos):
    """functions passed as argument pos of an API function"""
    out = []
    for F, I in calls_to(P, name):
        a = I.args[pos]
        if a[0] == "f" and a[1] in P.fn:
            out.append(P.fn[a[1]])
    return out

def globals_of(F):
    seen = []
    def add(o):
        if o and o[0] == "p" and o[1][0] == "g" and o[1][1] not in seen:
            seen.append(o[1][1])
    for b in F.order:
        for I in F.blocks[b]:
            for a in I.args:
                add(a)
            if I.op == "getelementptr":
                add(I.j["b"])
            if I.op == "phi":
                for v in I.j["in"].values():
                    add(v)
    return seen

def dt_of(P, n, tu):
    m, g = ctab.find(P, n, tu)
    return re.sub(r"\bconst\b\s*", "", (g or {}).get("dt") or "").strip()

def descriptors(P, api, what):
    """(names of the descriptors an engine callback iterates over, the callback)"""
    for F in fnargs(P, api, 1):
        for n in globals_of(F):
            if re.match(r"%s\s*\*\s*\[" % what, dt_of(P, n, F.mod.tu)):
                vals = elements(init(P, n, F.mod.tu))
                return [v.n if isinstance(v, G) else None for v in vals], F, n
    raise AnalysisError("the list of %s handed to %s was not found" % (what, api))

def nid_jobs(P):
    """descriptor global -> (short name) for identifiers created at load time"""
    out = {}
    for m, n, g in ctab.of_type(P, "GOST_NID_JOB"):
        if not (g.get("dt") or "").strip().endswith("GOST_NID_JOB"):
            continue
        r = record(P, value(g["init"]), "gost_nid_job")
        cb = r.get("callback")
        if not isinstance(cb, FnRef) or cb.n not in P.fn:
            continue
        F = P.fn[cb.n]
        S = SCCP(P, F, {})
        for b in F.order:
            for I in F.blocks[b]:
                if I.op == "store":
                    v, a = I.args
                    o = S.op(a)
                    if isinstance(o, G) and v == ("v", F.args[0][0]):
                        out.setdefault(o.n, []).append((o.o, string(P, r.get("sn"), m.tu), string(P, r.get("ln"), m.tu), n))
    return out

def resolved(P, name, st):
    """descriptor with the values of its template filled in the way the constructors do it"""
    r = record(P, init(P, name), st)
    t = r.get("template")
    if isinstance(t, G):
        m, _ = ctab.find(P, name)
        T = record(P, init(P, t.n, m.tu), st)
        for k, v in T.items():
            if k == "flags":
                r[k] = (r[k] or 0) | (v or 0)
            elif not r.get(k):
                r[k] = v
    return r

EVP = ctab.defines("evp.h")

def evp(n):
    v = EVP[n]
    return int(v.rstrip("UuLl"), 0)

# ---------------------------------------------------------------- C13
def handlers(P, F, nid):
    """API call -> arguments, on the path for one identifier"""
    S = SCCP(P, F, {0: nid})
    out = {}
    for I, a in S.calls():
        if I.callee:
            out.setdefault(I.callee, []).append(a)
    return out, set(map(repr, S.returns()))

KEYTYPES_MAC = ("mac", "omac")
PM_EC = {"EVP_PKEY_meth_set_ctrl": (1, 2), "EVP_PKEY_meth_set_sign": (2,), "EVP_PKEY_meth_set_verify": (2,),
         "EVP_PKEY_meth_set_keygen": (2,), "EVP_PKEY_meth_set_encrypt": (2,), "EVP_PKEY_meth_set_decrypt": (2,),
         "EVP_PKEY_meth_set_derive": (2,), "EVP_PKEY_meth_set_paramgen": (2,), "EVP_PKEY_meth_set_check": (1,),
         "EVP_PKEY_meth_set_public_check": (1,), "EVP_PKEY_meth_set_init": (1,), "EVP_PKEY_meth_set_cleanup": (1,),
         "EVP_PKEY_meth_set_copy": (1,)}
PM_MAC = {"EVP_PKEY_meth_set_ctrl": (1, 2), "EVP_PKEY_meth_set_signctx": (1, 2), "EVP_PKEY_meth_set_keygen": (2,),
          "EVP_PKEY_meth_set_init": (1,), "EVP_PKEY_meth_set_cleanup": (1,), "EVP_PKEY_meth_set_copy": (1,)}
AM_EC = {"EVP_PKEY_asn1_set_free": (1,), "EVP_PKEY_asn1_set_private": (1, 2, 3),
         "EVP_PKEY_asn1_set_param": (3, 4, 5), "EVP_PKEY_asn1_set_public": (1, 2, 3, 4, 5, 6),
         "EVP_PKEY_asn1_set_ctrl": (1,), "EVP_PKEY_asn1_set_security_bits": (1,)}
AM_MAC = {"EVP_PKEY_asn1_set_free": (1,), "EVP_PKEY_asn1_set_ctrl": (1,)}

def c13(tier):
    P = program()
    R = Result()
    rep = R.reports
    O = ctab.objects()
    jobs = nid_jobs(P)
    n_obl = 0
    def bad(key, where, msg):
        rep.append(Report("registration", key, where, msg))
    # ciphers
    cl, Fc, cn = descriptors(P, "ENGINE_set_ciphers", "GOST_cipher")
    nids = {}
    for n in cl:
        if n is None:
            bad("cipher:null", cn, "a null entry in the list of ciphers")
            continue
        r = resolved(P, n, "gost_cipher_st")
        w = ctab.where(P, n)
        nid = r["nid"]
        if n in jobs:
            if nid:
                bad("cipher:%s:nid" % n, w, "has both a fixed identifier and one created at load time")
            nid = "new:" + n
        if not nid:
            bad("cipher:%s:nid" % n, w, "advertised without an identifier")
        if nid in nids:
            bad("cipher:%s:nid-dup" % n, w, "same identifier as %s" % nids[nid])
        nids[nid] = n
        fl = r["flags"]
        for f in ("init", "do_cipher"):
            n_obl += 1
            if not isinstance(r[f], FnRef):
                bad("cipher:%s:%s" % (n, f), w, "no %s handler" % f)
        if not r["block_size"] or not r["key_len"]:
            bad("cipher:%s:size" % n, w, "no block or key size")
        if not r["ctx_size"]:
            bad("cipher:%s:ctx" % n, w, "no context size")
        mode = fl & evp("EVP_CIPH_MODE") if "EVP_CIPH_MODE" in EVP else fl & 0xF0007
        stream = mode in (3, 4, 5)
        n_obl += 4
        if r["block_size"] not in (1, 8, 16):
            bad("cipher:%s:blk" % n, w, "block size %s" % r["block_size"])
        if mode in (3, 4, 5) and r["block_size"] != 1:
            bad("cipher:%s:blk" % n, w, "a stream mode with block size %s" % r["block_size"])
        if mode in (1, 2) and r["block_size"] == 1:
            bad("cipher:%s:blk" % n, w, "a block mode with block size 1")
        if mode == 1 and r["iv_len"]:
            bad("cipher:%s:iv" % n, w, "ECB with an IV")
        if mode in (2, 3, 4, 5) and not r["iv_len"]:
            bad("cipher:%s:iv" % n, w, "a mode with IV but no IV length")
        if r["iv_len"] > 16:
            bad("cipher:%s:iv" % n, w, "IV longer than the longest IV")
        if fl & 0x40 and not isinstance(r["ctrl"], FnRef):       # EVP_CIPH_CTRL_INIT
            bad("cipher:%s:ctrl" % n, w, "flag CTRL_INIT without a control handler")
        if fl & 0x400 and not isinstance(r["ctrl"], FnRef):      # EVP_CIPH_CUSTOM_COPY
            bad("cipher:%s:copy" % n, w, "flag CUSTOM_COPY without a control handler")
        if fl & 0x200000 and not (fl & 0x100000 and isinstance(r["ctrl"], FnRef)):
            bad("cipher:%s:aead" % n, w, "AEAD cipher without custom cipher flag or control handler")
    R.floor("ciphers", len(cl), 15)
    # digests
    dl, Fd, dn = descriptors(P, "ENGINE_set_digests", "GOST_digest")
    dn_ = {}
    for n in dl:
        if n is None:
            bad("digest:null", dn, "a null entry in the list of digests")
            continue
        r = resolved(P, n, "gost_digest_st")
        w = ctab.where(P, n)
        if not r["nid"]:
            bad("digest:%s:nid" % n, w, "advertised without an identifier")
        if r["nid"] in dn_:
            bad("digest:%s:nid-dup" % n, w, "same identifier as %s" % dn_[r["nid"]])
        dn_[r["nid"]] = n
        for f in ("init", "update", "final", "copy", "cleanup"):
            n_obl += 1
            if not isinstance(r[f], FnRef):
                bad("digest:%s:%s" % (n, f), w, "no %s handler" % f)
        for f in ("result_size", "app_datasize", "input_blocksize"):
            n_obl += 1
            if not r[f]:
                bad("digest:%s:%s" % (n, f), w, "%s is zero" % f)
    R.floor("digests", len(dl), 6)
    # the two constructors pass every member on
    for ctor, st, sets in (("GOST_init_cipher", "gost_cipher_st",
                            {"iv_len": "iv_length", "flags": "flags", "init": "init", "do_cipher": "do_cipher",
                             "cleanup": "cleanup", "ctx_size": "impl_ctx_size",
                             "set_asn1_parameters": "set_asn1_params", "get_asn1_parameters": "get_asn1_params",
                             "ctrl": "ctrl"}),
                           ("GOST_init_digest", "gost_digest_st",
                            {"result_size": "result_size", "input_blocksize": "input_blocksize",
                             "app_datasize": "app_datasize", "flags": "flags", "init": "init", "update": "update",
                             "final": "final", "copy": "copy", "cleanup": "cleanup", "ctrl": "ctrl"})):
        F = P.fn.get(ctor)
        if F is None:
            raise AnalysisError("%s vanished" % ctor)
        off = {o: nme for o, nme, t in ctab.fields(P, st)}
        pre = "EVP_CIPHER_meth_set_" if "cipher" in ctor else "EVP_MD_meth_set_"
        src = field_sources(F)
        for fld, api in sets.items():
            n_obl += 1
            hit = False
            for b in F.order:
                for I in F.blocks[b]:
                    if I.op == "call" and I.callee == pre + api:
                        hit = True
                        got = {off.get(o) for o in src(I.args[1])} - {None, "template"}
                        if got - {"nid"} and fld not in got:
                            bad("ctor:%s:%s" % (ctor, fld), I.where(), "%s is given %s instead of %s" % (api, ",".join(sorted(got)), fld))
            if not hit:
                bad("ctor:%s:%s" % (ctor, fld), ctor, "the constructor never passes %s on" % fld)
    # key methods
    ml = None
    for F in fnargs(P, "ENGINE_set_pkey_meths", 1):
        for n in globals_of(F):
            m, g = ctab.find(P, n, F.mod.tu)
            if g and re.match(r"(struct )?gost_meth_minfo\s*\[", dt_of(P, n, F.mod.tu)):
                ml = (n, m)
    if not ml:
        raise AnalysisError("the table of key methods was not found")
    rows = [record(P, x if isinstance(x, dict) else None, "gost_meth_minfo") for x in elements(init(P, ml[0], ml[1].tu))]
    w = "%s %s" % (ml[1].tu, ml[0])
    if not rows or rows[-1]["nid"]:
        bad("meth:term", w, "the table of key methods is not terminated")
    body = rows[:-1]
    pm, am, seen, ptr = fnargs1(P, "register_pmeth_gost"), fnargs1(P, "register_ameth_gost"), set(), set()
    for r in body:
        nid = r["nid"]
        nm = O.name(nid)
        if not nid:
            bad("meth:hole", w, "a terminator in the middle of the table of key methods")
            continue
        if nid in seen:
            bad("meth:%s:dup" % nm, w, "%s appears twice" % nm)
        seen.add(nid)
        for k in ("pmeth", "ameth"):
            n_obl += 1
            if not isinstance(r[k], G):
                bad("meth:%s:%s" % (nm, k), w, "%s has no %s object" % (nm, k))
            elif (k, r[k]) in ptr:
                bad("meth:%s:%s" % (nm, k), w, "%s shares its %s object with another key type" % (nm, k))
            ptr.add((k, r[k]))
        ec = nid in ec_nids(O)
        hp, rp = handlers(P, pm, nid)
        ha, ra = handlers(P, am, nid)
        if not any(k in hp for k in PM_EC) and not any(k in ha for k in AM_EC):
            bad("meth:%s:unimplemented" % nm, w, "key type %s is advertised but neither its key method nor its ASN.1 method "
                "has any handler" % nm)
            continue
        for what, h, need in (("pmeth", hp, PM_EC if ec else PM_MAC), ("ameth", ha, AM_EC if ec else AM_MAC)):
            for api, pos in need.items():
                n_obl += 1
                ok = any(all(isinstance(a[p], FnRef) for p in pos) for a in h.get(api, []))
                if not ok:
                    bad("meth:%s:%s" % (nm, what), "%s for %s" % ("register_%s_gost" % what, nm),
                        "key type %s is advertised but %s is never called with its handlers" % (nm, api))
        if "1" not in rp and "('top',)" not in rp:
            bad("meth:%s:pmeth" % nm, "register_pmeth_gost for %s" % nm, "never succeeds")
    R.floor("key types", len(body), 9)
    # MAC key types and their digests
    for r in body:
        if r["nid"] not in ec_nids(O) and r["nid"] not in dn_ and not any(
                x.key == "meth:%s:unimplemented" % O.name(r["nid"]) for x in rep):
            n_obl += 1
            bad("meth:%s:digest" % O.name(r["nid"]), w, "MAC key type %s has no digest of the same identifier" % O.name(r["nid"]))
    # identifier arrays are as large as the lists they are filled from
    for F, lst in ((Fc, len(cl)), (Fd, len(dl))):
        for n in globals_of(F):
            m = re.match(r"int\s*\[(\d+)\]", dt_of(P, n, F.mod.tu))
            if m:
                n_obl += 1
                if int(m.group(1)) != lst:
                    bad("nids:" + n, ctab.where(P, n, F.mod.tu), "%s identifiers for %d algorithms" % (m.group(1), lst))
    for F in fnargs(P, "ENGINE_set_pkey_meths", 1):
        for n in globals_of(F):
            m = re.match(r"int\s*\[(\d+)\]", dt_of(P, n, F.mod.tu))
            if m:
                n_obl += 1
                if int(m.group(1)) != len(body):
                    bad("nids:" + n, ctab.where(P, n, F.mod.tu), "%s identifiers for %d key types" % (m.group(1), len(body)))
    # every loop over one of the lists covers all of it
    n_loops = 0
    want = {cn: len(cl), dn: len(dl)}
    for m in P.mods:
        for F in m.fns.values():
            for lo, hi, n, I in list_loops(F, set(want)):
                n_loops += 1
                if (lo, hi) != (0, want[n]):
                    bad("loop:%s:%s" % (F.name, n), I.where(), "visits entries %s..%s of %d of %s" % (lo, hi - 1 if hi is not None else "?", want[n], n))
    R.floor("loops over the lists", n_loops, 4)
    # unloading undoes binding
    D = fnargs(P, "ENGINE_set_destroy_function", 1)
    if not D:
        bad("destroy", "engine binding", "no destroy handler is installed")
    for F in D:
        names = {I.callee for b in F.order for I in F.blocks[b] if I.op == "call"}
        for need, why in (("GOST_deinit_digest", "digests"), ("GOST_deinit_cipher", "ciphers"),
                          ("gost_param_free", "control parameters"), ("free_cached_groups", "cached curve groups"),
                          ("ERR_unload_GOST_strings", "error strings")):
            n_obl += 1
            if need not in names and not reaches(P, F, need):
                bad("destroy:" + need, "%s in %s" % (F.name, F.mod.tu), "unloading the engine does not release the " + why)
    n_obl += sum(1 for _ in jobs)
    R.coverage["obligations"] = n_obl
    R.coverage["explanation"] = ("every entry of the engine's lists of ciphers, digests and key types was resolved with its "
                                 "template from the compiled initialisers and checked for completeness, uniqueness and "
                                 "consistent sizes; the functions that fill the key methods were analysed with constant "
                                 "propagation once per identifier; loops over the lists were compared with their lengths")
    R.assumptions = ["OpenSSL's obj_mac.h and evp.h describe the OpenSSL the engine is used with"]
    return R

def ec_nids(O):
    return {n for n, s in O.sn.items() if s in ("gost2001", "id-GostR3410-2001DH", "gost2012_256", "gost2012_512")}

def fnargs1(P, name):
    if name not in P.fn:
        raise AnalysisError("%s vanished" % name)
    return P.fn[name]

def reaches(P, F, target, depth=6):
    seen, w = set(), [(F, 0)]
    while w:
        f, d = w.pop()
        if f.name in seen or d > depth:
            continue
        seen.add(f.name)
        for b in f.order:
            for I in f.blocks[b]:
                if I.op == "call" and I.callee:
                    if I.callee == target:
                        return True
                    if I.callee in P.fn:
                        w.append((P.fn[I.callee], d + 1))
    return False

def field_sources(F):
    """operand -> set of offsets of the fields (of any object) the value was loaded from"""
    memo = {}
    def src(o, depth=0):
        if o[0] != "v" or depth > 30:
            return frozenset()
        i = o[1]
        if i in memo:
            return memo[i]
        memo[i] = frozenset()
        I = F.ins.get(i)
        r = set()
        if I is not None:
            if I.op == "load":
                a = I.args[0]
                if a[0] == "v" and a[1] in F.ins and F.ins[a[1]].op == "getelementptr":
                    r.add(F.ins[a[1]].j.get("o", 0))
                else:
                    r.add(0)
            elif I.op == "phi":
                for v in I.j["in"].values():
                    r |= src(v, depth + 1)
            elif I.op in ("select",):
                for v in I.args[1:]:
                    r |= src(v, depth + 1)
            else:
                for v in I.args:
                    r |= src(v, depth + 1)
        memo[i] = frozenset(r)
        return memo[i]
    return src

def list_loops(F, names):
    """(first, end, list, instruction) for every counted loop that indexes one of the named arrays"""
    for h, body in F.loops.items():
        for b in body:
            for I in F.blocks[b]:
                if I.op != "getelementptr":
                    continue
                base = I.j["b"]
                if not (base[0] == "p" and base[1][0] == "g" and base[1][1] in names) or len(I.j["vo"]) != 1:
                    continue
                v, s = I.j["vo"][0]
                sh = 0
                while v[0] == "v" and v[1] in F.ins and F.ins[v[1]].op in ("sext", "zext", "trunc"):
                    v = F.ins[v[1]].args[0]
                if v[0] != "v" or v[1] not in F.ins or F.ins[v[1]].op != "phi":
                    continue
                ph = F.ins[v[1]]
                if not any(ph in F.blocks[x] for x in F.loops if b in F.loops[x]):
                    continue
                lo, hi, up = None, None, True
                step = None
                for p, o in ph.j["in"].items():
                    if o[0] == "i":
                        lo = o[1]
                    elif o[0] == "v" and o[1] in F.ins:
                        A = F.ins[o[1]]
                        if A.op in ("add",) and ("v", ph.id) in A.args:
                            step = [x[1] for x in A.args if x[0] == "i"]
                            step = step[0] if step else None
                if step not in (1, -1):
                    continue
                # bound: a comparison of the counter (or counter + 1) with a constant
                for bb in body:
                    for C in F.blocks[bb]:
                        if C.op != "icmp":
                            continue
                        x, y = C.args
                        def root(o):
                            while o[0] == "v" and o[1] in F.ins and F.ins[o[1]].op in ("sext", "zext", "trunc"):
                                o = F.ins[o[1]].args[0]
                            return o
                        x = root(x)
                        d = 0
                        if x[0] == "v" and x[1] in F.ins and F.ins[x[1]].op == "add" and ("v", ph.id) in F.ins[x[1]].args:
                            d = 1
                            x = ("v", ph.id)
                        if x == ("v", ph.id) and y[0] == "i":
                            p = C.j["p"]
                            k = y[1]
                            if step == 1:
                                hi = {"slt": k, "ult": k, "ne": k, "sle": k + 1, "ule": k + 1, "eq": k,
                                      "sge": k, "uge": k, "sgt": k + 1, "ugt": k + 1}[p]
                            else:
                                hi = (lo or 0) + 1
                                lo = {"sge": k, "sgt": k + 1, "ne": k + 1, "slt": k}.get(p, 0)
                if hi is not None:
                    yield lo, hi, base[1][1], I

# ---------------------------------------------------------------- C21
def c21(tier):
    P = program()
    R = Result()
    sites, codes = 0, {}
    for F, I in calls_to(P, "ERR_GOST_error"):
        sites += 1
        vals = consts(F, I.args[1])
        if not vals:
            R.reports.append(Report("reason", "site:%s" % I.fn, I.where(), "a reason code that is not a constant"))
        for v in vals or ():
            codes.setdefault(v, []).append(I)
    tab = None
    for m, n, g in ctab.of_type(P, "ERR_STRING_DATA"):
        if m.tu == "e_gost_err.c" and "init" in g:
            v = elements(value(g["init"]))
            if tab is None or len(v) > len(tab[1]):
                tab = (n, v, m)
    if tab is None:
        raise AnalysisError("no table of error descriptions")
    n, rows, m = tab
    w = "%s %s" % (m.tu, n)
    desc = {}
    end = None
    for k, r in enumerate(rows):
        code = (r or {}).get(0) if isinstance(r, dict) else 0
        s = (r or {}).get(8) if isinstance(r, dict) else None
        if not code and s is None:
            end = k
            break
        c = code & 0x7fffff
        t = string(P, s, m.tu)
        if s is None or not t:
            R.reports.append(Report("reason", "desc:%d" % c, w, "code %d has an empty description" % c))
        if c in desc:
            R.reports.append(Report("reason", "dup:%d" % c, w, "code %d has two descriptions" % c))
        desc[c] = t
    if end is None:
        R.reports.append(Report("reason", "term", w, "the table of error descriptions is not terminated"))
    elif end != len(rows) - 1:
        R.reports.append(Report("reason", "hole", w, "the table of error descriptions ends after %d of %d entries" % (end, len(rows) - 1)))
    common = 0
    for c, Is in sorted(codes.items()):
        if c >> 18 & 0x1f:
            common += 1            # ERR_R_* of OpenSSL itself, described there
            continue
        if c not in desc:
            R.reports.append(Report("reason", "undescribed:%d" % c, Is[0].where(), "reason %d is raised but not described" % c))
    R.coverage["common_codes"] = common
    # the declared codes are distinct
    hd = {}
    with open(front.REPO + "/e_gost_err.h") as f:
        for a, b in re.findall(r"define\s+(GOST_R_\w+)\s+(\d+)", f.read()):
            if int(b) in hd:
                R.reports.append(Report("reason", "same:%s" % b, "e_gost_err.h", "%s and %s are the same code" % (a, hd[int(b)])))
            hd[int(b)] = a
    # the table is loaded and unloaded
    lo = [I for F, I in calls_to(P, "ERR_load_strings") if ("p", ("g", n), 0) in I.args]
    un = [I for F, I in calls_to(P, "ERR_unload_strings") if ("p", ("g", n), 0) in I.args]
    if not lo:
        R.reports.append(Report("reason", "load", w, "the table is never loaded"))
    if not un:
        R.reports.append(Report("reason", "unload", w, "the table is never unloaded"))
    R.floor("raising sites", sites, 300)
    R.floor("codes raised", len(codes), 30)
    R.floor("codes described", len(desc), 30)
    R.coverage["explanation"] = "the constant reason argument of every raising site was looked up in the compiled description table"
    return R

def consts(F, o, depth=0):
    if o[0] == "i":
        return {o[1]}
    if o[0] != "v" or depth > 8 or o[1] not in F.ins:
        return None
    I = F.ins[o[1]]
    L = None
    if I.op == "phi":
        L = list(I.j["in"].values())
    elif I.op == "select":
        L = list(I.args[1:])
    elif I.op in ("sext", "zext", "trunc", "freeze"):
        L = list(I.args)
    if L is None:
        return None
    out = set()
    for v in L:
        if v[0] == "u":
            continue
        s = consts(F, v, depth + 1)
        if s is None:
            return None
        out |= s
    return out

# ---------------------------------------------------------------- provider
def slots():
    """slot number -> (name, return type, argument types) from core_dispatch.h"""
    with open("/usr/include/openssl/core_dispatch.h") as f:
        t = f.read()
    t = re.sub(r"/\*.*?\*/", "", t, flags=re.S).replace("\\\n", " ")
    num = {}
    for k, v in re.findall(r"#\s*define\s+(OSSL_FUNC_\w+)\s+(\d+)\s*$", t, re.M):
        num.setdefault(k.lower(), []).append((k, int(v)))
    out = {}
    for m in re.finditer(r"OSSL_CORE_MAKE_FUNC\(", t):
        i, d = m.end(), 1
        j = i
        while d:
            d += {"(": 1, ")": -1}.get(t[j], 0)
            j += 1
        body = " ".join(t[i:j - 1].split())
        p = body.split(",", 2)
        if len(p) < 3 or "(" not in p[2]:
            continue
        ret, name, args = p[0].strip(), p[1].strip(), p[2].strip()
        args = args[1:args.rindex(")")]
        L, d, cur = [], 0, ""
        for c in args:
            d += {"(": 1, ")": -1}.get(c, 0)
            if c == "," and d == 0:
                L.append(cur.strip()); cur = ""
            else:
                cur += c
        L.append(cur.strip())
        if L == ["void"] or L == [""]:
            L = []
        for k, v in num.get("ossl_func_" + name.lower(), []):
            out[name.lower()] = (v, k, llt(ret), [llt(a) for a in L], L)
    return out

def llt(c):
    c = c.strip()
    if "*" in c or "[" in c or "(" in c or "va_list" in c or "CALLBACK" in c.upper() and "*" in c:
        return "ptr"
    w = [x for x in c.split() if x not in ("const", "unsigned", "signed", "struct")]
    if not w:
        return "i32"
    if w[0] in ("size_t", "uint64_t", "int64_t", "long"):
        return "i64"
    if w[0] == "void":
        return "void"
    if w[0] in ("int", "uint32_t", "unsigned"):
        return "i32"
    if w[0] in ("uint8_t", "char"):
        return "i8"
    return "i32"

def pointee(c):
    """kind of object a pointer argument refers to, None if it is opaque or not a pointer"""
    c = re.sub(r"\bconst\b|\bstruct\b", " ", c)
    if c.count("*") + c.count("[") != 1:
        return None
    w = re.sub(r"[\[\]*]", " ", c).split()
    if "size_t" in w or w[:2] == ["unsigned", "long"] or "ulong" in w:
        return "size"
    if "char" in w or "uchar" in w or "uint8_t" in w:
        return "bytes"
    if "OSSL_PARAM" in w or "ossl_param_st" in w:
        return "params"
    if w and w[0] == "int":
        return "int"
    return None

OPS = {"digest": 1, "cipher": 2, "mac": 3}
NEED = {"digest": ["newctx", "init", "update", "final", "freectx", "dupctx", "get_params"],
        "cipher": ["newctx", "encrypt_init", "decrypt_init", "update", "final", "freectx", "dupctx", "get_params",
                   "get_ctx_params", "set_ctx_params"],
        "mac": ["newctx", "init", "update", "final", "freectx", "dupctx", "get_params", "get_ctx_params", "set_ctx_params"]}

def provider(P):
    """(base dispatch table, {operation: algorithm table}, query function, module)"""
    base = None
    for F in P.roots():
        if F.name in ("OSSL_provider_init", "GOST_provider_init"):
            for n in globals_of(F):
                if re.match(r"OSSL_DISPATCH\s*\[", dt_of(P, n, F.mod.tu)):
                    base = (n, F.mod)
    if not base:
        raise AnalysisError("the provider's dispatch table was not found")
    rows = rows_of(P, base[0], base[1].tu)
    q = [r[8] for r in rows if r.get(0) == 1027]
    if not q or not isinstance(q[0], FnRef) or q[0].n not in P.fn:
        raise AnalysisError("the provider has no query function")
    F = base[1].fns.get(q[0].n) or P.fn[q[0].n]
    ops = {}
    for op, k in OPS.items():
        S = SCCP(P, F, {1: k})
        rs = list(S.returns())
        ops[op] = rs[0] if len(rs) == 1 and isinstance(rs[0], G) else None
    return base, ops, F

def rows_of(P, n, tu):
    return [r if isinstance(r, dict) else {} for r in elements(init(P, n, tu))]

def c29(tier):
    P = program()
    R = Result()
    SL = slots()
    base, ops, Q = provider(P)
    ntab = nent = 0
    def bad(key, w, msg):
        R.reports.append(Report("dispatch", key, w, msg))
    def dispatch(n, tu, op):
        nonlocal ntab, nent
        ntab += 1
        w = ctab.where(P, n, tu)
        rows = rows_of(P, n, tu)
        end = None
        seen = {}
        byid = {v[0]: (k, v) for k, v in SL.items() if op is None or k.startswith(op + "_")}
        if op is None:
            byid = {v[0]: (k, v) for k, v in SL.items() if k.startswith("provider_")}
        for k, r in enumerate(rows):
            if not r.get(0):
                end = k
                break
            nent += 1
            i, f = r[0], r.get(8)
            nm = byid.get(i, ("slot %d" % i, None))[0]
            if i in seen:
                bad("%s:dup:%s" % (n, nm), w, "%s appears twice" % nm)
            seen[i] = f
            if not isinstance(f, FnRef):
                bad("%s:null:%s" % (n, nm), w, "%s has no function" % nm)
                continue
            if i not in byid:
                bad("%s:slot:%d" % (n, i), w, "slot %d does not belong to this operation" % i)
                continue
            F = next((m.fns[f.n] for m in P.mods if m.tu == tu and f.n in m.fns), None) or P.fn.get(f.n)
            if F is None:
                continue
            num, nme, ret, at, _ = byid[i][1]
            have = [t for _, _, t in F.args]
            if have != at:
                bad("%s:sig:%s" % (n, nm), "%s in %s" % (F.name, F.mod.tu),
                    "%s takes (%s) but its slot %s is called with (%s)" % (F.name, ", ".join(have), nm, ", ".join(at)))
            for k, (ct, dt) in enumerate(zip(byid[i][1][4], F.argt)):
                x, y = pointee(ct), pointee(dt)
                if x and y and x != y:
                    bad("%s:arg:%s:%d" % (n, nm, k), "%s in %s" % (F.name, F.mod.tu),
                        "argument %d of %s is %s but its slot %s passes %s" % (k + 1, F.name, dt, nm, ct))
            if F.rett and llt(F.rett) != ret:
                bad("%s:ret:%s" % (n, nm), "%s in %s" % (F.name, F.mod.tu),
                    "%s returns %s but its slot %s returns %s" % (F.name, F.rett, nm, ret))
        if end is None:
            bad("%s:term" % n, w, "the dispatch table is not terminated")
        elif end != len(rows) - 1:
            bad("%s:early" % n, w, "the dispatch table ends after %d of %d entries" % (end, len(rows) - 1))
        have = {byid[i][0].split("_", 1)[1] for i in seen if i in byid}
        for need in (NEED[op] if op else ["query_operation", "teardown", "get_params", "get_reason_strings"]):
            if need not in have:
                bad("%s:need:%s" % (n, need), w, "no %s function" % need)
        return seen
    dispatch(base[0], base[1].tu, None)
    seen_tab = {}
    for op, t in ops.items():
        if t is None:
            bad("op:" + op, "%s in %s" % (Q.name, Q.mod.tu), "no algorithm table is returned for the %s operation" % op)
            continue
        m, g = ctab.find(P, t.n, Q.mod.tu)
        rows = rows_of(P, t.n, Q.mod.tu)
        w = ctab.where(P, t.n, Q.mod.tu)
        if not rows or rows[-1].get(0) is not None:
            bad("%s:term" % t.n, w, "the algorithm table is not terminated")
        for r in rows[:-1]:
            if r.get(0) is None:
                bad("%s:early" % t.n, w, "the algorithm table ends early")
                continue
            d = r.get(16)
            if not isinstance(d, G):
                bad("%s:null" % t.n, w, "an algorithm without dispatch table")
                continue
            if d.n not in seen_tab:
                seen_tab[d.n] = dispatch(d.n, m.tu, op)
    # functions of one family share the context type: constructor and handlers come from the same file
    np = 0
    for m, n, g in ctab.of_type(P, "OSSL_PARAM"):
        if "init" not in g or "[" not in (g.get("dt") or "") or not m.tu.startswith("gost_prov"):
            continue
        np += 1
        rows = elements(value(g["init"]))
        keys = [(r.get(0) if isinstance(r, dict) else None) for r in rows]
        if keys[-1] is not None:
            bad("%s:term" % n, ctab.where(P, n, m.tu), "the parameter list is not terminated")
        if any(k is None for k in keys[:-1]):
            bad("%s:early" % n, ctab.where(P, n, m.tu), "the parameter list ends early")
    R.floor("dispatch tables", ntab, 20)
    R.floor("dispatch entries", nent, 150)
    R.floor("parameter lists", np, 2)
    R.coverage["explanation"] = ("every dispatch table reachable from the provider's query function was checked for "
                                 "termination, duplicates, the functions its operation needs, and each function's "
                                 "compiled signature against the slot's prototype in core_dispatch.h")
    R.assumptions = ["pointers to different types are passed alike", "core_dispatch.h of the installed OpenSSL"]
    return R

# ---------------------------------------------------------------- C27
def prov_algs(P):
    """operation -> [(names, descriptor global, dispatch table, where)]"""
    base, ops, Q = provider(P)
    out = {}
    for op, t in ops.items():
        out[op] = []
        if t is None:
            continue
        m, g = ctab.find(P, t.n, Q.mod.tu)
        for r in rows_of(P, t.n, Q.mod.tu)[:-1]:
            s = string(P, r.get(0), m.tu)
            d = r.get(16)
            if s is None or not isinstance(d, G):
                continue
            out[op].append((s.split(":"), d.n, m, ctab.where(P, d.n, m.tu)))
    return out

def c27(tier):
    P = program()
    R = Result()
    O = ctab.objects()
    jobs = nid_jobs(P)
    def bad(key, w, msg):
        R.reports.append(Report("agreement", key, w, msg))
    cl, _, _ = descriptors(P, "ENGINE_set_ciphers", "GOST_cipher")
    dl, _, _ = descriptors(P, "ENGINE_set_digests", "GOST_digest")
    algs = prov_algs(P)
    offered = {}
    names = {}
    n_names = 0
    newctx_slot = {"digest": 1, "cipher": 1, "mac": 1}
    SL = slots()
    for op, L in algs.items():
        st = "GOST_cipher" if op == "cipher" else "GOST_digest"
        for nms, dn, m, w in L:
            fs = {}
            for r in rows_of(P, dn, m.tu):
                if r.get(0) and isinstance(r.get(8), FnRef):
                    fs[r[0]] = r[8].n
            desc = {}
            for slot in ("newctx", "get_params", "gettable_params"):
                k = SL.get("%s_%s" % (op, slot))
                f = m.fns.get(fs.get(k[0])) if k else None
                if f is None:
                    continue
                ds = set()
                for gn in globals_of(f):
                    dt = dt_of(P, gn, m.tu)
                    if dt == st or (ctab.find(P, gn, m.tu)[1] is None and gn in m.globals):
                        ds.add(gn)
                    elif dt == "GOST_DESC":
                        v = init(P, gn, m.tu)
                        for x in v.values():
                            if isinstance(x, G):
                                ds.add(x.n)
                ds = {x for x in ds if x in P_desc(P, st)}
                desc[slot] = ds
            all_ = set().union(*desc.values()) if desc else set()
            if len(all_) != 1:
                bad("%s:%s:desc" % (op, nms[0]), w, "the functions of %s use %s" % (nms[0], ", ".join(sorted(all_)) or "no descriptor"))
                continue
            d = all_.pop()
            offered.setdefault(op, {}).setdefault(d, []).append(nms[0])
            r = resolved(P, d, "gost_cipher_st" if op == "cipher" else "gost_digest_st")
            nid = r["nid"]
            known = 0
            for s in nms:
                n_names += 1
                key = s.lower()
                if names.get((op, key), d) != d:
                    bad("%s:%s:dup" % (op, s), w, "the name %s is offered twice" % s)
                names[(op, key)] = d
                if d in jobs:
                    if any(s == sn for _, sn, ln, _ in jobs[d]):
                        known += 1
                    elif O.by.get(key):
                        bad("%s:%s:name" % (op, s), w, "%s names another algorithm" % s)
                    continue
                ids = O.by.get(key, set())
                if nid in ids:
                    known += 1
                elif ids:
                    bad("%s:%s:name" % (op, s), w, "the name %s belongs to %s but leads to the implementation of %s"
                        % (s, "/".join(O.name(i) for i in sorted(ids)), O.name(nid)))
                elif re.match(r"^\d+(\.\d+)+$", s) and nid in O.oid:
                    bad("%s:%s:oid" % (op, s), w, "the identifier %s is not that of %s" % (s, O.name(nid)))
            if not known:
                bad("%s:%s:known" % (op, nms[0]), w, "none of the names %s belongs to %s" % (":".join(nms), O.name(nid)))
            if op == "mac":
                # announced MAC size
                pass
    exempt = set()
    for n in cl:
        r = resolved(P, n, "gost_cipher_st")
        if "kexp15" in O.name(r["nid"]):
            exempt.add(n)
            continue
        if n and n not in offered.get("cipher", {}):
            bad("engine:cipher:%s" % n, ctab.where(P, n), "the engine's cipher %s is not offered by the provider" % O.name(r["nid"]))
    for n in dl:
        r = resolved(P, n, "gost_digest_st")
        mac = isinstance(r["ctrl"], FnRef) and O.name(r["nid"]).lower().find("mac") >= 0
        if n and n not in offered.get("mac" if mac else "digest", {}):
            bad("engine:digest:%s" % n, ctab.where(P, n), "the engine's %s %s is not offered by the provider" % ("MAC" if mac else "digest", O.name(r["nid"])))
    # MAC sizes agree with the engine
    for m, n, g in ctab.of_type(P, "GOST_DESC"):
        v = value(g["init"])
        dref = [x for x in v.values() if isinstance(x, G)]
        sz = [x for x in v.values() if isinstance(x, int)]
        if dref and sz:
            r = resolved(P, dref[0].n, "gost_digest_st")
            if not 1 <= sz[0] <= r["result_size"]:
                bad("macsize:" + n, ctab.where(P, n, m.tu), "MAC size %d, the implementation produces up to %d" % (sz[0], r["result_size"]))
    # teardown releases what was created
    lists = set()
    for m in P.mods:
        if m.tu.startswith("gost_prov"):
            for n, g in m.globals.items():
                if not g["decl"] and re.match(r"GOST_(cipher|digest)\s*\*\s*\[", dt_of(P, n, m.tu)):
                    lists |= {x.n for x in elements(value(g["init"])) if isinstance(x, G)}
    for op, D in offered.items():
        for d in D:
            if d not in lists:
                bad("deinit:%s" % d, ctab.where(P, d), "created by the provider, but not released when it is unloaded")
    for fn in ("GOST_prov_deinit_ciphers", "GOST_prov_deinit_digests", "GOST_prov_deinit_mac_digests"):
        base = provider(P)[0]
        t = [r[8] for r in rows_of(P, base[0], base[1].tu) if r.get(0) == 1024]
        if t and isinstance(t[0], FnRef) and t[0].n in P.fn and not reaches(P, P.fn[t[0].n], fn):
            bad("teardown:" + fn, t[0].n, "unloading the provider does not call " + fn)
    R.floor("provider ciphers", len(offered.get("cipher", {})), 15)
    R.floor("provider digests", len(offered.get("digest", {})), 3)
    R.floor("provider MACs", len(offered.get("mac", {})), 5)
    R.coverage["names"] = n_names
    R.coverage["exempt"] = sorted(exempt)
    R.coverage["explanation"] = ("every name of every provider algorithm was resolved with OpenSSL's object table and compared "
                                 "with the identifier of the descriptor its constructor uses; every engine algorithm was looked "
                                 "up among the provider's descriptors")
    R.assumptions = ["the key export algorithms (kexp15) are documented in the source as not yet offered by the provider"]
    return R

_pd = {}
def P_desc(P, st):
    if st not in _pd:
        _pd[st] = {n for m, n, g in ctab.of_type(P, st)}
    return _pd[st]
