#!/usr/bin/env python3
"""The list of properties.  Writes properties.jsonl and MANIFEST.json (run after editing)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}),
                               **({"observe_at": list(observe)} if observe else {}))))

prop("C01", "A signature is accepted only after every acceptance condition was met",
 "GOST signature verification reports success only if both halves of the signature are in the range 1..q-1 and the value recomputed from the digest, the public key and the curve is equal to the first half. Whatever else happens (values out of range, missing key or curve, allocation failure, failing arithmetic), the signature is not accepted.",
 ["inputs", "fault_sequences"], "all digests, signatures, keys and all failures of the arithmetic and allocation the verification relies on",
 "Tests verify a few honest signatures and one or two corrupted ones; none makes the big-number library fail and none tries r or s outside 1..q-1 on each curve.",
 ["gost_ec_sign.c", "gost_pmeth.c"],
 [("range checks of r and s, comparison of R with r", "gost_ec_sign.c gost_ec_verify"), ("signature unpacking", "gost_pmeth.c unpack_cp_signature, pkey_gost_ec_cp_verify")],
 observe=["EVP_PKEY_verify", "EVP_DigestVerify"])
prop("C02", "Signature nonces and private keys are fresh random values in 1..q-1",
 "Every signature that is produced uses a secret number drawn from the cryptographic random generator during that very call, uniform below the group order, and neither half of a produced signature is zero. Every generated private key is likewise drawn uniformly below the group order, is never zero, and key generation fails when the generator fails.",
 ["inputs", "histories", "fault_sequences"], "all calls of signing and key generation, including calls in which the random generator fails",
 "A repeated or biased nonce gives signatures that still verify; tests only look at whether the signature verifies.",
 ["gost_ec_sign.c", "gost_pmeth.c"], [("nonce loop", "gost_ec_sign.c gost_ec_sign"), ("private key loop", "gost_ec_sign.c gost_ec_keygen")])
prop("C03", "A failed step is never reported as success",
 "When a memory allocation, an OpenSSL call or an internal step that an operation depends on fails, the operation itself reports failure to its caller in its own convention. No failing step is silently ignored and followed by a success result.",
 ["inputs", "fault_sequences"], "every entry point of the engine and provider, every failing call on every path",
 "Allocation and library failures do not occur in the test runs; each of the several hundred failing calls would need its own injected fault.",
 ["gost_ec_sign.c", "gost_ec_keyx.c", "gost_ameth.c", "gost_pmeth.c", "gost_crypt.c", "gost_keyexpimp.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_grasshopper_cipher.c", "gost_prov_cipher.c", "gost_prov_mac.c"],
 [("return-code checks at every call site", "all library sources")])
prop("C04", "Unwrapped keys are released only after they were authenticated",
 "Key unwrapping and key import write the recovered key to the caller's buffer only after the integrity code of the container was compared with the recomputed one, in constant time and over its whole length, and found equal. On a mismatch the caller gets an error and no key material.",
 ["inputs"], "all wrapped-key containers, including truncated and forged ones",
 "Tests unwrap a handful of genuine containers and check at most one forgery; they do not look at the output buffer after a failure.",
 ["gost_keywrap.c", "gost_keyexpimp.c"], [("MAC comparison", "gost_keywrap.c keyUnwrapCryptoPro"), ("IMIT comparison", "gost_keyexpimp.c gost_kimp15")])
prop("C05", "Untrusted byte strings are read only after their length was checked",
 "Whenever a decoded ASN.1 string coming from a key, certificate, CMS message or algorithm parameter is used as a value of a fixed size (a key, a MAC, an initialisation vector, a UKM, an encoded private key), its actual length was checked before that many bytes are read.",
 ["inputs"], "all encodings of keys, key transport messages and algorithm parameters",
 "Tests feed well-formed encodings whose strings have exactly the expected lengths.",
 ["gost_ameth.c", "gost_ec_keyx.c", "gost_keywrap.c", "gost_crypt.c", "gost_gost2015.c"],
 [("length checks before reading", "gost_ec_keyx.c pkey_GOST_ECcp_decrypt, gost_ameth.c priv_decode_gost, gost_crypt.c gost89_get_asn1_parameters")])
prop("C06", "Output never exceeds the capacity the caller announced",
 "An operation with an output buffer and an announced capacity (signing, key derivation, key transport, MAC finalisation through the key-method interface) writes to the buffer only if the capacity suffices, and otherwise fails without writing. Asking for the size with a null buffer writes nothing to it.",
 ["inputs"], "all capacities and all key sizes",
 "Tests always pass buffers that are large enough.",
 ["gost_pmeth.c", "gost_ec_keyx.c"], [("size checks", "gost_pmeth.c pkey_gost_ec_cp_sign, pkey_gost_mac_signctx; gost_ec_keyx.c pkey_gost_ec_derive")])
prop("C07", "Every acquired object is released exactly once",
 "On every path through every operation, including all failure paths, each object acquired from an allocator is released exactly once with the matching release function, handed over to an owner, or returned. No object is used or left reachable for the caller after it was released.",
 ["inputs", "fault_sequences"], "all paths of all functions, under every combination of failing calls",
 "Leaks and double releases sit on failure paths that the tests never take.",
 ["gost_ec_sign.c", "gost_ec_keyx.c", "gost_ameth.c", "gost_pmeth.c", "gost_crypt.c", "gost_eng.c", "gost_ctl.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_prov.c", "gost_prov_cipher.c", "gost_prov_digest.c", "gost_prov_mac.c"],
 [("cleanup labels", "every function with an err: label")])
prop("C08", "Secret temporaries are wiped on every way out",
 "Local and heap copies of secret material (derived and unwrapped keys, key-encryption keys, shared secrets, signature nonces, key schedules of temporary ciphers) are overwritten before the operation returns or the memory is released, on success and on failure alike.",
 ["inputs", "fault_sequences"], "all paths of the functions that handle secrets",
 "Left-over memory contents are invisible to functional tests.",
 ["gost_ec_keyx.c", "gost_keywrap.c", "gost_keyexpimp.c", "gost_ameth.c", "gost_pmeth.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_omac_acpkm.c", "gost_ec_sign.c"],
 [("OPENSSL_cleanse, BN_clear_free, gost_destroy before return", "all secret-handling functions")])
prop("C09", "No input can abort or terminate the host process",
 "No entry point of the engine or the provider terminates the calling process: malformed data, missing keys, wrong lengths and failed allocations are reported as errors. Self-checks that do terminate the process may depend only on the compiled-in algorithm tables.",
 ["inputs", "histories"], "all calls with all arguments", "Tests use well-formed data; an assertion that data can trigger passes until somebody sends that data.",
 ["gost_ec_sign.c", "gost_ec_keyx.c", "gost_pmeth.c", "gost_crypt.c", "gost_keyexpimp.c"], [("error returns instead of assertions", "all library sources"), ("template consistency assertions", "gost_crypt.c GOST_init_cipher")])
prop("C10", "Absent objects are never dereferenced",
 "Whatever is missing - an allocation that failed, a key without public or private half, a key without parameters, an optional field of a decoded structure, an unset algorithm parameter, an unknown identifier - operations detect the absence and fail instead of accessing memory through a null pointer.",
 ["inputs", "fault_sequences"], "all keys, encodings and failing allocations",
 "Tests supply complete keys and structures, and allocations never fail in them.",
 ["gost_ameth.c", "gost_pmeth.c", "gost_ec_keyx.c", "gost_ec_sign.c", "gost_crypt.c", "gost_gost2015.c", "gost_omac_acpkm.c"],
 [("null checks", "all library sources")])
prop("C11", "Re-initialising a context starts a fresh message",
 "Initialising a cipher, digest or MAC context that was already used, with a new key or initialisation vector, discards every trace of the previous message: buffered bytes, byte and block counters, partial keystream and meshing counters all restart, so that the result equals that of a new context.",
 ["histories"], "all sequences of init, update, ctrl and final calls on one context",
 "Tests create a new context for nearly every message.",
 ["gost_crypt.c", "gost_md.c", "gost_md2012.c", "gosthash.c", "gosthash2012.c", "gost_grasshopper_cipher.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_gost2015.c"],
 [("initialisation of per-message state", "gost_crypt.c *_init, gost_grasshopper_cipher.c *_init, gost_md*.c digest init")])
prop("C12", "Copied contexts are independent of their source",
 "After a cipher, digest, MAC or key-method context is copied, the copy shares no mutable memory with the original: using, resetting or freeing either one has no effect on the other. If the copy cannot be completed, copying fails.",
 ["histories", "fault_sequences"], "all interleavings of operations on the original and the copy",
 "A shared pointer shows only if both contexts are used after the copy, in a particular order.",
 ["gost_pmeth.c", "gost_crypt.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_grasshopper_cipher.c", "gost_prov_cipher.c", "gost_prov_digest.c", "gost_prov_mac.c"],
 [("copy callbacks", "gost_pmeth.c pkey_gost_copy*, gost_crypt.c *_ctl EVP_CTRL_COPY, gost_prov_*.c *_dupctx")])
prop("C13", "Every implemented algorithm is registered once, completely and consistently",
 "Every cipher, digest, key method and ASN.1 method that the engine advertises can be fetched and is fully described: it has its handlers, its identifier is advertised, key and parameter handlers exist for the same key types, and what binding the engine creates, unloading it removes.",
 ["configurations", "inputs"], "all algorithms and identifiers of the engine", "Tests fetch the algorithms they know; a missing registration of another one goes unnoticed.",
 ["gost_eng.c", "gost_ameth.c", "gost_pmeth.c", "gost_crypt.c", "gost_md.c", "gost_grasshopper_cipher.c"],
 [("info tables", "gost_eng.c"), ("method registration", "gost_ameth.c register_ameth_gost, gost_pmeth.c register_pmeth_gost")])
prop("C14", "Every built-in parameter set is a valid elliptic-curve group",
 "For every parameter set the engine offers, the field characteristic and the subgroup order are prime and of the announced size, the curve is non-singular, the base point lies on it and has exactly that order, the cofactor is consistent with Hasse's bound, and the group is neither anomalous nor of small embedding degree. Parameter sets that are aliases of each other describe the same group.",
 ["inputs", "configurations"], "all built-in parameter sets", "Tests exercise the curves end to end with keys generated on them, so a wrong but self-consistent constant passes.",
 ["gost_params.c", "gost_ec_sign.c"], [("parameter tables", "gost_params.c R3410_2012_256_paramset, R3410_2012_512_paramset, R3410_2001_paramset")])
prop("C15", "Precomputed point tables contain exactly the multiples they stand for",
 "Every entry of every precomputed table used for fixed-base multiplication is the multiple of the curve's base point that its position stands for, on every curve that has a dedicated implementation and for every word size it can be built for. The curve constants of these implementations are those of the parameter set they serve.",
 ["inputs", "configurations"], "all table entries of all curves, for both word sizes", "A wrong entry matters only for scalars that select it: with probability of a few per cent or less per random test, and never on the word size that is not built.",
 ["ecp_id_tc26_gost_3410_2012_256_paramSetA.c", "ecp_id_tc26_gost_3410_2012_512_paramSetA.c", "ecp_id_tc26_gost_3410_2012_512_paramSetB.c", "ecp_id_tc26_gost_3410_2012_512_paramSetC.c", "ecp_id_GostR3410_2001_CryptoPro_A_ParamSet.c", "ecp_id_GostR3410_2001_CryptoPro_B_ParamSet.c", "ecp_id_GostR3410_2001_CryptoPro_C_ParamSet.c", "ecp_id_GostR3410_2001_TestParamSet.c"],
 [("lut_cmb tables", "ecp_*.c")])
prop("C16", "Multiplication by a secret scalar does not branch or index on the secret",
 "In the dedicated curve implementations, multiplication by a secret scalar (signing, key generation, key agreement) has a control flow and a memory access pattern that do not depend on the scalar. Comparisons of authentication codes do not stop at the first difference.",
 ["inputs"], "all scalars and all points", "Timing is not observed by tests, and a data-dependent branch computes the right result.",
 ["ecp_id_tc26_gost_3410_2012_256_paramSetA.c", "ecp_id_tc26_gost_3410_2012_512_paramSetA.c", "ecp_id_tc26_gost_3410_2012_512_paramSetC.c", "gost_keywrap.c", "gost_keyexpimp.c", "gost_gost2015.c", "gost_ec_sign.c"],
 [("constant-time selection", "ecp_*.c fixed_smul_cmb, var_smul_rwnaf"), ("CRYPTO_memcmp", "tag comparisons")])
prop("C17", "Cipher and hash constant tables are internally consistent",
 "The constant tables of the block ciphers and hash functions are what the algorithms require: substitution tables are permutations and inverse tables are inverses of each other, precomputed linear and combined tables agree with the elementary tables they were derived from, field multiplication tables agree with the field, and round constants agree with the tables that define them.",
 ["inputs"], "all entries of all tables", "A wrong entry affects only blocks that select it; tests run a few blocks per algorithm and some tables only through one direction.",
 ["gost_grasshopper_precompiled.c", "gost_grasshopper_galois_precompiled.c", "gost_grasshopper_core.c", "gosthash2012_precalc.h", "gosthash2012_const.h", "gost89.c"],
 [("tables", "gost_grasshopper_precompiled.c, gosthash2012_precalc.h, gost89.c")])
prop("C18", "Authenticated decryption fails closed",
 "Finishing an authenticated decryption reports success only if the whole received tag was compared in constant time with the computed one and is equal; without a tag, or with a failed computation, it fails. The same holds for encrypt-then-MAC style modes that check their tag at the end.",
 ["inputs", "histories"], "all ciphertexts, tags and call sequences", "Tests decrypt genuine ciphertexts.",
 ["gost_gost2015.c", "gost_crypt.c", "gost_grasshopper_cipher.c"], [("tag check", "gost_gost2015.c gost_mgm128_finish, gost2015_final_call; *_do_mgm; *_do_cipher_ctr_acpkm_omac")])
prop("C19", "The checksum tools' exit status tells whether all files matched",
 "The checksum tools exit with status zero only if every file named was read completely and, in check mode, the checksum list was processed to its end, named at least one file, and every file named in it matched. Unreadable files and mismatches give a non-zero status.",
 ["inputs"], "all argument lists, checksum lists and file contents", "The tools' tests use one or two lists.",
 ["gostsum.c", "gost12sum.c"], [("exit status", "gostsum.c main, gost12sum.c main")])
prop("C20", "Each curve uses the arithmetic that belongs to it",
 "Point multiplication selects a dedicated implementation only for the parameter sets whose group it implements, and each of the three forms of multiplication (base point, arbitrary point, both) selects the same one for a given curve.",
 ["inputs", "configurations"], "all curve identifiers", "A dispatch entry that is wrong for an alias identifier shows only for keys with that alias and only in one of the three forms.",
 ["gost_ec_sign.c"], [("dispatch on the curve identifier", "gost_ec_sign.c gost_ec_point_mul")])
prop("C21", "Every error the library raises has a description of its own",
 "Every reason code that the library can raise is described in the error string table, each code has one description, and the table is terminated.",
 ["inputs"], "all reason codes raised anywhere in the library", "Tests look at error strings rarely and only for a few codes.",
 ["e_gost_err.c", "e_gost_err.h"], [("error string table", "e_gost_err.c GOST_str_reasons")])
prop("C22", "Concurrent operations share no mutable state",
 "Operations on different contexts do not write to memory they share: outside engine or provider loading and unloading, no operation on a context writes to a global variable.",
 ["schedules"], "all interleavings of operations on distinct contexts in different threads", "Tests are single-threaded.",
 ["gost_crypt.c", "gost_md.c", "gost_md2012.c", "gost_eng.c", "gost_ctl.c", "gost89.c", "gosthash2012.c", "gost_grasshopper_core.c"],
 [("constant tables", "all library sources"), ("lazily filled method tables", "gost_crypt.c GOST_init_cipher, gost_eng.c")])
prop("C23", "Inputs handed in for reading are not modified",
 "Operations never write through the pointers they receive for reading: keys, initialisation vectors, messages, wrapped keys and signatures are unchanged afterwards.",
 ["inputs"], "all operations with read-only arguments", "Tests do not compare inputs with their former contents.",
 ["gost89.c", "gost_keywrap.c", "gost_keyexpimp.c", "gost_crypt.c", "gost_gost2015.c", "gost_grasshopper_cipher.c", "gost_grasshopper_core.c", "gosthash.c", "gosthash2012.c"],
 [("const parameters", "all library sources")])
prop("C24", "No block is processed without the key meshing check",
 "In the modes with key meshing, every block that is encrypted or decrypted first passes the check whether the section length was reached, and every block processed advances the counter that this check uses.",
 ["inputs", "histories"], "all lengths and all splits of the data into calls", "Only inputs longer than a section and split in particular ways reach the paths on which a check could be missing.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_omac_acpkm.c"], [("section counter", "gost_crypt.c gost_crypt_mesh, gost_cnt_next, magma_cipher_do_ctr; gost_grasshopper_cipher.c apply_acpkm_grasshopper")])
prop("C25", "Uninitialised memory never influences or reaches any output",
 "No operation reads a local variable or a freshly allocated buffer before it was written, on any path, including paths after a failed or short sub-operation.",
 ["inputs", "fault_sequences"], "all paths of all functions", "Uninitialised reads on rare paths give plausible results.",
 ["gost_keyexpimp.c", "gost_keywrap.c", "gost_ec_keyx.c", "gost_ameth.c", "gost_crypt.c", "gost_gost2015.c"], [("initialisation before use", "all library sources")])
prop("C26", "Foreign public keys are validated before they are used",
 "A public key or ephemeral key that comes from outside is accepted only through operations that check that the point lies on the curve of the parameter set, and is combined with a private key only if both belong to the same parameter set.",
 ["inputs"], "all encoded public keys and key transport messages", "Tests use points on the curve.",
 ["gost_ameth.c", "gost_ec_keyx.c"], [("point decoding", "gost_ameth.c pub_decode_gost_ec"), ("parameter comparison", "gost_ec_keyx.c")])
prop("C27", "The provider and the engine offer the same algorithms",
 "Each digest, cipher and MAC the engine implements (except the key-export ciphers, which are documented as not yet offered) is offered by the provider under the same name with the same implementation, and each name in the provider's tables leads to the algorithm of that name.",
 ["configurations"], "all algorithm names", "Tests run the provider for some of the algorithms.",
 ["gost_prov_cipher.c", "gost_prov_digest.c", "gost_prov_mac.c", "gost_eng.c"], [("algorithm tables", "gost_prov_*.c GOST_prov_ciphers, GOST_prov_digests, GOST_prov_macs")])
prop("C28", "Copies of variable length stay within their buffers",
 "Whenever bytes of a caller-determined or data-determined number are copied or written into a buffer of fixed size (a local array or an array inside a context), the number is bounded by the size of that buffer on every path.",
 ["inputs", "histories"], "all lengths and call sequences", "Tests use the usual lengths; an excess of a few bytes often goes unnoticed.",
 ["gost_crypt.c", "gost_gost2015.c", "gost_keyexpimp.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_ec_keyx.c", "gost_pmeth.c", "gosthash.c", "gosthash2012.c", "gost_grasshopper_cipher.c"],
 [("length checks", "all memcpy/memset call sites with variable length")])
prop("C29", "Provider dispatch tables are well-formed",
 "Every dispatch table the provider hands to the core is terminated, has no duplicate entry, contains the functions its operation requires, and every function in it has the calling signature that its slot prescribes.",
 ["configurations"], "all dispatch and algorithm tables", "A table that is not terminated works as long as the following memory happens to be zero; slots that no test calls can have any signature.",
 ["gost_prov.c", "gost_prov_cipher.c", "gost_prov_digest.c", "gost_prov_mac.c"], [("OSSL_DISPATCH tables", "gost_prov*.c")])
prop("C30", "Every context is as large as its algorithm's handlers need",
 "For every cipher and digest, the context size that the algorithm announces covers every byte that any of its handlers accesses in the context.",
 ["inputs", "configurations"], "all algorithms and all their handlers", "An access slightly beyond the allocation is silent in ordinary runs.",
 ["gost_crypt.c", "gost_md.c", "gost_md2012.c", "gost_grasshopper_cipher.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_gost2015.c"],
 [("ctx_size / app_datasize", "gost_crypt.c, gost_grasshopper_cipher.c, gost_md*.c, gost_omac*.c algorithm templates")])
prop("N01", "Algorithms compute the values the GOST standards prescribe",
 "For every key, input and length, the ciphers, hashes, MACs, key derivations, signatures and key agreements yield the values the GOST R standards and RFCs define.",
 ["inputs"], "all inputs", "Tests compare with some published vectors.", ["gost89.c", "gosthash.c", "gosthash2012.c", "gost_grasshopper_core.c", "gost_ec_sign.c", "gost_keyexpimp.c"], [("implementations", "all kernels")])
prop("N02", "Results do not depend on how the data are split into calls",
 "Feeding data in one call or in any number of pieces of any lengths gives the same ciphertext, digest or MAC.",
 ["histories", "inputs"], "all splits of all inputs", "Tests try some splits.", ["gost_crypt.c", "gosthash.c", "gosthash2012.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_grasshopper_cipher.c"], [("partial-block buffering", "update functions")])
prop("N03", "What is encrypted, wrapped, exported or encoded can be recovered",
 "Decryption inverts encryption, unwrapping inverts wrapping, import inverts export, and decoding inverts encoding, for all keys and data.",
 ["inputs"], "all keys and data", "Tests do some round trips.", ["gost_crypt.c", "gost_keywrap.c", "gost_keyexpimp.c", "gost_ameth.c", "gost_ec_keyx.c"], [("pairs of operations", "all modes")])
prop("N04", "Both parties of a key agreement derive the same key",
 "For all pairs of keys on one curve and all UKM values, both sides derive the same shared key, and CMS and TLS peers that follow the specifications interoperate with the engine.",
 ["inputs", "programs"], "all key pairs and peers", "Tests run some pairs.", ["gost_ec_keyx.c", "gost_ameth.c"], [("VKO", "gost_ec_keyx.c")])
prop("N05", "The dedicated curve arithmetic is correct for all field elements",
 "For all scalars and points, the dedicated implementations give the same result as generic elliptic-curve arithmetic.",
 ["inputs"], "all scalars and points", "Tests use random scalars; carries that occur with probability 2^-64 are not reached.", ["ecp_id_tc26_gost_3410_2012_256_paramSetA.c", "ecp_id_tc26_gost_3410_2012_512_paramSetA.c", "ecp_id_tc26_gost_3410_2012_512_paramSetC.c"], [("field and group formulas", "ecp_*.c")])
NA = {
 "C28": "The bound of many variable-length writes is a relation between counters kept in contexts across calls and the runtime length; the interval analysis built here decides fixed offsets (C30, C05, C06) but not these relations.",
 "N01": "Functional equality with the standards quantifies over all keys and messages; no dataflow, typestate or table argument decides it (the constant tables are decided by C14, C15 and C17, the rest needs proof or testing).",
 "N02": "Equality of results over all splittings is a relational property of loop arithmetic over runtime lengths; static analysis can decide that state is reset (C11) and that buffers stay in bounds (C28), but not that the values agree.",
 "N03": "Inversion of one computation by another is a relational property over runtime values; the static family offers no sound decision procedure for it here.",
 "N04": "Agreement of two executions on a value and interoperability with foreign peers are relational and depend on programs outside the repository.",
 "N05": "Correctness of carry chains and group formulas for all field elements needs algebraic proof (a different family); the constants are decided by C14/C15 and the control flow by C16.",
}
CLAIM = {}   # id -> (technique, level, level_note)
exec(open(os.path.join(V, "tool", "claims.py")).read())
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in CLAIM:
            t, l, n = CLAIM[i]
            checks.append(dict(property=i, quick_cmd="python3 sa/check.py %s" % i, thorough_cmd="python3 sa/check.py %s" % i,
                               technique=t, level=l, level_note=n))
        else:
            na.append(dict(property=i, reason=NA.get(i, "The analysis for it is not built yet.")))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="bash tool/build.sh", checks=checks, not_applicable=na), f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(checks), "claimed")
main()
