IR = "static analysis of LLVM IR compiled from the current sources: "
CLAIM.update({
"C13": (IR + "table rules over the initialisers plus conditional constant propagation per algorithm identifier", "other",
        "All descriptor and method tables and all identifiers the registration callbacks can be asked for are enumerated; the handler sets are compared, not executed."),
"C14": (IR + "evaluation of the constant tables of parameter sets with exact integer arithmetic", "other",
        "Every row of the tables is decided completely (primality by 40 Miller-Rabin rounds)."),
"C15": (IR + "evaluation of constant tables of points, row spacing from linear forms of index expressions", "other",
        "Every table entry of every dedicated implementation and both word sizes is decided."),
"C17": (IR + "evaluation of constant tables against recomputed and published values", "other",
        "Every entry of every cipher and hash table is decided; elementary tables are compared with the published values kept in sa/standard.json."),
"C20": (IR + "conditional constant propagation of every curve identifier through the selecting function", "other",
        "Every identifier and every form of multiplication; whether the selected arithmetic itself is right is not part of this check."),
"C21": (IR + "constant propagation of the reason arguments of all error-raising call sites against the string tables", "other",
        "All call sites are enumerated."),
"C27": (IR + "table comparison of provider and engine algorithm tables with OpenSSL's object table as oracle", "other",
        "All names and descriptors; the key export ciphers documented as not yet offered are exempt."),
"C29": (IR + "table rules over OSSL_DISPATCH and OSSL_ALGORITHM initialisers, signatures compared with the slots' prototypes", "other",
        "All dispatch tables and entries."),
"C03": (IR + "path-sensitive typestate analysis of return conventions: every fallible call forks, a failure must not reach a success return", "other",
        "All functions whose result is a status, all fallible calls in them; conventions come from the roles the functions are registered for."),
"C07": (IR + "path-sensitive ownership analysis (abstract interpretation with per-object states)", "other",
        "All functions that acquire, release or hand over objects, every path and every failing call."),
"C10": (IR + "path-sensitive null-dereference analysis with summaries of what functions need and guarantee", "other",
        "All functions that handle possibly absent pointers; sources are getters, optional ASN.1 members and failing constructors."),
})
CLAIM.update({
"C01": (IR + "symbolic evaluation of signature verification over the integers modulo the group order along every path", "other",
        "Every path of the verification that accepts; range tests, the two multipliers and the final comparison are matched as polynomials, not as text."),
"C02": (IR + "symbolic evaluation of signature and key generation along every path, taint of the nonce", "other",
        "Every path that returns a signature or a private key."),
"C04": (IR + "path-sensitive typestate analysis: plaintext leaves only behind a successful comparison of the whole MAC", "other",
        "All key transport decryption callbacks and key wrap ciphers, all writes to the caller's buffer."),
"C05": (IR + "path-sensitive range and relational analysis of reads from decoded strings, interprocedural over (data, length) arguments", "other",
        "All functions that use contents of ASN.1 strings or receive bytes together with their length."),
"C18": (IR + "path-sensitive typestate analysis of the finishing call of authenticated ciphers", "other",
        "All ciphers flagged as authenticated, every path of the finishing call; functions whose success implies the comparison are derived, not listed."),
})
CLAIM.update({
"C09": (IR + "per-descriptor constant propagation of configuration members, reachability of process-terminating calls and feasibility of their conditions", "other",
        "All terminating calls reachable from the registered callbacks, evaluated for every algorithm descriptor and parameter set that reaches them."),
"C19": (IR + "path-sensitive typestate analysis of the checksum programs from main, all helpers inlined", "other",
        "Every path from main to the exit status, every failing library call and end-of-file, the options of both programs."),
})
CLAIM.update({
"C08": (IR + "interprocedural fixpoint of secret objects, then path-sensitive typestate analysis: overwritten before return or release", "other",
        "All functions holding keys, shared secrets, private numbers or decrypted keys, every path; primitives that take keys are listed, everything else is derived."),
})
CLAIM.update({
"C06": (IR + "path-sensitive range and relational analysis of every write through the output argument, with summaries of called functions", "other",
        "All operations that announce a capacity (key method and provider callbacks), every path, every write."),
})
CLAIM.update({
"C11": (IR + "path-sensitive must-write analysis of message state over the pairs (way to re-initialise, message handler)", "other",
        "All ciphers and digests, each way to initialise a used context again, every path of initialisation and of the handlers; "
        "two findings are known (OMAC state of the combined modes with a new IV only)."),
"C12": (IR + "access summaries give the members that refer to memory of the context; path-sensitive alias analysis of every copying function", "other",
        "All cipher, digest, key-method and provider contexts; kinds copied byte by byte must have no such member."),
"C22": (IR + "effect analysis: interprocedural summaries of writes, reachability from all operations", "other",
        "Every function reachable from a callback; the lazily built method tables and the lazily cached groups are known findings."),
"C23": (IR + "effect analysis: interprocedural summaries of writes through each pointer argument and through objects obtained from keys", "other",
        "Every function with pointers to constant data, the control commands that only read, and the operations that use keys."),
"C24": (IR + "path-sensitive typestate and interval analysis of the section counter at every block operation", "other",
        "All modes with key meshing, from every initialised state, every path through every message handler."),
"C25": (IR + "path-sensitive definite-assignment analysis of locals and new objects, with read-before-write summaries of called functions", "other",
        "All functions, every path, failed calls leave their outputs unwritten; memory that may have been written is not reported."),
"C30": (IR + "interprocedural access-range summaries compared with the announced context sizes", "other",
        "All cipher, digest and key-method contexts and all their handlers; accesses with an unbounded index are left to the bound of the array."),
"C26": (IR + "path-sensitive typestate of curve points and keys, with summaries of the arguments that are multiplied or stored", "other",
        "Every multiplication by a secret and every point that becomes a public key; OpenSSL's own coordinate setters check the curve equation."),
"C16": ("taint analysis of the LLVM IR of the unoptimised code, one summary per function and set of tainted arguments", "other",
        "All single-scalar entry points of all dedicated implementations in both word sizes, their callers, and all computed authentication codes; tables are tracked as whole objects."),
})
