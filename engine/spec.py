"""Which roots (most-general clients in probe/src/roots) and which compile-time witnesses decide each property."""

# the allocator client: small integers join, loops of the atomic paths are unrolled once before they widen
ALLOC = dict(small=0, lim=-1, coarse=1, keyconst=1, strong=1, unroll=(("atomic_", 1),), inner=1, panics=False)

# both builds: with overflow checks and without
BOTH = {"": {}, " (no overflow checks)": dict(wrap=1)}

# states are never merged unless equal: for clients of bounded size
EXACT = dict(lim=5000, small=100)

# lists of any length
ANYLEN = {"%s::t_%s_any" % (c, l): dict(lim=-1, small=0, coarse=1) for c in ("c23", "c24") for l in ("pl", "sl")}

WT = ("type-level encodings: a generated matrix of compile-fail witnesses (and compiling twins), decided by rustc's type and "
      "borrow checker on the current tree")
WN = ("Static: every witness program is only type- and borrow-checked against the current tree; each that breaks the property must "
      "be rejected at the marked line with an error code of the right family. The matrix is pairwise over the public accessors "
      "(C06) and over the four Send/Sync kinds of data for every public type and entry point (C28); entry points added later "
      "are not in it. Trusted: rustc.")

# property -> list of (root prefix, options); witness=True: the type-level witnesses in witness/<id>*.rs
PROPS = {
    "C01": dict(roots=["c01::"]),
    "C02": dict(roots=["c02::"]),
    "C03": dict(roots=["c03::"]),
    "C04": dict(roots=["c04::t_vec", "c04::t_dense", "c04::t_hash"]),
    "C05": dict(roots=["c04::t_slice"]),
    "C07": dict(roots=["c07::"]),
    "C08": dict(roots=["c08::"]),
    "C09": dict(roots=["c09::"]),
    "C10": dict(roots=["c10::t_flags"]),
    "C12": dict(roots=["c12::t_any"], opts=ALLOC, variants=BOTH),
    "C13": dict(roots=["c12::t_any", "c12::t_join"], opts=ALLOC),
    "C14": dict(roots=["c12::t_any"], opts=ALLOC),
    "C16": dict(roots=["c12::t_any"], opts=dict(ALLOC, panics=True), variants=BOTH),
    "C15": dict(roots=["c15::"], opts=dict(ALLOC, maxsteps=10**9, timeout=700), 
                root_opts={"c15::t_mark": dict(EXACT, keyconst=0, strong=0, coarse=0, unroll=None, inner=0, panics=True)},
                technique="rely-guarantee style interference analysis: abstract interpretation of MIR where, before each atomic step "
                          "of an operation on a shared object, another thread's operation may run; plus a no-plain-write rule",
                note="Interference: any history, then one operation interleaved (at any of its atomic steps) with one whole "
                     "operation of another thread (two for marks), sequentially consistent. "),
    "C17": dict(roots=["c17::"], opts=EXACT),
    "C18": dict(roots=["c18::"], opts=EXACT),
    "C19": dict(roots=["c19::"], opts=EXACT),
    "C20": dict(roots=["c20::"], opts=EXACT),
    "C21": dict(roots=["c21::"], opts=EXACT),
    "C22": dict(roots=["c22::"]),
    "C23": dict(roots=["c23::"], opts=EXACT, root_opts=ANYLEN),
    "C24": dict(roots=["c24::"], opts=EXACT, root_opts=ANYLEN),
    "C25": dict(roots=["c25::"], opts=EXACT),
    "C26": dict(roots=["c26::"]),
    "C27": dict(roots=["c27::"], opts=EXACT),
    "C29": dict(roots=["c12::t_count"], opts=ALLOC,
                root_opts={"c12::t_count_world": dict(EXACT, keyconst=0, strong=0, coarse=0, unroll=None, inner=0, panics=True)}),
    "C06": dict(witness=True, technique=WT, full_note=WN),
    "C28": dict(witness=True, technique=WT, full_note=WN),
    "C11": dict(roots=["c10::t_modified"]),
}

TECHNIQUE = ("abstract interpretation (dataflow fixpoint with widening) of the compiler's monomorphic MIR, driven by "
             "most-general clients, with typestate/ghost obligations")
NOTE = ("Static: every obligation is shown to hold in all reachable abstract states of a most-general client (all inputs and "
        "all call sequences within the client's stated shape), closed by a fixpoint. Trusted: the models of std, hibitset and "
        "rayon in engine/leafs.py and probe/src/stubs.rs, and rustc's MIR.")
NA = {}
