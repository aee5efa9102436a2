"""Which harness entries decide which property, and within what bounds."""
H20 = ["indirect.h", "polymorphic.h"]
H14 = ["indirect_cxx14.h", "polymorphic_cxx14.h"]
TUS = {}


def tu(name, std, src, defs=(), weight=1, **kw):
    kw.setdefault("headers", H20 if std == 20 else H14)
    TUS[name] = dict(std=std, src=src, defs=list(defs), weight=weight, **kw)


for _s in (20, 14):
    for _t in ("VS", "VN", "VB"):
        # the build variants are spread over the owned types
        tu("ind%d_%s" % (_s, _t), _s, "ind_steps.cc", ["-DVP_T=" + _t] + (["-DNDEBUG"] if _t == "VN" else []), 3,
           **({"lang": {20: 23, 14: 17}[_s]} if _t == "VB" else {}))
    tu("pol%d_HV" % _s, _s, "pol_steps.cc", ["-DVP_HY=HV", "-DVP_CTORS"], 9)
    tu("pol%d_HN" % _s, _s, "pol_steps.cc", ["-DVP_HY=HN", "-DNDEBUG"], 8, lang={20: 23, 14: 17}[_s])

    tu("indu%d" % _s, _s, "ind_steps.cc", ["-DVP_T=VS", "-DVP_UNWIND"], 3)
    tu("polu%d" % _s, _s, "pol_steps.cc", ["-DVP_HY=HV", "-DVP_CTORS", "-DVP_UNWIND"], 9)
    tu("greedy%d" % _s, _s, "greedy.cc", weight=5)
    tu("nested%d" % _s, _s, "nested.cc", weight=5)
    tu("cmp%d" % _s, _s, "compare.cc", weight=3)
    tu("acc%d" % _s, _s, "access.cc", weight=5)
    tu("race%d" % _s, _s, "race.cc", weight=5, pages=True)
    _x = dict(lang={20: 23, 14: 17}[_s])
    tu("cmpx%d" % _s, _s, "compare.cc", ["-DNDEBUG"], weight=3, **_x)
    tu("accx%d" % _s, _s, "access.cc", ["-DNDEBUG"], weight=5, **_x)
    tu("racex%d" % _s, _s, "race.cc", ["-DNDEBUG"], weight=5, pages=True, **_x)
    tu("trk%d" % _s, _s, "trk.cc", weight=1, new_hook=True, headers=(H20 if _s == 20 else H14) + ["tracking_allocator.h", "tagged_allocator.h"])
    tu("trk%d_3" % _s, _s, "trk.cc", ["-DVP_STEPS=3"], weight=1, new_hook=True)

for _s in (20, 14):
    tu("hist%d" % _s, _s, "hist.cc", ["-DVP_K=2"], 6)
    tu("hist%d_nf" % _s, _s, "hist.cc", ["-DVP_K=3", "-DVP_F=0"], 6)
    tu("hist%d_3" % _s, _s, "hist.cc", ["-DVP_K=3"], 6)
    tu("fwd%d" % _s, _s, "fwd.cc", weight=2)
    tu("triv%d_ind" % _s, _s, "triv.cc", ["-DVP_IND"], weight=4)
    tu("triv%d_pol" % _s, _s, "triv.cc", ["-DVP_POL"], weight=3)
    tu("kinds%d_ind" % _s, _s, "kinds.cc", weight=2)
    tu("kinds%d_pol" % _s, _s, "kinds.cc", ["-DVP_POL"], weight=3)
    tu("long%d" % _s, _s, "long.cc", weight=2)
    tu("sizes%d_ind" % _s, _s, "sizes.cc", weight=2)
    tu("sizes%d_pol" % _s, _s, "sizes.cc", ["-DVP_POL"], weight=2)
    tu("contain%d" % _s, _s, "contain.cc", weight=2, **({} if _s == 20 else {"lang": 17}))
    tu("long%d_x" % _s, _s, "long.cc", ["-DVP_ROUNDS=700", "-DVP_DEPTH=400"], weight=2)
    tu("odd%d" % _s, _s, "odd.cc", weight=4, new_hook=True)
    tu("comp%d" % _s, _s, "comp.cc", weight=4, new_hook=True)
    tu("pmr%d" % _s, _s, "pmr.cc", weight=4, lang={20: 20, 14: 17}[_s])
for _s in (20, 14):
    tu("only%d" % _s, _s, "only.cc", weight=2)
tu("wrap20", 20, "wrap.cc", weight=1, new_hook=True, headers=["exploration/wrapper.h", "exploration/incomplete_types.h", "exploration/incomplete_types.cc"])
DIFF_PARTS = [("diff.cc", 20, []), ("diff_side.cc", 20, []), ("diff_side.cc", 14, ["-Dxyz=xyz14", "-Dvp=vp14"])]
tu("diff", 20, "diff.cc", weight=9, parts=DIFF_PARTS)
tu("diff_2", 20, "diff.cc", ["-DVP_K=2"], weight=9, parts=DIFF_PARTS)
IND = ["ind20_VS", "ind20_VN", "ind20_VB", "ind14_VS", "ind14_VN", "ind14_VB"]
POLV = ["pol20_HV", "pol14_HV"]
POL = ["pol20_HV", "pol20_HN", "pol14_HV", "pol14_HN"]
CFG = ("config", [(0, 3), (4, 7), (8, 11), (12, 15)])
HEAVY = {"copy_assign", "move_assign", "swap"}


def steps(entries, tus=None):
    out = []
    for t in tus or IND + POL:
        for e in entries:
            if t.startswith("pol") and e == "value_assign":
                continue
            if t.endswith("_HN") and e == "construct":
                continue
            heavy = t.startswith("pol") and e in HEAVY
            out.append((t, e, {"split": CFG, "weight": 9} if heavy else {}))
    return out


PLAN = {
    "C01": steps(["copy_construct", "copy_assign"]),
    "C02": steps(["copy_construct", "move_construct", "ext_move_construct", "copy_assign", "move_assign", "swap", "construct"], POL),
    "C03": steps(["move_construct", "ext_move_construct", "move_assign"]),
    "C04": steps(["copy_construct", "move_construct", "ext_move_construct", "copy_assign", "move_assign", "value_assign", "construct", "swap"]),
    "C05": steps(["copy_construct", "move_construct", "ext_move_construct", "copy_assign", "move_assign", "value_assign", "construct", "swap"]),
    "C06": steps(["copy_assign", "move_assign"]),
    "C07": steps(["copy_construct", "ext_move_construct", "construct"]),
    "C08": steps(["copy_construct", "move_construct", "ext_move_construct", "copy_assign", "move_assign", "swap", "construct", "value_assign"]),
    "C09": steps(["swap"]),
    "C10": steps(["self_ops"]),
    "C11": steps(["copy_construct", "move_construct", "ext_move_construct", "copy_assign", "move_assign", "swap", "construct", "value_assign"]),
    "C15": steps(["copy_assign", "value_assign"], IND),
    "C18": steps(["construct", "copy_construct", "ext_move_construct"]),
}


def on(name, entries, **opt):
    name, _, suffix = name.partition("@")
    return [("%s%d%s" % (name, s, suffix), e, dict(opt)) for s in (20, 14) for e in entries]


GREEDY = on("greedy", ["greedy_ind", "greedy_pol"])
NESTED = on("nested", ["nested_ind", "nested_pol"])
PLAN["C01"] += GREEDY
PLAN["C02"] += on("nested", ["nested_pol"])
PLAN["C03"] += GREEDY
PLAN["C18"] += GREEDY
PLAN["C08"] += NESTED
PLAN["C12"] = on("cmp", ["cmp_" + t for t in ("u32", "i32_i64", "i64_i32", "char_i32", "double_float", "float_double", "i32_double", "po_pd", "pd_po", "pd", "double", "po", "wo", "ir", "br", "mixed", "mixed_rev", "oracle", "throw")] + ["laws_u32"])
PLAN["C13"] = on("cmp", ["cmpv_" + t for t in ("u32", "i32_i64", "i64_i32", "double_float", "float_double", "i32_double", "po_pd", "pd_po", "pd", "double", "po", "wo", "ir", "br", "mixed")] + ["cmp_oracle", "cmp_throw"])
PLAN["C14"] = on("cmp", ["hash", "hash_std", "hash_shapes", "hash_any", "cmp_throw"])
PLAN["C16"] = on("acc", ["acc_ind", "acc_ind_big", "acc_ind_amp", "acc_ind_tiny", "acc_pol", "acc_pol_nonvirtual"])
PLAN["C17"] = steps(["move_construct", "ext_move_construct", "move_assign", "move_assign_pocma", "swap", "self_ops"]) + on("race", ["const_ind", "const_pol"]) + on("cmp", ["cmp_throw"])
PLAN["C19"] = on("race", ["const_ind", "const_pol", "distinct_ind", "distinct_pol"])
for _p in ("C12", "C13", "C14", "C16", "C19"):
    PLAN[_p] = PLAN[_p] + [({"cmp": "cmpx", "acc": "accx", "race": "racex"}[t[:-2]] + t[-2:], e, o) for t, e, o in PLAN[_p]]
PLAN["C21"] = NESTED + on("nested", ["nested_value"])
PLAN["C15"] += on("nested", ["nested_value"])
PLAN["C23"] = on("trk", ["tracking_counts", "tracking_equality", "tracking_overlap", "tagged", "tracking_owner", "tagged_owner", "rebind", "tagged_construct", "tracking_many"])
PLAN["C20"] = [("diff", "diff_pol", {"split": ("config", [(i, i) for i in range(6)]), "weight": 9}), ("diff", "diff_ind", {}), ("diff", "diff_cmp", {})] + [("diff", e, {"split": ("config", [(i, i) for i in range(4)])}) for e in ("diff_ishape", "diff_pshape")]

ODD = on("odd", ["assign_odd", "plain_ind", "plain_pol", "plain_pol_bases", "plain_pol_iface", "layout_ind", "layout_pol", "fancy_ind"])
PICK = lambda *names: [x for x in ODD if x[1] in names]
PLAN["C01"] += ODD
PLAN["C02"] += PICK("plain_pol", "plain_pol_bases", "plain_pol_iface", "layout_pol")
PLAN["C03"] += PICK("plain_ind", "plain_pol", "plain_pol_bases", "plain_pol_iface", "layout_ind", "layout_pol", "fancy_ind")
PLAN["C04"] += ODD
PLAN["C05"] += ODD
PLAN["C06"] += ODD
PLAN["C07"] += PICK("plain_ind", "plain_pol", "plain_pol_bases", "plain_pol_iface", "layout_ind", "layout_pol", "fancy_ind")
PLAN["C08"] += PICK("assign_odd", "layout_ind", "layout_pol", "fancy_ind")
PLAN["C09"] += PICK("plain_ind", "plain_pol", "plain_pol_bases", "plain_pol_iface", "layout_ind", "layout_pol", "fancy_ind")
PLAN["C10"] += PICK("plain_ind", "plain_pol", "plain_pol_bases", "plain_pol_iface")
PLAN["C11"] += ODD
PLAN["C15"] += PICK("assign_odd", "plain_ind", "fancy_ind")
PLAN["C16"] += PICK("fancy_ind") + on("odd", ["acc_bases"])
PLAN["C22"] = on("comp", ["composite"], weight=5) + on("comp", ["nesting", "vector_ind", "vector_pol", "vector_comp"]) + [("comp20", e, {}) for e in ("optional_ind", "optional_pol")]
PLAN["C18"] += on("fwd", ["fwd_ind", "fwd_pol", "from_ind", "from_pol"])
TRIVI = [("triv%d_ind" % s, "triv_ind", {}) for s in (20, 14)]
TRIVP = [("triv%d_pol" % s, "triv_pol", {}) for s in (20, 14)]
for _p in ("C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C17", "C18"):
    PLAN[_p] = PLAN[_p] + TRIVI + TRIVP
PLAN["C02"] += TRIVP
PLAN["C16"] += TRIVI + TRIVP
PLAN["C18"] += [("triv%d_%s" % (s, x), "defaults_" + x, {}) for s in (20, 14) for x in ("ind", "pol")]
PLAN["C15"] += TRIVI
PLAN["C17"] += steps(["copy_construct", "construct", "value_assign"]) + PICK("plain_ind", "plain_pol", "plain_pol_iface")
KINDS = [("kinds%d_ind" % s, "kinds_ind", {}) for s in (20, 14)] + [("kinds%d_pol" % s, "kinds_pol", {}) for s in (20, 14)]
KINDC = [("kinds20_ind", "kinds_conv", {})]
KINDA = [("kinds%d_ind" % s, "kinds_assign", {}) for s in (20, 14)]
for _p in ("C01", "C04", "C05", "C07", "C11", "C18"):
    PLAN[_p] = PLAN[_p] + KINDS
PLAN["C18"] += KINDC
PLAN["C07"] += KINDC
for _p in ("C01", "C06", "C11", "C15"):
    PLAN[_p] = PLAN[_p] + KINDA
for _p in ("C03", "C04", "C06", "C07", "C09", "C11", "C15", "C18"):
    PLAN[_p] = PLAN[_p] + [("kinds%d_ind" % s, "kinds_move_only", {}) for s in (20, 14)]
for _p in ("C01", "C02", "C03", "C06", "C07", "C09", "C15"):
    PLAN[_p] = PLAN[_p] + [("kinds%d_%s" % (s, x), "kinds_copy_" + x, {}) for s in (20, 14) for x in ("ind", "pol") if (_p, x) not in (("C02", "ind"), ("C15", "pol"))]
for _p in ("C04", "C05", "C08"):
    PLAN[_p] = PLAN[_p] + [("kinds%d_%s" % (s, x), "identity_" + x, {}) for s in (20, 14) for x in ("ind", "pol")]
# long scripts, deep structures, many owners, scalars: longer paths than elsewhere
_BIG = {"steps": 20000000, "depth": 3000}
_HUGE = {"steps": 200000000, "depth": 20000, "weight": 5}
for _k, _ps in (("long_ind", "C01 C03 C04 C05 C08 C09 C10 C11 C14 C15 C16"), ("long_pol", "C01 C02 C03 C04 C05 C08 C09 C10 C11 C16"),
                ("deep_ind", "C01 C04 C06 C07 C21 C22"), ("deep_pol", "C01 C04 C06 C07 C21 C22"),
                ("many_ind", "C01 C03 C04 C05 C22"), ("many_pol", "C01 C02 C03 C04 C05 C22"),
                ("scalars_ind", "C01 C03 C04 C05 C09 C11 C12 C13 C14 C15 C18")):
    for _p in _ps.split():
        PLAN[_p] = PLAN[_p] + on("long", [_k], **_BIG)
# the same operations while the stack is being unwound by another exception
for _p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C15", "C18"):
    _u = []
    for _t, _e, _o in PLAN[_p]:
        if _t[:6] in ("ind20_", "ind14_") and _t.endswith("VS") or _t in POLV:
            x = ("%su%s" % (_t[:3], _t[3:5]), _e, {"pin": [("config", 0, 0)]})
            if x not in _u:
                _u.append(x)
    PLAN[_p] = PLAN[_p] + _u
for _p in "C01 C02 C03 C04 C05 C07 C09 C11 C15 C18".split():
    PLAN[_p] = PLAN[_p] + [("sizes%d_%s" % (s, x), "sizes_" + x, {"steps": 20000000}) for s in (20, 14) for x in ("ind", "pol") if (_p, x) not in (("C02", "ind"), ("C15", "pol"))]
_CONT = ["algorithms_ind", "algorithms_pol", "containers_ind", "containers_pol", "keys_ind"]
PLAN["C22"] += on("contain", _CONT, steps=20000000)
for _p in ("C01", "C03", "C04"):
    PLAN[_p] = PLAN[_p] + on("contain", _CONT[:4], steps=20000000)
for _p in ("C12", "C14"):
    PLAN[_p] = PLAN[_p] + on("contain", ["keys_ind"], steps=20000000)
PMR = on("pmr", ["pmr_ind", "pmr_nested", "pmr_pol"])
for _p in ("C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C18"):
    PLAN[_p] = PLAN[_p] + PMR
PLAN["C02"] += on("pmr", ["pmr_pol"])
ONLY = on("only", ["only_%s_%s" % (w, x) for w in ("swap", "move", "copy") for x in ("ind", "pol")])
for _p in ("C01", "C04", "C05", "C06", "C08", "C09", "C11"):
    PLAN[_p] = PLAN[_p] + ONLY
PLAN["C26"] = [("wrap20", e, {}) for e in ("wrapper", "wrapper_make", "wrapper_members", "wrapper_equality")]
HISTQ = on("hist", ["hist_ind", "hist_pol"], split=("config", [(0, 0), (7, 7)]), weight=9)
HIST_PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C15"]
for _p in ("C04", "C08", "C11"):
    PLAN[_p] = PLAN[_p] + HISTQ
# three operations without failures, one configuration per standard
HISTN = [("hist%d_nf" % s, e, {"pin": [("config", c, c)], "split": ("operation 1", [(0, 1), (2, 3), (4, 5), (6, 7), (8, 9)]), "weight": 9})
         for s, c in ((20, 7), (14, 0)) for e in ("hist_ind", "hist_pol")]
for _p in ("C01", "C03", "C04", "C09"):
    PLAN[_p] = PLAN[_p] + HISTN
PLAN["C02"] = PLAN["C02"] + [x for x in HISTN if x[1] == "hist_pol"]
THOROUGH = {
    "C20": [("diff_2", e, {"split": ("config", [(i, i) for i in range(6)]), "weight": 9}) for e in ("diff_ind",)],
    "C23": [("trk%d_3" % s, "tracking_counts", {}) for s in (20, 14)],
}
for _p in HIST_PROPS:
    THOROUGH[_p] = THOROUGH.get(_p, []) + [x for x in on("hist", ["hist_ind", "hist_pol"], split=("config", [(i, i) for i in range(16)]), weight=9)
                                           if not (_p == "C02" and x[1] == "hist_ind") and not (_p == "C15" and x[1] == "hist_pol")]
for _p in ("C01", "C02", "C04", "C10"):
    THOROUGH[_p] = THOROUGH.get(_p, []) + on("long@_x", ["long_pol"] if _p == "C02" else ["long_ind", "long_pol"], **_HUGE)
THOROUGH["C21"] = THOROUGH.get("C21", []) + on("long@_x", ["deep_ind", "deep_pol"], **_HUGE)
_STEP = ("one operation from an arbitrary state of one or two objects (valueless or not, any 32-bit values, any allocator tags, equal or not), at most 2 faults per operation at any allocation or owned-type operation, "
         "all 16 combinations of propagation and equality traits, three owned types for indirect (throwing, nothrow, 200-byte over-aligned) and two class hierarchies for polymorphic (with and without virtual destructor)")
_HIST = "histories of 2 operations (thorough: 3) on two objects, each operation with at most one fault"
_HIST3 = "histories of 3 operations without faults on two objects under two configurations (thorough: with faults, under all 16)"
_LONG = "a script of some 15 operations repeated 130 times (thorough: 700) on the same two objects, any values and allocator tags, 4 trait combinations, fixed order"
_DEEP = "recursive structures 70 owners deep (thorough: 400) under 3 trait combinations; 50 owners at once in a vector"
BOUNDS = {
    "C01": _STEP + "; plus owned types with odd, trivial and greedy special members; " + _HIST3 + "; " + _LONG + ".",
    "C02": _STEP + "; dynamic types: the base and three derived classes per hierarchy, plus plain, multiple-inheritance and virtual-inheritance hierarchies; " + _HIST3 + "; " + _LONG + ".",
    "C03": _STEP + "; plus trivial, plain and fancy-pointer types; " + _HIST3 + "; " + _LONG + ".",
    "C04": _STEP + "; " + _HIST + "; " + _HIST3 + "; " + _LONG + ".",
    "C05": _STEP + "; plus empty, final and fancy-pointer allocators and allocators with construct/destroy hooks; " + _LONG + ".",
    "C06": _STEP + "; plus operator new failing anywhere under std::allocator; " + _DEEP + ".",
    "C07": _STEP + "; every constructor form; " + _DEEP + ".",
    "C08": _STEP + "; " + _HIST + "; nested owners of depth 2; std::pmr; allocators offering only the assignment or swap their traits promise; " + _LONG + ".",
    "C09": _STEP + "; swaps of objects with unequal non-propagating allocators are outside the contract; " + _HIST3 + "; " + _LONG + ".",
    "C10": _STEP + "; " + _LONG + ".",
    "C11": _STEP + "; " + _HIST + "; " + _LONG + ".",
    "C12": "all pairs of values of: u32, i32/i64, char/i32, double, double/float and i32/double (every bit pattern), a partially ordered pair (also with a class derived from it), a weakly ordered pair, two mixed classes, and an uninterpreted relation (any answers at all, for types of seven shapes: empty, final, one byte, padded, floating, non-trivial, also an object with itself); all valueless combinations; laws for all triples of u32; bool, char, 64-bit, enumeration, pointer and function pointer types.",
    "C13": "as C12, for an indirect and a plain value in both operand orders; bool, char, 64-bit, enumeration, pointer and function pointer types.",
    "C14": "all 32-bit (64-bit for scalars) values of 7 owned types with user hashes and 6 with std::hash; hash, modify through 5 routes, hash again; an uninterpreted hash (any answer) of seven shapes of type.",
    "C15": _STEP + "; values passed as const lvalue, lvalue, rvalue and converted types; kinds.cc: 11 owned types that differ in what is noexcept or trivial, under 3 allocators; " + _LONG + ".",
    "C16": "all 32-bit values; owned types of 1, 4, 8 and 200 bytes, one overloading unary &, a fancy pointer; hierarchies where the interface is the first, second, virtual or repeated base; one write through each accessor followed by reads through all, before and after a move and a swap; agreement of all accessors on the trait-class types of C01; " + _LONG + ".",
    "C17": _STEP + "; the noexcept-ness itself is read from the compiled code: an exception leaving any noexcept function is a violation.",
    "C18": "kinds.cc: 12 constructor forms of 11 owned types that differ in what is noexcept or trivial, under 3 allocators (one std::allocator); construction without arguments of scalars, aggregates and classes with implicit constructors; every constructor form with up to 4 arguments in each of 4 value categories, any values; greedy owned types constructible from anything.",
    "C19": "every const operation, single-threaded, with all pre-existing memory frozen (so for any number of threads: no write, no race); operations on distinct objects with everything but their own objects and blocks frozen.",
    "C20": "one operation (indirect: 2 in the thorough tier) after any setup, 6 allocator configurations, up to 64 scripted fault positions of which 2 fire; the same for 28 trait-class shapes of owned type under 4 configurations with one fault; comparison and hashing of five pairs of types over all their values.",
    "C21": "owners nested two deep, any values, all 16 allocator configurations, one fault; " + _DEEP + ".",
    "C22": "composites of one indirect and one polymorphic under 4 allocator configurations; nesting of depth 2; std::optional; vectors of up to 3 elements with one growth; one fault anywhere; without faults: nine algorithms on vectors of 4 elements of any order, fixed scripts on vector, deque, list, map, unordered_map, array, pair, tuple, closures, smart pointers, variant, any, and sets of up to 3 keys; " + _DEEP + ".",
    "C23": "two operations (thorough: 3) of up to 4 allocators, 0, 1, 2, 3 or 17 elements, any tags and counter values, operator new failing anywhere; the allocators inside indirect and polymorphic; rebinding between 6 types of sizes 0 to 600 there and back.",
    "C26": "one operation (copy, assignment, self-assignment, copying and assigning a composite, move) on wrappers holding any 32-bit values, one fault at any operation of the owned type, operator new failing anywhere; the six composites of incomplete_types.h.",
}
ASSUMPTIONS = [
    "clang 18's translation of the headers to LLVM IR (unoptimised) and libstdc++ 13 are what users compile; x86-64, little endian, 64-bit pointers",
    "the symx executor's semantics of that IR; checked on every run by replaying solver models of proved paths natively",
    "Z3's verdicts",
    "allocators and owned types are those of the harnesses: they do not throw from destructors, comparisons of allocators, copies of allocators or deallocate",
    "outside long.cc, whose pool and slot reuse them, memory addresses are never reused within one path",
]


def plan_for(prop, tier):
    return PLAN.get(prop, []) + (THOROUGH.get(prop, []) if tier == "thorough" else [])

TECHNIQUE = "symbolic execution of the headers' LLVM IR (symx), every branch and assertion decided by Z3 over symbolic values, states, allocators and fault points"
NOT_APPLICABLE = {
    "C24": "usability in constant expressions is decided by the compiler while translating a program; there is no run-time code to execute symbolically, and the value computed is the same code's value, covered by the other properties.",
    "C25": "constraints, deduction and incomplete-type support are facts about which programs compile; the solver-based executor starts from code that already compiled.",
}
