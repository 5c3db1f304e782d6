"""Which harnesses decide which property, under which configurations and bounds."""
COMMON_ASSUMPTIONS = [
    "target: x86-64, two's complement; clang 18's LLVM IR of the current headers at -O0 is the meaning of the source (libstdc++ 13)",
    "operator new succeeds and the allocator is std::allocator, except in C07, C10 and C11, which fail requests for memory and bring their own allocators",
    "for the C++17 configurations the harness compiles a copy of the headers in which `constexpr` is dropped from functions returning std::string (clang rejects it); nothing else differs",
]
WORDS = (8, 16, 32, 64)
SH = {8: 1, 16: 1, 32: 2, 64: 4}
def J(src, entry, words=WORDS, shards=None, **kw):
    r = []
    for w in words:
        d = dict(src=src, entry=entry, word=w)
        for k, v in kw.items():
            d[k] = v[w] if isinstance(v, dict) and k != "params" else v
            if k == "params" and v and all(isinstance(x, int) for x in v): d[k] = v[w]
        s = shards
        if isinstance(shards, dict): s = shards.get(w, 1)
        d["shards"] = s or 1
        r.append(d)
    return r
from meta import META
PROPS = {}
def prop(id, jobs, **kw): PROPS[id] = dict(title=META[id]["title"], bounds=META[id]["bounds"], jobs=jobs, **kw)
Q = lambda t, q, th: q if t == "quick" else th

# long ranges: positions in words near either end of 36 words of 8 bits (more
# than 255 bits) and 8 words of 64 bits, at offsets 0, 5, digits-1
def LONG(src, entry, n8=36, n64=8, shards=1, first=False, skip64=False):
    m = dict(fm=4, lm=4, om=4, mm=4, gm=4)
    if first: m.update(fm=6, lm=7)
    r = []
    for w, n in ((8, n8), (64, n64)):
        if w == 64 and skip64: continue
        r += J(src, entry, words=(w,), defs=["WIDE=%d" % (576 if w == 8 else 1088)], params=dict(m, n=n, ns=n, nd=n, na=n, nb=n), shards=shards if w == 8 else 1)
    return r

# the same harnesses over other iterators: raw word pointers, constant sources
FEWALL = dict(fm=3, lm=3, om=3, mm=3, gm=3, n=3, ns=3, nd=3, na=3, nb=3)
def ITER(src, *entries, words=(8, 64), const=False, raw=True, mix=False, params=None, **kw):
    r = []
    for e in entries:
        if raw: r += J(src, e, words=words, defs=["RAW=1"], params=params or FEWALL, **kw)
        if mix: r += J(src, e, words=words, defs=["MIX=1"], params=params or FEWALL, **kw)
        if const: r += J(src, e, words=words, defs=["CSRC=1"], params=params or FEWALL, **kw)
    return r

# the same harnesses compiled as C++20 (std::shift_left, constexpr algorithms, three-way comparison)
def CPP20(src, *entries, words=(8, 64), params=None, **kw):
    return [j for e in entries for j in J(src, e, words=words, std="20", params=FEWALL if params is None else params, **kw)]
# the SIMD configuration (BITLIB_HWY, 16-byte vectors, as the project builds it):
# buffers that begin or end 0, 1 or 2 words off a 64-byte boundary, long enough
# for the vector loops, their prologues and their remainders
def HW(src, entry, words=(8, 64), al=1, n={8: 40, 16: 28, 32: 24, 64: 20}, wide=2, **m):
    r = []
    for w in words:
        N = n[w]
        p = dict(fm=4, lm=4, om=4, mm=4); p.update(m); p.update(n=N, al=al)
        r += J(src, entry, words=(w,), defs=["BITLIB_HWY=1", "WIDE=%d" % (wide * N * w + 64)], params=p, shards=4 if "find" in entry else 2)
    return r
FN = {8: 19, 16: 12, 32: 8, 64: 5}       # find: enough for the prologue and one vector
def HWFIND(t, words): return HW("h_find.cpp", "h_find", words=words, n=Q(t, FN, {8: 35, 16: 19, 32: 11, 64: 7}), fm=6, lm=7)

# ranges of more than 255 words of 8 bits and of more than 65535 bits in 64-bit
# words (thorough: more than 65535 bits in every word width), at two first
# positions, two last ones, three offsets of the other range, five amounts
def HUGE(t, e, shards=1, hwy=False, big=False):
    r = []
    for w, n in [(8, 260), (64, 1060)] + ([(8, 8300), (16, 4200), (32, 2100)] if t == "thorough" and not hwy else []) + ([(8, 65600)] if big and t == "thorough" else []):
        p = dict(n=n); d = []
        if hwy: p["al"] = 1; d = ["BITLIB_HWY=1"]
        r += J("h_huge.cpp", "h_huge_" + e, words=(w,), params=p, defs=d, shards=6 if n > 2000 else shards)
    return r
def HUGEV(t, *ops, **kw):
    return [j for w, n in [(8, 260), (64, 1060)] + ([(8, 8300), (32, 2100)] if t == "thorough" else []) for lo, hi in ops
            for j in J("h_huge.cpp", "h_huge_vector", words=(w,), params=dict(n=n, oplo=lo, ophi=hi), **kw)]

prop("A01", lambda t:
     J("h_copy.cpp", "h_copy", shards={8: 1, 16: 2, 32: 3, 64: 6}, params=dict(ns=Q(t, 3, 4), nd=Q(t, 3, 4)))
     + LONG("h_copy.cpp", "h_copy")
     + ITER("h_copy.cpp", "h_copy", const=True, mix=True)
     + CPP20("h_copy.cpp", "h_copy")
     + HUGE(t, "copy"))
prop("A02", lambda t: J("h_copy.cpp", "h_move", shards={8: 1, 16: 2, 32: 3, 64: 6}, params=dict(ns=3, nd=3))
     + LONG("h_copy.cpp", "h_move")
     + ITER("h_copy.cpp", "h_move", const=True, mix=True)
     + CPP20("h_copy.cpp", "h_move")
     + HUGE(t, "move"))
prop("A03", lambda t: J("h_copy.cpp", "h_copy_backward", words=(8, 16, 32), shards={8: 1, 16: 2, 32: 4}, params=dict(ns=3, nd=3, split=1))
     + J("h_copy.cpp", "h_copy_backward", words=(64,), shards=6, params=dict(ns=3, nd=3, om=3))
     + LONG("h_copy.cpp", "h_copy_backward")
     + ITER("h_copy.cpp", "h_copy_backward", const=True, mix=True)
     + CPP20("h_copy.cpp", "h_copy_backward")
     + HUGE(t, "copy_backward"))
prop("A04", lambda t: J("h_copy.cpp", "h_copy_overlap", shards=SH, params=dict(n=3)) + J("h_copy.cpp", "h_move_overlap", shards=SH, params=dict(n=3))
     + J("h_copy.cpp", "h_copy_backward_overlap", shards=SH, params={8: dict(n=3, split=1), 16: dict(n=3, split=1), 32: dict(n=3, split=1), 64: dict(n=2, split=1)})
     + LONG("h_copy.cpp", "h_copy_overlap") + LONG("h_copy.cpp", "h_move_overlap") + LONG("h_copy.cpp", "h_copy_backward_overlap")
     + ITER("h_copy.cpp", "h_copy_overlap", "h_move_overlap", "h_copy_backward_overlap", raw=False, const=True)
     + CPP20("h_copy.cpp", "h_copy_overlap", "h_copy_backward_overlap"))
prop("A05", lambda t: J("h_fill.cpp", "h_fill", params=dict(n=4))
     + LONG("h_fill.cpp", "h_fill")
     + ITER("h_fill.cpp", "h_fill")
     + CPP20("h_fill.cpp", "h_fill") + HW("h_fill.cpp", "h_fill")
     + HUGE(t, "fill", big=True))
prop("A06", lambda t: J("h_equal.cpp", "h_equal", shards=SH, params=dict(ns=2, nd=3))
     + LONG("h_equal.cpp", "h_equal", first=True)
     + ITER("h_equal.cpp", "h_equal", const=True, mix=True)
     + CPP20("h_equal.cpp", "h_equal")
     + HUGE(t, "equal"))
prop("A07", lambda t: J("h_find.cpp", "h_find", shards=SH, params=dict(n=3))
     + LONG("h_find.cpp", "h_find", n8=33, first=True, shards=4)
     + ITER("h_find.cpp", "h_find", const=True)
     + CPP20("h_find.cpp", "h_find") + HWFIND(t, (8, 64))
     + HUGE(t, "find", big=True))
prop("A08", lambda t:
     J("h_count.cpp", "h_count", summary=["popcount64"], params={8: dict(n=3), 16: dict(n=2), 32: dict(n=2), 64: dict(n=2)}, shards={8: 1, 16: 1, 32: 2, 64: 4})
     + ITER("h_count.cpp", "h_count", words=(8,), const=True, params=dict(n=2), summary=["popcount64"])
     + CPP20("h_count.cpp", "h_count", words=(8,), params=dict(n=2), summary=["popcount64"]))
prop("A09", lambda t: J("h_reverse.cpp", "h_reverse", words=(8, 16), shards={8: 1, 16: 2}, params=dict(n=3))
     + J("h_reverse.cpp", "h_reverse", words=(32, 64), params=dict(n=4, fm=2, lm=2))
     + J("h_reverse.cpp", "h_reverse", words=(32, 64), shards=2, params=dict(n=Q(t, 2, 3), lm=3)) + J("h_reverse.cpp", "h_reverse", words=(32, 64), shards=2, params=dict(n=Q(t, 2, 3), fm=3))
     + LONG("h_reverse.cpp", "h_reverse", shards=4)
     + ITER("h_reverse.cpp", "h_reverse")
     + CPP20("h_reverse.cpp", "h_reverse")
     + HUGE(t, "reverse", shards=4))
prop("A10", lambda t: J("h_rotate.cpp", "h_rotate", words=(8,), shards=3, params=dict(n=Q(t, 3, 4), full=1))
     + J("h_rotate.cpp", "h_rotate", words=(16, 32, 64), shards=2, params=dict(n=3, fm=2, lm=2, mm=2)) + J("h_rotate.cpp", "h_rotate", shards=2, params=dict(n=Q(t, 4, 6), fm=3, lm=3, mm=3))
     + J("h_rotate.cpp", "h_rotate", words=(32, 64), shards=4, params=dict(n=3, lm=3, mm=3))
     + LONG("h_rotate.cpp", "h_rotate", shards=4)
     + ITER("h_rotate.cpp", "h_rotate")
     + CPP20("h_rotate.cpp", "h_rotate")
     + HUGE(t, "rotate", shards=4))
prop("A11", lambda t: J("h_shift.cpp", "h_shift_left", shards=SH) + J("h_shift.cpp", "h_shift_left_edge")
     + LONG("h_shift.cpp", "h_shift_left")
     + ITER("h_shift.cpp", "h_shift_left")
     + CPP20("h_shift.cpp", "h_shift_left") + HW("h_shift.cpp", "h_shift_left")
     + HUGE(t, "shift_left"))
prop("A12", lambda t: J("h_shift.cpp", "h_shift_right", words=(8, 16), shards={8: 2, 16: 4}, params=dict(n=3)) + J("h_shift.cpp", "h_shift_right_edge")
     + J("h_shift.cpp", "h_shift_right", words=(32, 64), shards=4, params=dict(n=3, lm=3, mm=3)) + J("h_shift.cpp", "h_shift_right", words=(64,), shards=4, params=dict(n=3, fm=3, lm=3))
     + J("h_shift.cpp", "h_shift_right", words=(32, 64), shards=2, params=dict(n=4, fm=2, lm=2, mm=2))
     + LONG("h_shift.cpp", "h_shift_right")
     + ITER("h_shift.cpp", "h_shift_right")
     + CPP20("h_shift.cpp", "h_shift_right") + HW("h_shift.cpp", "h_shift_right", al=2)
     + HUGE(t, "shift_right"))
prop("A13", lambda t: J("h_swap.cpp", "h_swap_ranges", words=(8, 16, 32), shards=SH) + J("h_swap.cpp", "h_swap_ranges", words=(64,), shards=2, params=dict(fm=3))
     + J("h_swap.cpp", "h_swap_same", words=(8, 16, 32), shards=SH) + J("h_swap.cpp", "h_swap_same", words=(64,), shards=2, params=dict(fm=3))
     + LONG("h_swap.cpp", "h_swap_ranges", shards=3) + LONG("h_swap.cpp", "h_swap_same", shards=2)
     + ITER("h_swap.cpp", "h_swap_ranges", mix=True) + J("h_swap.cpp", "h_swap_widths")
     + CPP20("h_swap.cpp", "h_swap_ranges")
     + HUGE(t, "swap"))
prop("A14", lambda t: J("h_transform.cpp", "h_transform_not", words=(8, 16, 32), shards=SH) + J("h_transform.cpp", "h_transform_not", words=(64,), shards=2, params=dict(fm=3))
     + J("h_transform.cpp", "h_transform_not_inplace") + J("h_transform.cpp", "h_transform_id_lambda", words=(8, 32), shards=SH)
     + LONG("h_transform.cpp", "h_transform_not") + LONG("h_transform.cpp", "h_transform_not_inplace")
     + ITER("h_transform.cpp", "h_transform_not")
     + CPP20("h_transform.cpp", "h_transform_not") + HW("h_transform.cpp", "h_transform_not", om=6)
     + HUGE(t, "transform"))
prop("A15", lambda t: J("h_transform.cpp", "h_transform_xor", words=(8, 16, 32), shards=SH) + J("h_transform.cpp", "h_transform_xor", words=(64,), shards=4, params=dict(fm=3))
     + J("h_transform.cpp", "h_transform_xor", words=(8,), params=dict(n=3), shards=4) + J("h_transform.cpp", "h_transform_xor", words=(16, 32, 64), params=dict(n=3, fm=3, lm=3, om=3, gm=3))
     + J("h_transform.cpp", "h_transform_xor_inplace", words=(8, 16)) + J("h_transform.cpp", "h_transform_xor_inplace", words=(32, 64), params=dict(n=3, fm=3, lm=3)) 
     + J("h_transform.cpp", "h_transform_and", words=(8, 64), params={8: dict(n=2), 64: dict(n=3, fm=3, lm=3, om=3, gm=3)})+ J("h_transform.cpp", "h_transform_or", words=(16, 32), params={16: dict(n=2), 32: dict(n=3, fm=3, lm=3, om=3, gm=3)})
     + LONG("h_transform.cpp", "h_transform_xor", first=True) + LONG("h_transform.cpp", "h_transform_xor_inplace", first=True)
     + ITER("h_transform.cpp", "h_transform_xor", params=dict(FEWALL, n=2))
     + CPP20("h_transform.cpp", "h_transform_xor", params=dict(FEWALL, n=2))
     + HUGE(t, "transform_and"))

def CL(w, kern, cpu, *ns, **kw):
    return [j for n in ns for j in J("h_count.cpp", "h_count_long", words=(w,), params=dict(n=n, cpu=cpu, fmax=2, lmax=3), summary=["popcount64"] + kern, **kw)]
prop("A16", lambda t:
     J("h_count.cpp", "h_popcount64", words=(64,)) + J("h_count.cpp", "h_popcnt256", words=(64,)) + J("h_count.cpp", "h_popcnt512", words=(64,))
     # whole blocks, vectors left over after them, words and bytes left over after those
     + CL(64, ["popcnt256"], 2, 66, 79) + CL(64, ["popcnt512"], 3, 130, 143) + CL(8, ["popcnt256"], 2, 531) + CL(8, ["popcnt512"], 3, 1099)
     + CL(8, [], 0, 93) + CL(8, [], 1, 93) + CL(32, [], 1, 37) + CL(16, [], 0, 41)
     + CL(64, ["popcnt256"], 2, 79, std="20") + (CL(64, ["popcnt256"], 2, 70, 74, 146) + CL(64, ["popcnt512"], 3, 138, 282) + CL(8, ["popcnt256"], 2, 1043) if t == "thorough" else []))

SMALLHW = dict(defs=["BITLIB_HWY=1"])
prop("A17", lambda t:
     HW("h_fill.cpp", "h_fill", words=WORDS) + HWFIND(t, WORDS) + HW("h_transform.cpp", "h_transform_not", words=WORDS, om=6) + HW("h_transform.cpp", "h_transform_not_inplace", words=(8, 64))
     + HW("h_shift.cpp", "h_shift_left", words=WORDS) + HW("h_shift.cpp", "h_shift_right", words=WORDS) + HW("h_shift.cpp", "h_shift_right", words=WORDS, al=2)
     + HW("h_rotate.cpp", "h_rotate", words=(8, 64), fm=6) + HW("h_reverse.cpp", "h_reverse", words=(8, 64), fm=6)
     + J("h_fill.cpp", "h_fill", params=dict(n=3), **SMALLHW) + J("h_find.cpp", "h_find", params=dict(n=2), **SMALLHW) + J("h_transform.cpp", "h_transform_not", params=FEWALL, **SMALLHW)
     + J("h_shift.cpp", "h_shift_left", params=FEWALL, **SMALLHW) + J("h_shift.cpp", "h_shift_right", params=FEWALL, **SMALLHW)
     + J("h_count.cpp", "h_count", words=(8,), params=dict(n=2), summary=["popcount64"], **SMALLHW) + J("h_equal.cpp", "h_equal", params=FEWALL, words=(8, 64), **SMALLHW)
     + J("h_copy.cpp", "h_copy", params=FEWALL, words=(8, 64), **SMALLHW)
     + [j for e in ("fill", "find", "transform", "shift_left", "shift_right", "rotate", "reverse") for j in HUGE(t, e, hwy=True, shards=4 if e in ("rotate", "reverse") else 1)])

PW = lambda t, q, th: {8: q, 16: q, 32: th, 64: th}
prop("B01", lambda t: J("h_word.cpp", "h_popcnt") + J("h_word.cpp", "h_popcnt_generic", shards=SH) + J("h_word.cpp", "h_lzcnt") + J("h_word.cpp", "h_tzcnt", shards=1))
prop("B02", lambda t: J("h_word.cpp", "h_bitswap") + J("h_word.cpp", "h_byteswap"))
prop("B03", lambda t: J("h_word.cpp", "h_bextr") + J("h_word.cpp", "h_bitblend") + J("h_word.cpp", "h_bitexch") + J("h_word.cpp", "h_bitcmp"))
prop("B04", lambda t: J("h_word.cpp", "h_pdep_pext", words=(8,)) + J("h_word.cpp", "h_pdep_pext", words=(16, 32, 64), params=dict(free=6, stretch=1))
     + J("h_word.cpp", "h_pdep_pext", words=(16, 32, 64), params={16: dict(free=6, shift=9), 32: dict(free=6, shift=25), 64: dict(free=6, shift=57)}))
prop("B05", lambda t: J("h_word.cpp", "h_shld_shrd") + J("h_word.cpp", "h_addcarry") + J("h_word.cpp", "h_subborrow") + J("h_word.cpp", "h_mulx")
     + J("h_word.cpp", "h_mulx_generic", words=(8,), params=dict(bits=3, inv=1)) + J("h_word.cpp", "h_mulx_generic", words=(16, 32), params=dict(bits=2)) + J("h_word.cpp", "h_mulx_generic", words=(64,), params=dict(bits=1)))
prop("B06", lambda t: J("h_access.cpp", "h_get_word") + J("h_access.cpp", "h_get_word_narrow") + J("h_access.cpp", "h_get_word_wide") + J("h_access.cpp", "h_write_word") + J("h_access.cpp", "h_write_word_narrow", words=(16, 32, 64)) + J("h_access.cpp", "h_write_word_wide", words=(8, 16, 32), params={8: dict(n=10), 16: dict(n=6), 32: dict(n=4)}) + J("h_access.cpp", "h_padded_read")
     + ITER("h_access.cpp", "h_get_word", "h_write_word", words=(32,), params=dict(n=3))
     + CPP20("h_access.cpp", "h_get_word", "h_write_word", "h_padded_read", params={}))
prop("B07", lambda t: J("h_access.cpp", "h_distance", shards=SH) + J("h_access.cpp", "h_word_shift", words=(8, 64))
     + J("h_access.cpp", "h_distance_far") + J("h_access.cpp", "h_next_far")
     + ITER("h_access.cpp", "h_distance", "h_word_shift", words=(32,), params={})
     + CPP20("h_access.cpp", "h_distance", "h_word_shift", params={}))
prop("B08", lambda t: J("h_iter.cpp", "h_iter_arith", words=(8, 16), params=dict(om=1), shards=2) + J("h_iter.cpp", "h_iter_arith", words=(32, 64), params=dict(om=Q(t, 3, 1)), shards=Q(t, 1, 4))
     + J("h_iter.cpp", "h_iter_diff", words=(8, 16), params=dict(om=1), shards=2) + J("h_iter.cpp", "h_iter_diff", words=(32, 64), params=dict(om=Q(t, 3, 1)), shards=Q(t, 1, 4))
     + J("h_iter.cpp", "h_iter_step")
     + CPP20("h_iter.cpp", "h_iter_arith", "h_iter_diff", params=dict(om=3)) + CPP20("h_iter.cpp", "h_iter_step", params={}))
prop("B09", lambda t: J("h_iter.cpp", "h_iter_order") + J("h_iter.cpp", "h_iter_mixed") + J("h_iter.cpp", "h_iter_access", shards=2)
     + CPP20("h_iter.cpp", "h_iter_order", "h_iter_mixed", "h_iter_access", params={}))
prop("B10", lambda t: J("h_iter.cpp", "h_ptr_arith", params=dict(om=Q(t, 3, 1)), shards=Q(t, 1, 4)) + J("h_iter.cpp", "h_ptr_diff", params=dict(om=Q(t, 3, 1)), shards=Q(t, 1, 4))
     + J("h_iter.cpp", "h_ptr_step") + J("h_iter.cpp", "h_ptr_order") + J("h_iter.cpp", "h_ptr_misc")
     + CPP20("h_iter.cpp", "h_ptr_order", "h_ptr_misc", "h_ptr_step", params={}))
prop("B11", lambda t: J("h_iter.cpp", "h_reference") + J("h_iter.cpp", "h_value")
     + CPP20("h_iter.cpp", "h_reference", "h_value", params={}))

VW = (8, 32, 64)
def VJ(entry, words=VW, **kw): return J("h_vector.cpp", entry, words=words, **kw)
prop("C01", lambda t: VJ("h_ctor_count") + VJ("h_ctor_bits") + VJ("h_ctor_words") + VJ("h_ctor_bools", params=dict(n=Q(t, 9, 11)), words=(8, 64))
     + CPP20("h_vector.cpp", "h_ctor_count", "h_ctor_bits", "h_ctor_words", words=(64,), params={})
     + HUGEV(t, (0, 0), (6, 6)))
prop("C02", lambda t: VJ("h_ctor_string", params=dict(n=Q(t, 4, 6))) + VJ("h_ctor_string", params={8: dict(n=2, pre=15), 32: dict(n=2, pre=31), 64: dict(n=2, pre=63)}) + VJ("h_debug_string", params=dict(round=Q(t, 6, 10))) + VJ("h_debug_range")
     + CPP20("h_vector.cpp", "h_ctor_string", "h_debug_string", words=(64,), params={}))
prop("C03", lambda t: VJ("h_access") + VJ("h_at") + VJ("h_traverse")
     + CPP20("h_vector.cpp", "h_access", "h_at", "h_traverse", words=(64,), params={})
     + HUGEV(t, (6, 6)))
prop("C04", lambda t: VJ("h_push_back") + VJ("h_pop_back") + VJ("h_resize") + VJ("h_clear")
     + CPP20("h_vector.cpp", "h_push_back", "h_pop_back", "h_resize", "h_clear", words=(64,), params={})
     + HUGEV(t, (4, 5)))
prop("C05", lambda t: VJ("h_insert_one") + VJ("h_insert_count", shards={8: 3, 32: 1, 64: 1}) + VJ("h_insert_range", shards={8: 3, 32: 1, 64: 1})
     + CPP20("h_vector.cpp", "h_insert_one", "h_insert_count", "h_insert_range", words=(64,), params={})
     + HUGEV(t, (1, 2), (5, 5)))
prop("C06", lambda t: VJ("h_erase_one") + VJ("h_erase_range", shards={8: 4, 32: 1, 64: 1})
     + CPP20("h_vector.cpp", "h_erase_one", "h_erase_range", words=(64,), params={})
     + HUGEV(t, (3, 3), (5, 5)))
prop("C07", lambda t: VJ("h_capacity", shards={8: 2, 32: 1, 64: 1}) + VJ("h_reserve_any", words=WORDS)
     + CPP20("h_vector.cpp", "h_capacity", "h_reserve_any", words=(64,), params={}))
prop("C08", lambda t: VJ("h_copy_move") + VJ("h_swap_vec")
     + CPP20("h_vector.cpp", "h_copy_move", "h_swap_vec", words=(64,), params={})
     + HUGEV(t, (0, 0)))
prop("C09", lambda t: VJ("h_history", params=dict(steps=Q(t, 2, 3)), shards=Q(t, 1, 8))
     + CPP20("h_vector.cpp", "h_history", words=(64,), params=dict(steps=2), shards=2))

prop("C10", lambda t: VJ("h_alloc_failure", shards={8: 8, 32: 3, 64: 3}) + VJ("h_alloc_move_failure") + VJ("h_grow_any", words=WORDS)
     + CPP20("h_vector.cpp", "h_alloc_failure", "h_grow_any", words=(64,), params={}))
prop("C11", lambda t: VJ("h_allocator", shards={8: 5, 32: 2, 64: 2})
     + CPP20("h_vector.cpp", "h_allocator", words=(64,), params={}, shards=2))
prop("B12", lambda t: J("h_stream.cpp", "h_read", words=(8,)) + J("h_stream.cpp", "h_write", words=WORDS) + J("h_stream.cpp", "h_read_ref", words=WORDS)
     + CPP20("h_stream.cpp", "h_read", "h_read_ref", "h_write", words=(8, 64), params={}))
