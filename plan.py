PLAN = {}
PLAN['P01'] = dict(tus=[dict(src='h_unary.cpp', variants=['default'])], bounds='one call per harness; every argument in the open domain of the function, every seed')
PLAN['P02'] = dict(tus=[dict(src='h_binary.cpp', variants=['default'])], bounds='one call per harness')
PLAN['P03'] = dict(tus=[dict(src='h_mixed.cpp', variants=['default']), dict(src='h_scalar.cpp', variants=['default'])], bounds='one call per harness; doubles and small ints arbitrary, other integer types at 6-7 boundary values each')
PLAN['P05'] = dict(tus=[dict(src='h_sweep.cpp', variants=['default', 'chunk', 'chunk2'])], bounds='up to 4 statements (thorough 5), up to 3 operands each, up to 4 slots, chunk sizes 2, 3 and the production size; multipliers and seeds arbitrary reals')
PLAN['P04'] = dict(tus=[dict(src='h_expr.cpp', variants=['default', 'reuse', 'chunk2']), dict(src='h_auto.cpp', variants=['life'])], bounds='programs of up to 5 statements over up to 4 variables plus the listed idioms (copies, containers, branches); 37 kinds of expressions kept and used later')
PLAN['P06'] = dict(tus=[dict(src='h_partial.cpp', variants=['default', 'reuse', 'chunk2']), dict(src='h_cbhist.cpp', match='cbh|cb5_hand', variants=['default', 'chunkreuse'])], bounds='up to 5 recorded statements, every position, up to 2 rollbacks; multipliers and seeds arbitrary reals')
PLAN['P07'] = dict(tus=[dict(src='h_chkpt.cpp', variants=['default', 'reuse', 'chunk2']), dict(src='h_cbhist.cpp', variants=['default', 'reuse', 'chunk2'])], bounds='up to 3 callbacks, nesting up to 3, up to 3 surrounding destroyed variables; values and seeds arbitrary reals')
PLAN['P08'] = dict(tus=[dict(src='h_slots.cpp', variants=['default', 'reuse', 'reusedbg']), dict(src='h_nestfree.cpp', variants=['default', 'reuse', 'reusedbg'])], bounds='up to 9 register/unregister steps with symbolic choice; nested recordings with up to 5 inner variables')
PLAN['P09'] = dict(tus=[dict(src='h_free.cpp', variants=['reuse', 'reusedbg'])], bounds='up to 7 slots, up to 5 freed; range operations for all 32-bit bounds')
PLAN['P10'] = dict(tus=[dict(src='h_chunk.cpp', tape=False, variants=['default'])], bounds='up to 3 chunks of 1..4 elements, operation sequences of length up to 4 with symbolic sizes')
PLAN['P11'] = dict(tus=[dict(src='h_active.cpp', variants=['default', 'reuse'])], bounds='up to 3 tapes, up to 5 steps')
PLAN['P12'] = dict(tus=[dict(src='h_copy.cpp', variants=['default', 'reuse'])], bounds='every combination of recorded/unrecorded operands, every operator and operand kind; values and seeds arbitrary reals')
PLAN['P13'] = dict(tus=[dict(src='h_life.cpp', variants=['default', 'reuse', 'chunk2']), dict(src='h_cbhist.cpp', match='cbh|cb5_hand', variants=['default', 'chunkreuse'])], bounds='histories of up to 3 (thorough 4) steps out of 6 kinds plus the listed idioms; all values and seeds arbitrary reals')
PLAN['P14'] = dict(tus=[dict(src='h_high.cpp', variants=['default'])], bounds='every unary function and the listed binary functions and programs in four second-order modes; one third-order composition; all values and seeds arbitrary reals')
PLAN['P17'] = dict(tus=[dict(src='h_jac.cpp', variants=['default', 'reuse'])], bounds='up to 3 inputs and 5 outputs, every shape, containers of vectors, lists and arrays; all values arbitrary reals')
PLAN['P18'] = dict(tus=[dict(src='h_hess.cpp', variants=['default', 'reuse'])], bounds='up to 3 inputs; all values arbitrary reals')
PLAN['P15'] = dict(tus=[dict(src='h_carith.cpp', variants=['default'])], bounds='one operation per harness plus a 6-operation program; every operand kind; all values and seeds arbitrary reals')
PLAN['P16'] = dict(tus=[dict(src='h_cfun.cpp', variants=['default'])], bounds='one function application per harness, every operand kind of pow and polar; all arguments (off the branch points), directions and seeds arbitrary reals')
PLAN['P19'] = dict(tus=[dict(src='h_ieee.cpp', variants=['default'])], bounds='one operation per harness plus two programs of up to 10 operations; every double (infinities, NaNs, signed zeros, subnormals), library functions uninterpreted')
PLAN['P20'] = dict(tus=[dict(src='h_smooth.cpp', variants=['default'])], bounds='one call per harness, every operand kind; arguments, cut-offs > 0, seeds and directions arbitrary reals, second derivatives off the joins')
PLAN['P21'] = dict(tus=[dict(src='h_thread.cpp', variants=['default', 'reuse']), dict(src='h_race.cpp', variants=['tsan', 'tsanreuse'])], bounds='two threads with all interleavings of 4 steps each (thorough: three threads), activation histories of 3 (thorough 4) steps over 3 threads and 2 tapes, all hand-over orders; five pairs of concurrent computations; all values and seeds arbitrary reals')
PLAN['P22'] = dict(tus=[dict(src='h_std.cpp', variants=['default', 'reuse'])], bounds='containers of 3 elements, 19 algorithms, 9 container operations; every double or in-range value for hashes and conversions, all 32/64-bit ints for construction')
PLAN['P23'] = dict(tus=[dict(src='h_mem.cpp', variants=['default', 'reuse', 'chunk2', 'chunkreuse'])], bounds='ownership histories of 3 (thorough 4) of 8 kinds of steps, every failing allocation of a recording that spans up to 6 chunks, callbacks nested up to 2; all values arbitrary reals')
_F = dict(defs=['-DSX_FLOAT'], variants=['default'], tol='1/10000', ctol='1/1000000')   # constants are rounded to single precision
PLAN['P24'] = dict(tus=[dict(_F, src=s, match=r'^h_(?!sqrt_axis|maxmin|pow_neg_rev|(scalar_(fwd|rev)$))') for s in ('h_unary.cpp', 'h_binary.cpp', 'h_mixed.cpp', 'h_expr.cpp', 'h_copy.cpp', 'h_partial.cpp', 'h_chkpt.cpp', 'h_slots.cpp', 'h_life.cpp', 'h_smooth.cpp', 'h_sweep.cpp', 'h_high.cpp', 'h_jac.cpp', 'h_hess.cpp', 'h_carith.cpp', 'h_cfun.cpp', 'h_mem.cpp')],
                   bounds='those of P01-P08, P12-P18, P20 and P23, in the default configuration; complex square roots on the axis, the negative base of pow and default cut-offs are excluded (constants rounded to single precision)')
