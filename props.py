p('P01', 'Derivatives of unary functions are the mathematical derivative',
  'For every unary mathematical function the library offers and every argument in its domain, the value of the active result equals the plain function and its derivative, in both adjoint and forward mode and with any seed, equals seed times the analytic derivative at that argument; arguments that carry parameters or exponents (smooth_abs, ldexp, frexp, modf, scalbn style) obey the same rule for every parameter value.',
  ['inputs'], 'all arguments in the open domain of each function, all seeds, all integer parameters of the scaling functions',
  'tests evaluate each function at a handful of points with loose tolerances; a wrong branch, sign or factor that agrees at those points is invisible',
  [S+'UnaryMathFunctors.hpp', S+'UnaryFunctors.hpp', S+'UnaryOperators.hpp', S+'UnaryExpr.hpp', S+'MathFunctions.hpp', S+'UnaryOperatorMacros.hpp'],
  'functor objects compute value and local derivative; expression nodes multiply the local derivative into the incoming adjoint and push it to the tape')
p('P02', 'Derivatives of binary operators and functions w.r.t. both operands',
  'For every binary operator and function of two active operands, the value equals the plain operation and the derivatives with respect to the first and the second operand equal the analytic partial derivatives for every pair of operands in the domain and every seed, in both modes, including when both operands are the same variable and on each side of every case distinction.',
  ['inputs'], 'all operand pairs in the domain, all seeds, all branches (comparisons, ties, sign cases)',
  'tests sample few points and mostly one side of case distinctions; two-argument derivative errors away from those points go unnoticed',
  [S+'BinaryFunctors.hpp', S+'BinaryMathFunctors.hpp', S+'BinaryDerivativeImpl.hpp', S+'BinaryExpr.hpp', S+'BinaryOperators.hpp', S+'BinaryOperatorMacros.hpp'],
  'binary functors with derivative_a/derivative_b, selected optimisations that reuse the result value, expression nodes that push both operands')
p('P03', 'Mixing active and passive operands gives the same derivative',
  'When one operand of a binary operation or function is a plain scalar (of any arithmetic type accepted) or a variable that is not recorded, value and derivative are those of the two-active operation with that operand held constant, for every operand value and every seed, on either side of the operation.',
  ['inputs', 'configurations'], 'all operand values, all seeds, scalar on the left or the right, scalars of every arithmetic type (all integer types at their boundary values, double), unregistered active operands',
  'scalar overloads are separate hand-written functors; tests visit each at very few values',
  [S+'UnaryFunctors.hpp', S+'UnaryMathFunctors.hpp', S+'BinaryOperators.hpp', S+'UnaryOperators.hpp', S+'MathFunctions.hpp'],
  'scalar_* unary functors hold the passive operand and implement value and derivative separately from the binary functors')
p('P04', 'Adjoint gradients of programs equal tangents and the true derivative',
  'For a program built from several active statements with reuse of variables, self-assignment, compound assignment, temporaries, copies, containers, branches, and expressions kept in auto variables and evaluated later, the gradient obtained by the adjoint sweep equals the derivatives obtained by forward mode and the analytic derivative of the computed function, for all input values and all seeds.',
  ['programs', 'inputs'], 'all programs of the bounded statement language in the harnesses plus the listed idioms, all input values and seeds, default and slot-reusing tapes',
  'aliasing and ordering errors depend on the combination of statements; the tests fix a small number of programs and points',
  [S+'Literals.hpp', S+'Expression.hpp', S+'Tape.hpp', 'src/Tape.cpp', S+'UnaryExpr.hpp', S+'BinaryExpr.hpp'],
  'assignment evaluates the expression, records operand slots and multipliers, then the left-hand side; compound assignments build expressions over the old value')
p('P05', 'The adjoint sweep computes the exact transposed chain rule of any recording',
  'For any sequence of recorded statements with any multipliers and any operand and result variables, computing adjoints yields for every variable exactly the accumulated chain-rule sum over the recording for any combination of seeds, is linear in the seeds, accumulates into previously set input adjoints, and leaves overwritten results with zero adjoint.',
  ['histories', 'inputs'], 'all tapes within the bounded shape (statements, operands per statement, variables), all multipliers and seeds, all chunk boundary positions',
  'tests check final gradients of fixed formulas; they never enumerate tape shapes nor container chunk boundaries inside the sweep',
  ['src/Tape.cpp', S+'Tape.hpp', S+'TapeContainer.hpp', S+'ChunkContainer.hpp'],
  'statement and operation containers are walked backwards, adjoints are read, reset and distributed to operand slots', [('statement_', 'end of the operands and result slot per statement'), ('multiplier_ / slot_', 'operands of all statements'), ('derivatives_', 'adjoint per slot')])

p('P06', 'Partial sweeps and rolling back give the same adjoints as full sweeps',
  'Sweeping back to any marked position and continuing from there to the start gives the same adjoints as one full sweep; discarding derivatives or recording after a position leaves the earlier recording and the derivatives of earlier variables intact, so that loops which mark, record, sweep to the mark and roll back accumulate exactly the gradient of the whole computation.',
  ['histories', 'inputs'], 'all positions within recordings of bounded length, all multipliers and seeds, all combinations of clear / reset / sweep-to / re-record steps in the harnesses, with and without slot reuse and across storage chunk boundaries',
  'three tests use one fixed loop each; positions, slot order and re-recording after rollback are free parameters',
  ['src/Tape.cpp', S+'Tape.hpp'], 'positions are statement counts; sweep-to walks down to a statement, reset truncates the containers, clear-after truncates the derivatives', [('statement_', 'recording being truncated'), ('derivatives_', 'adjoints kept up to a position'), ('maxDerivative_', 'number of addressable adjoints')])
p('P07', 'Checkpoints and external functions give the gradient of the plain program',
  'A recording containing checkpoint or external-function callbacks, nested to any depth and placed anywhere, yields the gradient of the same program recorded plainly; every callback runs exactly once per sweep, in reverse order of insertion, sees the adjoints of its outputs, and adjoints of variables outside the callback (alive or already destroyed) are not disturbed by variables the callback creates.',
  ['histories', 'programs', 'inputs'], 'callback placement, nesting depth, number and lifetime of surrounding and inner variables within the harness bounds, all values and seeds',
  'tests run two fixed loops and one external function; placement next to destroyed variables or at the ends of the recording is not covered',
  ['src/Tape.cpp', S+'Tape.hpp', S+'CheckpointCallback.hpp'], 'the sweep stops at a callback, truncates the recording, runs it in a nested recording and continues below', [('checkpoints_', 'positions and callbacks'), ('nestedRecordings_', 'stack of recordings'), ('derivatives_', 'adjoints')])
p('P08', 'Live active variables never share derivative storage',
  'At any moment, whatever sequence of creating, copying, moving, swapping, resizing containers of and destroying recorded variables has happened, including inside nested recordings and checkpoint callbacks, no two live variables recorded on a tape use the same derivative storage, and the reported number of live variables is right.',
  ['histories'], 'all register/unregister sequences of the bounded length with arbitrary (symbolic) choice of the variable destroyed, with and without slot reuse, debug and release',
  'the slot recycling lists have many case distinctions (merge, split, end of tape, nested); tests cover a few fixed orders',
  ['src/Tape.cpp', S+'Tape.hpp', S+'ReusableRange.hpp', S+'Literals.hpp'], 'slots are handed out at the end or from a sorted list of free ranges; destroying a variable returns its slot', [('iDerivative_', 'next fresh slot'), ('reusable_ranges_', 'sorted disjoint free ranges'), ('startRange_ / latestRange_', 'positions in that list')])
p('P09', 'Free-slot bookkeeping is exact and storage is reused before the tape grows',
  'With slot reuse enabled, after any sequence of registrations and destructions the reported free slots are exactly those of destroyed variables below the end, grouped in maximal sections, they are handed out again (each once) before the tape grows, and the range arithmetic behind it is right for every 32-bit range.',
  ['histories', 'inputs'], 'all destruction orders of up to 5 (7) variables out of up to 6 (7), mixed with registrations; all 32-bit ranges for the range operations',
  'tests cover a few fixed orders and ranges',
  ['src/Tape.cpp', S+'ReusableRange.hpp'], 'free list of half-open ranges with expand / join / insert', [('reusable_ranges_', 'sorted disjoint free ranges')])
p('P10', 'The recording storage behaves like a plain sequence',
  'The chunked storage used for recordings behaves like a plain growable sequence for every sequence of operations: elements keep their values and order across growth, truncation, reassignment, copying of blocks, iteration and moving, wherever the chunk boundaries fall, no memory outside its allocation is touched and every element is destroyed exactly once.',
  ['histories', 'inputs'], 'all operation sequences of the bounded length, all sizes around the chunk boundaries for chunk sizes 1..4, trivially destructible and other element types',
  'tests use the production chunk size and touch at most one boundary per operation',
  [S+'ChunkContainer.hpp', S+'TapeContainer.hpp', S+'AlignedAllocator.hpp'], 'list of aligned chunks with a current chunk and index', [('chunkList_', 'allocated chunks'), ('chunk_ / idx_', 'append position')])
p('P11', 'Tape activation, moving and error reporting follow the documented contract',
  'At most one tape per type and thread is active: activating a second one raises the documented error and changes nothing, deactivation and destruction affect only the tape concerned, and moving a tape (active or not, freshly built, recording, or with destroyed variables) transfers recording, callbacks and activation so that the computation continues with right gradients. Every misuse that is documented to throw throws the documented exception and leaves the state usable.',
  ['histories', 'fault_sequences'], 'all interleavings of activate / deactivate / move / destroy of up to three tapes within the step bound; all out-of-range slots',
  'the test for moving checks one inactive-free case; sequences of activation and errors are not enumerated',
  [S+'Tape.hpp', 'src/Tape.cpp', S+'Literals.hpp', S+'Exceptions.hpp'], 'thread-local pointer to the active tape, checks on access', [('active_tape_', 'active tape of the thread'), ('currentRec_', 'current recording')])
p('P12', 'Copies, moves and conversions carry value and derivative dependence',
  'Whichever way an active variable is created or assigned - from constants, other variables, temporaries, expressions or moved-from variables, recorded or not, before or after registration, self-assignment included - its value is that of the source, and its derivatives with respect to every recorded variable are exactly those of the source expression; in particular assigning a passive value cuts the dependence, and the source of a copy is unaffected by later changes to the copy and vice versa. Passive operations (no recorded operand, or no active recording) leave the recording alone.',
  ['inputs', 'histories'], 'every combination of recorded / unrecorded source and destination, all construction and assignment forms, all values and seeds',
  'tests cover single assignments of recorded variables, not combinations of recorded and passive operands',
  [S+'Literals.hpp', S+'Expression.hpp', S+'Tape.hpp', 'src/Tape.cpp'], 'copy and move constructors, expression assignment', [('slot_', 'slot or unregistered')])
p('P13', 'A recording keeps meaning the program that was executed',
  'For every sequence of registering inputs, starting recordings, computing, evaluating with different seeds, clearing derivatives, clearing or resetting the tape, and starting again with the same or with other variables, each adjoint evaluation returns the derivatives of the computation executed since the recording was started, uninfluenced by anything recorded, seeded or evaluated before; variables registered as inputs stay inputs, and repeated evaluation with the same seeds returns the same result.',
  ['histories', 'inputs'], 'all histories over the six kinds of steps within the bound, and the documented reuse idioms, for all values and seeds',
  'tests run one recording, or two in the same fixed order',
  ['src/Tape.cpp', S+'Tape.hpp', S+'ReusableRange.hpp'], 'recording reset, adjoint vector handling, input registration', [('derivatives_', 'adjoints'), ('statement_ / multiplier_ / slot_', 'the recording')])
p('P14', 'Higher-order modes return the exact second and third derivatives',
  'Nesting of modes (forward over adjoint, adjoint over forward, forward over forward, adjoint over adjoint, and a third-order composition) yields exactly the second (third) derivatives of every elementary function and of compositions with branches, and value and first derivative agree with the first-order modes, also where intermediate derivatives or adjoints vanish.',
  ['inputs'], 'all values of the arguments (away from the documented singularities) and of the directions and seeds',
  'tests check second derivatives at single points, where no intermediate adjoint vanishes',
  [S+'Literals.hpp', S+'UnaryExpr.hpp', S+'BinaryExpr.hpp', 'src/Tape.cpp', S+'Interface.hpp'], 'nested active types, adjoint sweep on active derivatives')
p('P15', 'Complex arithmetic on active types is exact in value and derivative',
  'Addition, subtraction, multiplication and division of complex numbers with active parts, with every combination of active and passive, complex, real and expression operands, as binary operators and as compound assignments (operands that alias the number or its parts included), give the value of the mathematical operation and its exact derivatives with respect to all real and imaginary parts, in adjoint and in forward mode; access, comparison, negation, conjugation, norm and conversion functions agree with the standard complex type.',
  ['inputs'], 'all values of the parts of the operands, all seeds and directions',
  'tests compare single values, and do not cover aliased operands or all operand combinations',
  [S+'Complex.hpp'], 'specialisations of std::complex for active types')
p('P16', 'Complex functions on active types have exact values and derivatives',
  'Every mathematical function of complex numbers with active parts (exp, log, log10, sqrt, pow with every combination of complex, real, integral, expression, active and passive operands, polar, sin, cos, tan, sinh, cosh, tanh and their inverses, abs, arg, norm) gives the principal value and the exact partial derivatives of both parts with respect to the real and the imaginary part of every operand, in adjoint and in forward mode, in all four quadrants, on the real axis and at zero wherever the function is differentiable there.',
  ['inputs'], 'all values of the parts away from branch points and cuts, every seed and direction, every operand kind',
  'tests compare a few points, derivatives in the first quadrant mostly, and no special points',
  [S+'Complex.hpp'], 'complex functions built from the real ones')
p('P17', 'computeJacobian returns the exact Jacobian for every shape',
  'For every vector function of active variables and every (number of inputs, number of outputs), including none, the Jacobian computed in adjoint mode and in forward mode equals the true Jacobian in the documented layout, for functions which modify their argument, ignore inputs, return an input or a constant, with inputs which already carry derivatives, into caller-provided iterators or returned as vectors, with caller-supplied or internal tape; mismatched dimensions and missing tapes are reported and the tape state after the call is the one before.',
  ['inputs', 'configurations'], 'all shapes within the bound, all values, containers with and without random access, every tape situation',
  'tests check fixed square functions with freshly built inputs', [S+'Jacobian.hpp', S+'TypeTraits.hpp'], 'column-wise forward / row-wise adjoint drivers')
p('P18', 'computeHessian returns the exact symmetric Hessian',
  'For every scalar function of active variables the Hessian computed in forward-over-adjoint and in forward-over-forward mode equals the true Hessian, both agree with each other and are symmetric, for any number of inputs including none, for functions which modify their argument and inputs which already carry derivatives.',
  ['inputs', 'configurations'], 'all values of the inputs, all shapes within the bound, every tape situation',
  'tests check fixed functions at fixed points', [S+'Hessian.hpp', S+'TypeTraits.hpp'], 'second-order drivers')
p('P19', 'Values are those of the same program on plain numbers, bit for bit',
  'Replacing double (float) by an active type never changes a value: every operator, comparison, classification, rounding, scaling and mathematical function of active operands, in every combination of active variable, expression and passive operand and at every nesting level, gives bit for bit the result of the same operation on the plain numbers - for infinities, NaN, signed zeros and subnormals as well - and programs of several operations take the same branches; observing functions record nothing.',
  ['inputs'], 'all bit patterns of all operands, every operand kind on either side',
  'tests compare a few ordinary numbers with a tolerance; a re-associated operation or a replaced comparison is invisible there',
  [S+'UnaryOperators.hpp', S+'BinaryOperators.hpp', S+'UnaryFunctors.hpp', S+'BinaryFunctors.hpp', S+'MathFunctions.hpp', S+'Literals.hpp', S+'Expression.hpp'],
  'expression nodes evaluate the underlying operation; observers and comparisons act on value()')
p('P20', 'Smoothed functions are the documented formulas, consistent at their joins',
  'smooth_abs, smooth_max and smooth_min equal the documented piecewise formula for every argument and every cut-off, coincide with the plain function outside the cut-off zone, are bounded by it on the right side, are continuous with continuous first derivative at the joins, have exact first and second derivatives, and give the same result for passive, active and mixed operands.',
  ['inputs', 'configurations'], 'all arguments, all cut-offs > 0, every combination of passive and active operands (cut-off included), every seed',
  'tests check a few arguments with one cut-off; sides of the joins and mixed overloads are separate code',
  [S+'UnaryMathFunctors.hpp', S+'BinaryMathFunctors.hpp', S+'UnaryOperators.hpp', S+'BinaryOperators.hpp', S+'MathFunctions.hpp', S+'UnaryFunctors.hpp'],
  'separate formulas for plain, scalar and active operands')
p('P21', 'Threads with their own tapes are isolated from each other',
  'Each thread has its own current tape per type: activating, recording, evaluating or failing in one thread never changes activation, recordings, values or derivatives in another, for every interleaving; a tape handed over from thread to thread continues with right derivatives; and computations in two threads on separate tapes (first and higher order, forward, complex, checkpoints, drivers) share no memory that either writes.',
  ['schedules', 'histories', 'inputs'], 'all interleavings of the steps of two (thorough: three) threads, all activation histories of the bounded length, all values; every memory access of the listed pairs of computations',
  'tests run one thread, or threads which do the same thing without looking at overlap',
  [S+'Tape.hpp', 'src/Tape.cpp', S+'Config.hpp.in'], 'active tape pointer is thread-local, all other state belongs to a tape or a variable', [('active_tape_', 'current tape of the thread')])
p('P22', 'Active types behave like the number type in standard containers and algorithms',
  'Active types can replace double in containers and standard algorithms: sorting, searching, accumulating, transforming, rotating, swapping, inserting and erasing give the same values and order as with doubles and carry the exact derivatives along; equal values have equal hashes; conversions truncate like those of the plain number; numeric limits and type traits are those of the underlying type.',
  ['inputs', 'programs'], 'all element values (every order, ties included) for containers of the bounded size; all bit patterns for hash, limits and conversions',
  'tests call few algorithms on fixed sequences',
  [S+'Literals.hpp', S+'StdCompatibility.hpp', S+'TypeTraits.hpp', S+'Interface.hpp'], 'copy, move and swap of active types record statements; std specialisations forward to the value')
p('P23', 'Ownership is exact, and failures leave everything releasable and usable',
  'For every order of creating, moving, clearing and destroying tapes, variables and callbacks, each pushed callback is destroyed exactly once and the others never, no memory leaks and none is used after release; running out of memory at any point of growing a recording, an exception from a callback or a documented error is reported to the caller, loses nothing and leaves tape and variables destructible and usable after clearing; the reported counters and memory equal what was recorded.',
  ['histories', 'fault_sequences'], 'all ownership histories within the step bound, every failing allocation of recordings spanning several chunks, every step of throwing callbacks',
  'tests never fail an allocation or throw from a callback, nor check leaks over histories',
  ['src/Tape.cpp', S+'Tape.hpp', S+'ChunkContainer.hpp', S+'TapeContainer.hpp', S+'AlignedAllocator.hpp', S+'CheckpointCallback.hpp'],
  'tape owns pushed callbacks, containers own chunks', [('callbacks_', 'owned callbacks'), ('chunkList_', 'chunks')])
p('P24', 'Single-precision types obey the same rules',
  'Everything guaranteed for double-precision active types holds for active types, tapes, complex numbers and drivers over float (nested ones included): values, derivatives in every mode, recording, partial sweeps, checkpoints, copies, slots, counters, Jacobians and Hessians are those of the double-precision types up to single-precision rounding.',
  ['inputs', 'configurations'], 'the inputs, histories and programs of the corresponding double-precision properties',
  'the float instantiations are separately compiled code with their own constants and conversions; tests touch them with single values',
  ['src/Tape.cpp', S+'Tape.hpp', S+'Literals.hpp', S+'UnaryMathFunctors.hpp', S+'BinaryMathFunctors.hpp', S+'UnaryFunctors.hpp', S+'Complex.hpp', S+'Interface.hpp'],
  'templates instantiated with float; tape instantiations for float, AReal<float>, FReal<float>')
