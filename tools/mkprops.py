import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,obs=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
p("C01","GEMM computes the exact integer matrix product",
 "For every matrix shape, storage order, stride and operand contents, each result entry produced by a matrix multiplication with an empty output pipeline equals the sum over the depth of (lhs entry + lhs offset) * (rhs entry + rhs offset), evaluated exactly modulo 2^32. A multiplication in which some dimension is zero is a no-op.",
 ["inputs","configurations"],"all rows, depth, cols >= 0, all 8-bit contents, all offsets, all four storage orders, all strides, every supported instruction set",
 "The tests compare some hundred fixed shapes on random data; blocking, tails, padding and accumulation interact for shapes and values never sampled.",
 ["public/gemmlowp.h","internal/dispatch_gemm_shape.h","internal/single_thread_gemm.h","internal/compute.h","internal/pack.h","internal/unpack.h","internal/kernel_reference.h","internal/kernel_sse.h","internal/kernel_avx.h","internal/kernel_neon.h"],
 [("pack / compute / unpack over L2 and L1 blocks","internal/single_thread_gemm.h"),("register-block dot product kernels","internal/kernel_*.h"),("offset correction terms","internal/unpack.h")],["result matrix after the call"])
p("C02","Per-row and per-column offsets apply to their own row and column",
 "When the lhs or rhs offset is a vector, every result entry uses exactly the lhs offset of its own row and the rhs offset of its own column, for every shape, blocking and thread count.",
 ["inputs","configurations"],"all offset vectors, shapes, block sizes and thread counts",
 "Tests use mostly constant offset vectors and few block boundaries, so an entry taken from a neighbouring block is not distinguished.",
 ["internal/unpack.h","internal/single_thread_gemm.h","internal/multi_thread_gemm.h","internal/dispatch_gemm_shape.h"],
 [("offset vector blocks passed to UnpackResult","internal/single_thread_gemm.h, internal/multi_thread_gemm.h"),("LoadForBroadcasting of offsets","internal/unpack.h")],["result matrix"])
p("C03","Only the result entries are written and only operand entries are read",
 "A matrix multiplication writes exactly the rows*cols entries of the result view, never the stride padding around them nor the operands, and its result does not depend on any byte outside the operands' entries.",
 ["inputs","configurations"],"all shapes, strides, storage orders and block positions",
 "Tests allocate exact-size buffers without guard bytes and look only at the result entries.",
 ["internal/pack.h","internal/unpack.h","public/map.h","internal/output*.h"],
 [("tail handling in PackRun/PackSideBlock","internal/pack.h"),("8/4/1 tails in UnpackResult","internal/unpack.h")],["bytes surrounding the result view"])
p("C04","Multi-threaded result equals single-threaded result",
 "For every maximum number of threads, the result of a multiplication is identical to the single-threaded result: the rows are split into consecutive disjoint ranges that cover every row exactly once, and each range is computed as it would be alone.",
 ["inputs","configurations","schedules"],"all shapes and thread counts",
 "Tests run a few thread counts on a few shapes large enough to be split; range boundaries are not enumerated.",
 ["internal/multi_thread_gemm.h"],
 [("row partition","MultiThreadGemm in internal/multi_thread_gemm.h"),("per-range task","GemmWithPackedRhsTask::Run")],["result matrix"])
p("C05","Block sizes are legal for every problem size and cache size",
 "For every problem size, thread count and cache configuration, the chosen cache-block sizes are positive, are multiples of the kernel's register block, and the blocks together cover the whole problem, so that blocking never drops, duplicates or overruns any part of the product.",
 ["inputs","configurations"],"all rows, depth, cols >= 1, threads >= 1, L1/L2 byte budgets and rhs factors",
 "Tests use one cache configuration per build and some shapes; arithmetic corner cases of the size search are not reached.",
 ["internal/block_params.h","internal/common.h"],
 [("FindL2BlockSizes / FindL1BlockSizes","internal/block_params.h"),("RoundUp / CeilQuotient","internal/common.h")],["block sizes used by the computation"])
p("C06","Output stages compute their documented function at every entry",
 "Each output stage (bias addition, quantize-down, fixed-point scaling, clamp, saturating casts and their compositions, with scalar or per-channel parameters) maps the 32-bit accumulator of each entry to its documented value: wrapping 32-bit arithmetic, right shifts rounding to nearest with ties away from zero, per-channel parameters taken from the entry's own row or column. The value does not depend on where the entry falls in a register block, and no other destination element is written.",
 ["inputs","configurations"],"all accumulators and stage parameters, all register block shapes, both destination orders, every supported instruction set",
 "Tests use a handful of parameters on in-range data; saturation, ties, and each of the dozens of register-block specialisations per instruction set are not enumerated.",
 ["internal/output.h","internal/output_sse.h","internal/output_avx.h","internal/output_neon.h","public/output_stages.h","internal/simd_wrappers*.h"],
 [("OutputStageEvalImpl","internal/output.h"),("StoreFinalOutput, saturating casts","internal/output_*.h"),("LoadForBroadcasting / Broadcast*","internal/simd_wrappers*.h")],["destination block"])
p("C07","The worker pool runs every task exactly once before the call returns",
 "For every number of tasks, every interleaving of the threads and any history of earlier calls, each task handed to the worker pool runs exactly once, with scratch memory that no concurrently running task uses, and has finished with its effects visible to the caller before the call returns. Tasks owned by the pool are destroyed exactly once, after they ran. No worker ever misses a wake-up, and the pool can be reused and shut down at any time between calls.",
 ["schedules","histories","inputs"],"all task counts, all interleavings of caller and worker threads, all histories of pool calls",
 "Tests run a few interleavings on this machine; lost wake-ups and missing ordering need a preemption between two specific instructions or a weaker memory model.",
 ["internal/multi_thread_gemm.h"],
 [("Worker state machine, StartWork, ThreadFunc","internal/multi_thread_gemm.h"),("BlockingCounter Reset / DecrementCount / Wait","internal/multi_thread_gemm.h"),("WorkersPool::Execute / CreateWorkers / destructor","internal/multi_thread_gemm.h")],["which tasks ran, when Execute returned, scratch allocators in use"])
p("C08","Scalar fixed-point arithmetic is exact",
 "Every scalar fixed-point primitive on 16-bit and 32-bit raw values returns the documented mathematical value for all operands: saturating results clamp exactly at the type limits, the doubling high multiply rounds to nearest, divisions by powers of two round to nearest with ties away from zero, half sums round ties up, and comparisons yield all-ones or all-zeros masks.",
 ["inputs"],"all operand values, all exponents",
 "Tests sample random values and some extremes; single-value corner cases (both operands minimal, ties, one-off saturation) are easily missed.",
 ["fixedpoint/fixedpoint.h"],
 [("SaturatingRoundingDoublingHighMul, RoundingDivideByPOT, SaturatingAdd, RoundingHalfSum, SaturatingRoundingMultiplyByPOT, Rescale","fixedpoint/fixedpoint.h")],["return values"])
p("C09","SIMD fixed-point arithmetic agrees with scalar lane by lane",
 "On every supported instruction set, each lane of every vector fixed-point primitive, and of the functions built from them (products, rescaling, exp, tanh, logistic), equals the result of the scalar code on that lane's operands, for all lane values, and the result of one lane never depends on another lane, except for the whole-vector tests all/any which combine exactly all lanes.",
 ["inputs","configurations"],"all lane values on SSE4.1, AVX2, ARMv7 NEON and AArch64 NEON",
 "Tests feed random vectors and compare few extremes; saturation of one lane while the others are ordinary is not enumerated.",
 ["fixedpoint/fixedpoint_sse.h","fixedpoint/fixedpoint_avx.h","fixedpoint/fixedpoint_neon.h"],
 [("specialisations for __m128i, __m256i, int32x4_t, int16x8_t","fixedpoint/fixedpoint_{sse,avx,neon}.h")],["return values"])
p("C10","Fixed-point exp, tanh and logistic are accurate for every input",
 "For every raw input of the 32-bit and 16-bit fixed-point types with 0 to 6 integer bits, exp on non-positive values, tanh and logistic return the exact mathematical value up to a fixed error, in units of the result's last bit: exp 3 + 650*exp(x) (32-bit) or 2 (16-bit), tanh 430 or 13, logistic 215 or 7, the helper exp on [-1/4,0) 500 or 2, (1-x)/(1+x) 130 or 12, 1/(1+x) 65 or 6. exp(0) is exactly One, tanh(0) exactly 0, logistic(0) exactly one half; tanh(-x) = -tanh(x) and logistic(-x) = One - logistic(x) hold bit for bit (x not the most negative value).",
 ["inputs"],"all 2^32 (2^16) raw inputs, 0 to 6 integer bits",
 "Tests sample a thousand values per type with looser tolerances; one wrong constant of the barrel shifter or a wrong clamp affects a narrow input range only.",
 ["fixedpoint/fixedpoint.h"],
 [("Taylor polynomial, barrel shifter and clamp of exp","fixedpoint/fixedpoint.h"),("Newton-Raphson division in tanh and logistic","fixedpoint/fixedpoint.h")],["return values"])
p("C11","Scratch memory blocks are disjoint, aligned and large enough, whatever the history",
 "For every sequence of reservations within one commit cycle and whatever the allocator was used for before, each reserved block, once committed, starts at a cache-line aligned address, provides at least the reserved number of bytes inside the memory actually allocated, and overlaps no other block of the same cycle. Storage is never freed while committed nor leaked when it grows, and reusing an allocator gives the same guarantees as a fresh one.",
 ["inputs","histories"],"all reservation sizes, all numbers of blocks up to the maximum, all prior commit cycles",
 "Tests allocate a few sizes through the multiplication only; overlap or undersized growth shows up only for particular size sequences.",
 ["internal/allocator.h","internal/common.h"],
 [("Reserve / Commit / GetPointer / Decommit","internal/allocator.h"),("RoundUp, RoundUpToPowerOfTwo","internal/common.h")],["block addresses"])
p("C12","The EightBitIntGemm interface computes the caller's product whatever was called before",
 "For all transposition flags, shapes and leading dimensions, EightBitIntGemm multiplies exactly the caller's matrices (column-major unless transposed) with the caller's offsets and parameters: the uint8 variant quantizes as documented, the float variant stores each accumulator converted to float times the scale at its own place and nothing else. The outcome does not depend on earlier calls, on SetMaxNumThreads or on FreePersistentResources, an empty product leaves the result untouched, and the shared global state is used only under its lock.",
 ["inputs","histories"],"all argument combinations, all histories of calls to the interface",
 "Tests use packed matrices, one parameter set per shape and no histories of mixed calls; scratch reuse and stride mistakes stay unseen.",
 ["eight_bit_int_gemm/eight_bit_int_gemm.cc","eight_bit_int_gemm/eight_bit_int_gemm.h"],
 [("EightBitIntGemm / EightBitIntGemmImpl / EightBitIntGemmInt32Impl","eight_bit_int_gemm/eight_bit_int_gemm.cc"),("Scratch and the global context","eight_bit_int_gemm/eight_bit_int_gemm.cc")],["result matrix"])
open("/verif/properties.jsonl","w").write("\n".join(json.dumps(x) for x in P)+"\n")
