"""Regenerates MANIFEST.json from the list below (checks claimed) and properties.jsonl."""
import json
TECH="contract-based deductive verification: VCs from clang IR of the real code (irv), discharged by z3/cvc5"
W=" What the contracts do not reach is searched natively within a time bound (labelled bounded in the evidence)."
C={
 "C01":"Composition of contracts proved for all sizes: dispatch, single- and multi-threaded drivers, packing, compute loops, all default kernels (including inline assembly), unpacking. Trusts clang, irv (IR, intrinsic and instruction semantics) and the solvers; sizes below 2^31 elements."+W,
 "C02":"Offset routing from the public entry points through every driver to UnpackResult and its leaves proved for all sizes."+W,
 "C03":"Write frames and read extents proved for all sizes through drivers, packing and unpacking leaves."+W,
 "C04":"Row partition, task contents, HowManyThreads and the tasks' own work proved for all sizes and thread counts; the pool is used through the contract proved by C07."+W,
 "C05":"BlockParams::Init proved for all sizes and cache budgets within int range."+W,
 "C06":"Every obligation is discharged for all accumulators and stage parameters, per register-block shape and instruction set; callees SaturatingRoundingDoublingHighMul and RoundingDivideByPOT are used through the contracts proved by C08/C09. Trusts clang, irv (IR and intrinsic semantics) and the solvers.",
 "C08":"All obligations discharged bit-precisely for all operands. Trusts clang, irv and the solvers.",
 "C09":"All obligations discharged bit-precisely for all lane values on SSE4.1, AVX2, AArch64 and ARMv7. Trusts clang, irv's intrinsic models and the solvers.",
 "C10":"Each function's term, over the primitives' contracts (proved in the same run), is bounded against the exact function by interval Taylor models covering all 32-bit inputs, and evaluated on all 16-bit inputs. Trusts clang, irv, and double arithmetic within the stated slack.",
 "C07":"Thread-modular proof of the worker pool protocol (worker, counter, pool, destructor) for all task counts and interleavings; pthreads, the C++ memory model and new/delete are modelled by contract."+W,
 "C11":"Every commit cycle of up to kMaxBlocks blocks of any size, on a fresh or a used allocator, with posix_memalign/free modelled."+W,
 "C12":"All argument combinations and all states of the global context and scratch memory; Gemm/GemmWithOutputPipeline by contract."+W,
}
NA={}
props=[json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
try:
    exec(open("/verif/tools/manifest_more.py").read())
except FileNotFoundError: pass
m=dict(version=1,setup_cmd="python3-vt -c 'import z3'",
 checks=[dict(property=p,quick_cmd="python3-vt check.py "+p,thorough_cmd="VERIF_TIER=thorough python3-vt check.py "+p,
   evidence_file="evidence/%s.json"%p,technique=TECH,level="proof",level_note=C[p]) for p in props if p in C],
 not_applicable=[dict(property=p,reason=NA.get(p,"no check built yet")) for p in props if p not in C],
 notes="No hooks: /repo carries only fix: commits. See DESIGN.md.")
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
