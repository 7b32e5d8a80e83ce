"""What each check builds and runs."""
from run import Bin, ASAN
def vec(*parts): return [("eng/vec.cpp", ["PART=%d" % p]) for p in parts]
def OPT(n): return Bin("opt", [("eng/opt.cpp", [])], n)
def VAR(n): return Bin("var", [("eng/var.cpp", ["PART=0"])], n)
def ARR(n, *parts): return Bin("arr", [("eng/arr.cpp", ["PART=%d" % p]) for p in parts or (0, 1, 2, 3, 4)], n)
SAN_NOTE = ["element types registered by the monitors stand for all element types", "g++ 13 / clang++ 18 with libstdc++ on x86-64", "the sanitizers and the allocation ledger report every invalid access that happens"]
STR = [("eng/str.cpp", [])]
PROPS = {
 "C01": dict(level="exploration", bins=[Bin("vec", vec(0, 1, 2, 5, 6, 7, 8, 9), 8000)],
   rule="random operation histories on a pool of three vectors per element type, compared after every operation with a sequence model; a state is counted when its (operation, element type, sizes, capacities, boundary values) combination is new", assumptions=SAN_NOTE),

 "C02": dict(level="fault_enumeration", bins=[Bin("vec", vec(0, 1, 2), 3500)],
   rule="", assumptions=SAN_NOTE),
 "C03": dict(level="exploration", bins=[Bin("str", [("eng/str.cpp", [])], 8000)], rule="", assumptions=SAN_NOTE),
 "C04": dict(level="fault_enumeration", bins=[Bin("str", [("eng/str.cpp", [])], 3000)], rule="", assumptions=SAN_NOTE),
 "C05": dict(level="exploration", bins=[Bin("sizes", [("eng/sizes.cpp", [])], 12000)], rule="", assumptions=SAN_NOTE),
 "C06": dict(level="exploration", bins=[Bin("vec", vec(0, 1), 3000), Bin("str", [("eng/str.cpp", [])], 3000)], rule="", assumptions=SAN_NOTE),
 "C07": dict(level="exploration", bins=[Bin("vec", vec(0, 2), 2500), OPT(2000), VAR(1500), ARR(3000), Bin("str", STR, 3000)], rule="", assumptions=SAN_NOTE),
 "C08": dict(level="exploration", bins=[Bin("vec", vec(0), 3000), OPT(2500), VAR(2000), ARR(4000, 0, 1)], rule="", assumptions=SAN_NOTE),
 "C09": dict(level="exploration", bins=[OPT(8000)], rule="", assumptions=SAN_NOTE),
 "C10": dict(level="exploration", bins=[Bin("var", [("eng/var.cpp", ["PART=0"]), ("eng/var.cpp", ["PART=3"])], 7000), Bin("wide", [("eng/var.cpp", ["PART=1", "WIDE=132"]), ("eng/var.cpp", ["PART=2"])], 400, cxx="clang++", flags=["-O0"], tiers=("quick",)),
   Bin("wide254", [("eng/var.cpp", ["PART=1", "WIDE=254", "WIDE_COPY"]), ("eng/var.cpp", ["PART=2"])], 400, cxx="clang++", flags=["-O0"], tiers=("thorough",))], rule="", assumptions=SAN_NOTE),
 "C11": dict(level="fault_enumeration", bins=[OPT(2500), VAR(3000)], rule="", assumptions=SAN_NOTE),
 "C21": dict(level="exploration", bins=[ARR(10000)], rule="", assumptions=SAN_NOTE),
 "C27": dict(level="exploration", bins=[Bin("vec", vec(1, 3, 4), 3000), ARR(2000, 0)], rule="", assumptions=SAN_NOTE),
}
def CMP(n): return Bin("cmp", [("eng/cmp.cpp", [])], n)
PROPS["C12"] = dict(level="exploration", bins=[CMP(8000)], rule="", assumptions=SAN_NOTE)
def BITS(what, n): return Bin("bits", [("eng/bits.cpp", ["WHAT=%d" % what, "PART=%d" % p]) for p in range(4)], n)
PROPS["C13"] = dict(level="exploration", bins=[BITS(13, 6000)], rule="", assumptions=SAN_NOTE)
PROPS["C14"] = dict(level="exploration", bins=[BITS(14, 8000)], rule="", assumptions=SAN_NOTE)
PROPS["C15"] = dict(level="exploration", bins=[BITS(15, 2500), Bin("hash", [("eng/hash.cpp", [])], 4000)], rule="", assumptions=SAN_NOTE)
PROPS["C16"] = dict(level="exploration", bins=[BITS(16, 2000), Bin("access", [("eng/access.cpp", [])], 6000)], rule="", assumptions=SAN_NOTE)
PROPS["C17"] = dict(level="exploration", bins=[Bin("views", [("eng/views.cpp", [])], 6000)], rule="", assumptions=SAN_NOTE)
PROPS["C18"] = dict(level="exploration", bins=[Bin("refs", [("eng/refs.cpp", [])], 6000)], rule="", assumptions=SAN_NOTE)
PROPS["C19"] = dict(level="exploration", bins=[Bin("fnref", [("eng/fnref.cpp", [])], 6000)], rule="", assumptions=SAN_NOTE)
PROPS["C20"] = dict(level="exploration", bins=[Bin("iters", [("eng/iters.cpp", ["PART=%d" % p]) for p in range(7)], 1500)], rule="", assumptions=SAN_NOTE)

# ------------------------------------------------------------------ separately compiled modules (C22, C23)
HOSTFLAGS = ["-O1", "-g1", "-fno-omit-frame-pointer"]
def modules(kinds):
    """kinds: [(name, compiler, std, flags, header snapshot or None for the working tree)]"""
    def prep(run, work, bins, pool, configs):
        import os
        wrap = run["WRAP"]; futs = []; sos = []
        for name, cxx, std, flags, ref in kinds:
            inc = os.path.join(run["VERIF"], ref) if ref else run["INC"]
            fl = flags + ["-fPIC", "-fvisibility=hidden", "-fvisibility-inlines-hidden"] + (["-fno-gnu-unique"] if cxx == "g++" else [])
            objs = [os.path.join(work, "%s-%d.o" % (name, i)) for i in range(4)]
            for i in range(3): futs.append(pool.submit(run["compile_one"], cxx, std, fl, "eng/mod.cpp", ["PART=%d" % i], objs[i], inc))
            futs.append(pool.submit(run["compile_one"], cxx, std, fl, "rt/modrt.cpp", ["WORLD_MODEL_ONLY"], objs[3], inc))
            sos.append((name, cxx, objs))
        first = None
        for f in futs:
            try: f.result()
            except Exception as e:
                if first is None or isinstance(e, run["NoVerdict"]): first = e
        if first: raise first
        ver = os.path.join(work, "mod.ver")
        open(ver, "w").write("{ global: mod_api; local: *; };")
        def link(x):
            name, cxx, objs = x; so = os.path.join(work, name + ".so")
            r = run["sh"]([cxx, "-shared", "-o", so, *objs, *wrap, "-Wl,-Bsymbolic", "-Wl,--version-script=" + ver])
            if r.returncode: raise run["NoVerdict"]("linking a module failed: " + r.stdout[:2000])
            return so
        paths = list(pool.map(link, sos))
        for b in bins: b.env = dict(b.env, MODS=":".join(paths))
        configs.extend("module %s: %s -std=c++%s %s %s" % (n, c, s, " ".join(f), "(published headers)" if r else "(working tree)") for n, c, s, f, r in kinds)
    return prep
ABI_NOTE = ["x86-64 Linux, g++ 13 and clang++ 18 with libstdc++ 13", "the 27 registered types stand for all instantiations", "every allocation of a module goes through the malloc family or the replaceable operators new and delete"]
def ABI(n): return Bin("abi", [("eng/abi.cpp", [])], n, flags=HOSTFLAGS, heap=False, link=["-rdynamic"])
PROPS["C22"] = dict(level="exploration", bins=[ABI(12000)], prep=modules([("current-gcc", "g++", "17", ["-O1"], None), ("current-clang", "clang++", "17", ["-O0"], None), ("published", "g++", "17", ["-O0", "-DWORLD_PUBLISHED"], "ref/base")]), rule="", assumptions=ABI_NOTE)
PROPS["C23"] = dict(level="exploration", bins=[ABI(16000)], prep=modules([("gcc-O0-17", "g++", "17", ["-O0"], None), ("gcc-O2-20", "g++", "20", ["-O2", "-DNDEBUG"], None), ("gcc-O3-23", "g++", "23", ["-O3"], None), ("clang-O0-20", "clang++", "20", ["-O0"], None), ("clang-O2-17", "clang++", "17", ["-O2", "-DNDEBUG"], None), ("clang-Os-23", "clang++", "23", ["-Os"], None)]), rule="", assumptions=ABI_NOTE)

PROPS["C28"] = dict(level="exploration", bins=[Bin("deep", [("eng/deep.cpp", ["PART=%d" % p]) for p in range(5)], 5000)], rule="", assumptions=SAN_NOTE)

TSAN = ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=thread"]
CONC = Bin("conc", [("eng/conc.cpp", [])], 3000, flags=TSAN, heap=False, link=["-pthread"])
PROPS["C24"] = dict(level="exploration", bins=[CONC, CONC.variant("conc-clang", cxx="clang++", flags=TSAN + ["-O2"]), CONC.variant("conc-asan", flags=list(ASAN))], rule="", assumptions=SAN_NOTE)
PLAIN = ["-g1", "-fno-omit-frame-pointer"]
FILL = Bin("fill-O2", [("eng/fill.cpp", [])], 8000, flags=PLAIN + ["-O2"])
MEMCHECK = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--track-origins=yes", "--leak-check=no", "--child-silent-after-fork=yes"]
PROPS["C26"] = dict(level="exploration", bins=[FILL, Bin("fill-O0", [("eng/fill.cpp", [])], 4000, cxx="clang++", flags=PLAIN + ["-O0"]), Bin("fill-memcheck", [("eng/fill.cpp", ["UNDER_MEMCHECK"])], 240, flags=PLAIN + ["-O1"], heap=False, wrapper=MEMCHECK),
  FILL.variant("fill-clang-O3", cxx="clang++", flags=PLAIN + ["-O3"], std="20")], rule="", assumptions=SAN_NOTE)
OOM = Bin("oom", [("eng/oom.cpp", [])], 12000)
PROPS["C25"] = dict(level="fault_enumeration", bins=[OOM], rule="", assumptions=SAN_NOTE)
for _p, _n in (("C01", 10), ("C03", 15), ("C12", 1), ("C13", 1), ("C15", 1), ("C16", 5), ("C17", 1), ("C20", 2), ("C21", 1)):
    PROPS[_p]["bins"].append(Bin("huge", [("eng/huge.cpp", [])], _n, flags=["-O2", "-g1"], heap=False, shards=3, thorough_x=3, env={"MON_CPU_S": "300"}))
for _p in ("C01", "C08", "C09", "C10", "C18", "C21"): PROPS[_p]["bins"].append(Bin("args", [("eng/args.cpp", [])], 1500))
# ------------------------------------------------------------------ what each check is (MANIFEST.json, evidence)
MODEL = "runtime monitoring under ASan+UBSan: real code driven by seeded random histories, every step judged by an executable reference model"
def about(p, technique, rule, note):
    if p in PROPS: PROPS[p].update(technique=technique, rule=rule, note=note)
_N = " Held means: on the histories executed (see the evidence file); nothing is claimed about paths they do not drive."
about("C01", MODEL, "a case is one random history (5-60 operations) on a pool of vectors of one element type (int, std::string, tracked objects of several sizes and alignments) with arguments biased to boundaries and aliases; a state is distinct when its (operation, element type, sizes, capacities, position) combination is new", "Oracle: std::vector<int> of element identities, compared after every operation together with returned iterators and references." + _N)
about("C02", "fault injection: every allocation, element construction and iterator step of an operation is made to throw in turn; before/after states compared by a monitor", "a case picks an operation and state and repeats it with the fault at step 0, 1, 2, ... until it succeeds; distinct (operation, fault kind, step, sizes, capacity)", "Fault points are enumerated per operation instance; the operations and states are random. The allocation ledger and object registry check leaks." + _N)
about("C03", MODEL, "a case is one random history on a pool of strings with lengths concentrated around the inline/heap boundary and characters including NUL and negative ones; distinct (operation, sizes, storage forms, positions)", "Oracle: std::string, plus the terminator and returned positions." + _N)
about("C04", "fault injection: every allocation and iterator step of a string operation is made to throw in turn; before/after states compared by a monitor", "as C02, on strings", "As C02." + _N)
about("C05", "runtime monitoring: hostile size arguments under ASan+UBSan with an allocator monitor that refuses what no machine could provide", "a case is one operation with one size argument drawn around every power of two, max_size and wrap-around point; distinct (operation, size class, state)", "Sizes are sampled at the arithmetic boundaries, not enumerated." + _N)
about("C06", "runtime monitoring: buffer addresses, capacities and allocation counts recorded around every operation and checked against the growth rules", "random histories as C01/C03; distinct (operation, sizes, capacities)", "The growth bound is checked as a number of allocations over appends of up to thousands of elements." + _N)
about("C07", "runtime monitoring: element types that register every construction, destruction and use; allocation ledger for every block", "random histories, with and without injected faults; distinct (operation, type, state)", "The registry sees every constructor, destructor, assignment and read of the element types used; the ledger sees every allocation." + _N)
about("C08", "runtime monitoring: element types that record every copy, with the value copied", "random histories; distinct (operation, type, state)", "A copy is judged by what was copied: relocations and rvalue operations may copy nothing; lvalue arguments may be copied." + _N)
about("C09", MODEL, "random histories on pools of optionals of several payload types; distinct (operation, type, engagement of the participants)", "Oracle: engagement flag and value identity." + _N)
about("C10", MODEL, "random histories on pools of variants (small, and 132 alternatives; 254 in the thorough tier); distinct (operation, alternatives involved)", "Oracle: alternative index and value identity; all accessors compared after each step." + _N)
about("C11", "fault injection: every constructor and copy of the new value is made to throw in turn; before/after states compared by a monitor", "as C02, on optionals and variants", "As C02." + _N)
about("C12", "runtime monitoring: all six operators of pairs and triples of values built through different histories, against the order of the model values", "a case builds 2-6 values near each other through random routes; distinct (type, sizes, outcome)", "Equal values are deliberately built through different histories, storage forms and in patterned memory." + _N)
about("C13", MODEL, "random histories on bitsets of 20 sizes (0-1001, on both sides of byte boundaries); distinct (size, operation, shift class, bit pattern)", "Oracle: std::vector<bool>. Time of shifts is bounded by a CPU budget." + _N)
about("C14", "runtime monitoring: bitset text written and read back through monitored streams, against std::bitset and an explicit grammar", "random texts (digits, blanks, garbage, EOF at every place) for each size; distinct (size, text class, outcome)", "Stream position, state bits and value are compared." + _N)
about("C15", "runtime monitoring: hashes of equal values reached through different histories and of single-edit neighbours, compared by an oracle", "a case builds one value several ways and all or many of its one-edit neighbours; distinct (type, size, edit)", "A change of hash for every single edit is what the 64-bit FNV-1a construction guarantees; the check needs no assumption about collisions beyond single edits." + _N)
about("C16", "runtime monitoring: checked accessors called with every index class up to the largest size_t and in every state, constness and value category", "a case is one object with all indices near 0, size, powers of two and the maximum; distinct (type, accessor, index class, state)", "The designated element is identified by address." + _N)
about("C17", "runtime monitoring: addresses, lengths and contents of views compared with the range given, allocations and copies counted", "random ranges and histories of narrowing; distinct (construction, operation, length, offset)", "Oracle: pointer arithmetic on the original range." + _N)
about("C18", "runtime monitoring: binding histories of references judged by a model of addresses; visitors logged", "random histories of binding, rebinding, copying and writing; distinct (operation, bindings)", "Objects with an overloaded operator& and base class subobjects are included." + _N)
about("C19", "runtime monitoring: every call logged by the callable itself and matched exactly once with the call made", "random histories of binding, copying and calling, with every argument and result kind; distinct (operation, targets)", "The log records object address, overload, argument address and value category." + _N)
about("C20", "runtime monitoring: iterator operations on every (pair of) position(s) against index arithmetic over element addresses; algorithms against the same algorithm on a plain array", "random contents; all pairs of positions for up to 24 elements, a sample beyond; distinct (container, size)", "Oracle: element addresses." + _N)
about("C21", MODEL, "random histories on pools of arrays and tuples of several lengths and element types; distinct (operation, type, length)", "Oracle: sequences of element identities." + _N)
about("C22", "runtime monitoring: objects of separately compiled modules (working tree by two compilers, and the published headers) are decoded, written and destroyed by a hand-written implementation of the published layout", "a case is one history (6-24 operations) on three objects of one of 27 types, each operation executed by a randomly chosen module or by hand; distinct (type, module, operation, value size)", "Oracle: rt/golden.hpp, which shares no code with the library, and a module compiled from the frozen original headers." + _N)
about("C23", "runtime monitoring: objects handed between six separately compiled modules (two compilers, six optimisation levels, three language versions) under an allocation ledger that knows which module owns each block", "a case is one history (6-24 operations) on three objects of one of 27 types, each operation executed by a randomly chosen module; distinct (type, module, operation, value size)", "Each module has its own malloc and operators new/delete, which report to a ledger with red zones and quarantine. Values are compared with a model on std types after every operation, read by another module." + _N)
about("C27", "runtime monitoring: address of every element checked after every operation, construction addresses checked by the object registry", "random histories as C01 and C21 for elements with alignments 1-4096 and sizes that are not powers of two; distinct (operation, type, sizes)", "All sites where an element is constructed report their address." + _N)
about("C24", "ThreadSanitizer on generated multi-threaded programs (own objects, copies of one object, distinct elements of one container, shared const objects), with every thread's observations compared with a single-threaded run", "a case starts 2-6 threads together, each running up to 24 steps with injected yields and sleeps; a state is a distinct global order of the steps as recorded by a relaxed ticket counter", "Race detection is by happens-before, so that the racing accesses need not collide in the run that is observed; programs cover every operation of every template (rt/programs.hpp). The threads synchronise only through relaxed atomics, which order nothing." + _N)
about("C25", "fault injection: operations run while the allocator refuses everything; a monitor judges completion, exceptions and results against a model on std types", "a case builds objects, exhausts memory and performs up to 12 operations; distinct (type, operation, outcome)", "Operations that need no memory are enumerated in eng/oom.cpp; each must complete with the model's result. The others must complete or throw std::bad_alloc or std::length_error. std::terminate ends the process and is reported." + _N)
about("C26", "runtime monitoring: the same seeded program over five different fill patterns of object storage, heap and stack must produce the same trace of observations; a sample of the programs under valgrind memcheck, with every observed value tested for being defined", "a case is one program (or all const operations, or all default values) repeated over the patterns 00, FF, A5, 01 and a random one; distinct traces", "Object storage is filled before and after each object's life, heap blocks when allocated and freed, the stack before each call; built with -O2 and -O0 by two compilers." + _N)
about("C28", MODEL, "a case is one history (8-40 operations) on nested values of one of 14 types (vectors, optionals, variants, arrays of each other and of strings), including values made from parts of themselves and copies mutated at depth; distinct (type, operation, shape)", "Oracle: the same composition of std types driven by the same choices, compared in full after each operation; plus address sanitizer and a leak check when everything is gone." + _N)
NOT_APPLICABLE = {
 "C29": "inclusion of a header is decided by the compiler alone: there is no execution to observe (it was tried once by hand while fixing the headers; the engines include the headers, but a run decides nothing here)",
 "C30": "constant evaluation happens inside the compiler; a monitor or sanitizer observes only executions of the built program (the run-time results of the same operations are decided by C13, C16-C21)",
}
