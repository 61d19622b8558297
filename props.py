"""Which monitors decide which property, under which builds, with how many cases."""

_W = ["-std=gnu++20", "-g1", "-w"]
_SAN = ["-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
_ASAN_ENV = {"ASAN_OPTIONS": "detect_leaks=1:detect_stack_use_after_return=1:allocator_may_return_null=1", "UBSAN_OPTIONS": "print_stacktrace=1"}
CONFIGS = {
    # weight: how much longer than the first a build takes
    "gasan0": {"cxx": "g++", "flags": _W + ["-O0"] + _SAN, "env": _ASAN_ENV, "weight": 1},
    "gasan1": {"cxx": "g++", "flags": _W + ["-O1"] + _SAN, "env": _ASAN_ENV, "weight": 2},
    "gplain": {"cxx": "g++", "flags": _W + ["-O0"], "weight": 0.6},
    "go2": {"cxx": "g++", "flags": _W + ["-O2"], "weight": 1.2},
    "go3": {"cxx": "g++", "flags": _W + ["-O3", "-DNDEBUG"], "weight": 1.4},
    "cub": {"cxx": "clang++", "flags": _W + ["-O1", "-fsanitize=undefined,float-divide-by-zero,float-cast-overflow", "-fno-sanitize=float-divide-by-zero", "-fno-sanitize-recover=all"], "weight": 1.2},
    "casan0": {"cxx": "clang++", "flags": _W + ["-O0"] + _SAN, "env": _ASAN_ENV, "weight": 0.6},
    "casan": {"cxx": "clang++", "flags": _W + ["-O1"] + _SAN, "env": _ASAN_ENV, "weight": 1.8},
    "co2": {"cxx": "clang++", "flags": _W + ["-O2", "-DNDEBUG"], "weight": 1.2},
    "cplain": {"cxx": "clang++", "flags": _W + ["-O0"], "weight": 0.6},
    "g23": {"cxx": "g++", "flags": ["-std=gnu++23", "-g1", "-w", "-O0"], "weight": 0.6},
    "c23": {"cxx": "clang++", "flags": ["-std=gnu++23", "-g1", "-w", "-O0"], "weight": 0.6},
    "tsan": {"cxx": "g++", "flags": _W + ["-O1", "-fsanitize=thread", "-pthread"], "env": {"TSAN_OPTIONS": "halt_on_error=1:second_deadlock_stack=1"}, "weight": 1},
    "ctsan": {"cxx": "clang++", "flags": _W + ["-O1", "-fsanitize=thread", "-pthread"], "env": {"TSAN_OPTIONS": "halt_on_error=1"}, "weight": 1},
    "valgrind": {"cxx": "g++", "flags": _W + ["-O1"], "wrap": ["valgrind", "-q", "--error-exitcode=77", "--track-origins=yes"], "weight": 1},
}

# the limits of the compilers on constant evaluation, out of the way
for _c in CONFIGS.values():
    _c["flags"] = _c["flags"] + (["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=20000000"] if _c["cxx"] == "g++" else ["-fconstexpr-steps=2000000000"])

_ASSUME_IEEE = "float and double are IEEE 754 binary32 and binary64; round to nearest"
PROPS = {}


def unit(src, *defs, weight=1.0, **tiers):
    return dict(src=src, defs=["-D" + d for d in defs], weight=weight, **tiers)


def prop(pid, units, quick, thorough, rule, assumptions=()):
    PROPS[pid] = dict(units=units, quick=quick, thorough=thorough, rule=rule, assumptions=list(assumptions) or [_ASSUME_IEEE])


prop("P01",
     [unit("p01.cpp", "WHAT=0", weight=11), unit("p01.cpp", "WHAT=1", weight=13), unit("p01.cpp", "WHAT=2", weight=12),
      unit("p01.cpp", "WHAT=3", weight=34, quick=[("casan0", 60)]), unit("p01.cpp", "WHAT=3", "ELEM=int", weight=34, quick=[("gplain", 60)]), unit("p01.cpp", "WHAT=3", "ELEM=bool", weight=34, quick=[("casan0", 60)])]
     + [unit("p01.cpp", "WHAT=%d" % w, "ELEM=" + e, weight=12, quick=[]) for w, e in ((0, "int"), (1, "long long"), (2, "unsigned"), (0, "unsigned long long"), (2, "double"))],
     [("gasan0", 60)], [("gasan0", 3000), ("casan", 3000), ("go3", 8000)],
     "each case fills an object of every size with fresh values and reads it through every swizzle name; a read is nontrivial when the lanes differ from each other, and distinct by name, storage kind and values")

prop("P02",
     [unit("p02.cpp", "WHAT=0", weight=15), unit("p02.cpp", "WHAT=1", weight=20), unit("p02.cpp", "WHAT=2", weight=22), unit("p02.cpp", "WHAT=2", "ELEM=double", weight=22),
      *[unit("p02.cpp", "WHAT=%d" % w, "ELEM=" + e, weight=15, quick=[]) for w, e in ((0, "int"), (1, "unsigned long long"), (2, "int"), (0, "double"), (1, "double"), (2, "unsigned"))],
      unit("p02.cpp", "WHAT=3", weight=30, quick=[("gplain", 1)], thorough=[("gplain", 1), ("co2", 1)]),
      unit("p02.cpp", "WHAT=4", weight=40, quick=[("gplain", 1)], thorough=[("gplain", 1), ("co2", 1)])],
     [("gasan0", 60)], [("gasan0", 3000), ("casan", 3000), ("go3", 8000)],
     "each case fills a target and a source with fresh values and writes through every writable swizzle name, then compares all lanes and the memory around; distinct by name, way of writing and values")

prop("P03",
     [unit("p03.cpp", "WHAT=%d" % w, "ELEM=" + e, weight=wt) for w, e, wt in ((0, "int", 16), (0, "double", 9), (1, "int", 16), (1, "double", 9), (2, "int", 40), (2, "double", 24))]
     + [unit("p03.cpp", "WHAT=%d" % w, "ELEM=" + e, weight=wt, quick=[]) for w, e, wt in ((0, "float", 9), (1, "unsigned long long", 16), (2, "float", 24), (1, "float", 9), (0, "unsigned", 16))],
     [("gasan0", 150)], [("gasan0", 6000), ("casan", 6000), ("go3", 20000)],
     "each case fills 16 lanes of memory with fresh values, performs one aliasing operation and compares all 16; distinct by operation and values")

_NUM = ["int", "unsigned", "long long", "unsigned long long", "unsigned long", "float", "double"]
_INT = _NUM[:5]
prop("P04", [unit("p04.cpp", "OPS=4", "ELEM=" + e, weight=30) for e in _NUM],
     [("gasan0", 400)], [("gasan0", 6000), ("cub", 15000), ("go3", 15000)],
     "each case makes operand lanes for one operator, element type pair and form, applies it at the sizes and compares bits; distinct by section, size, form and values",
     [_ASSUME_IEEE, "signed overflow, division by zero and out-of-range shifts are not presented"])
prop("P05", [unit("p04.cpp", "OPS=5", "ELEM=" + e, weight=20) for e in _INT],
     [("gasan0", 400)], [("gasan0", 6000), ("cub", 15000), ("go3", 15000)],
     "each case makes operand lanes for one operator, element type pair and form, applies it at the sizes and compares bits; distinct by section, size, form and values",
     ["out-of-range shift counts are not presented"])
prop("P06", [unit("p06.cpp", "WHAT=0", "ELEM=" + e, weight=20) for e in _NUM] + [unit("p06.cpp", "WHAT=1", "ELEM=" + e, weight=30) for e in ("int", "double", "unsigned long long", "float")],
     [("gasan0", 300)], [("gasan0", 6000), ("cub", 15000), ("go3", 15000)],
     "each case fills a target of one storage kind, applies one compound assignment or step, and compares target, returned reference, guard lanes and the right operand; distinct by section, size, form and values",
     [_ASSUME_IEEE, "signed overflow, division by zero and out-of-range shifts are not presented"])
prop("P07",
     [unit("p07.cpp", "ARITY=1", "ELEM=double", "SLICES=3", "SLICE=%d" % i, weight=15, quick=[("gplain", 100)]) for i in range(3)]
     + [unit("p07.cpp", "ARITY=2", "ELEM=double", "SLICES=3", "SLICE=%d" % i, weight=15, quick=[("gplain", 100)]) for i in range(3)]
     + [unit("p07.cpp", "ARITY=3", "ELEM=double", weight=29), unit("p07.cpp", "ARITY=0", "ELEM=double", weight=30)]
     + [unit("p07.cpp", "ARITY=1", "ELEM=float", "SLICES=3", "SLICE=0", weight=25, quick=[("gplain", 100)])]
     + [unit("p07.cpp", "ARITY=1", "ELEM=int", weight=25), unit("p07.cpp", "ARITY=2", "ELEM=int", weight=35, quick=[("gplain", 100)])]
     + [unit("p07.cpp", "ARITY=1", "ELEM=bool", weight=10, quick=[("gplain", 100)]), unit("p07.cpp", "ARITY=2", "ELEM=bool", weight=10)]
     + [unit("p07.cpp", "ARITY=2", "ELEM=unsigned", quick=[], weight=25), unit("p07.cpp", "ARITY=1", "ELEM=long long", quick=[], weight=25)]
     + [unit("p07.cpp", "ARITY=1", "ELEM=float", "SLICES=3", "SLICE=%d" % i, quick=[], weight=25) for i in (1, 2)]
     + [unit("p07.cpp", "ARITY=%d" % a, "ELEM=float", quick=[], weight=40) for a in (0, 2, 3)],
     [("gasan0", 100)], [("gasan0", 2000), ("casan", 2000)],
     "each case computes one operation on plain vectors and on eight combinations of operand storage kinds and compares type and bits, operands and guards; distinct by operation, size, kinds and values")

prop("P08", [unit("p08.cpp", "VIEWS=%d" % v, "ELEM=" + e, weight=40, **({} if q else {"quick": []}))
             for v, e, q in ((0, "float", 1), (0, "int", 1), (0, "bool", 1), (0, "double", 1), (0, "unsigned long long", 1), (1, "int", 1), (1, "double", 1), (1, "bool", 1),
                             (0, "unsigned", 0), (0, "long long", 0), (0, "unsigned long", 0), (1, "float", 0), (1, "unsigned", 0))],
     [("casan0", 200)], [("casan0", 20000), ("go2", 20000)],
     "each case fills the components of every generated constructor call with fresh values and compares all lanes of the built vector; distinct by target, component list and values",
     [_ASSUME_IEEE, "a floating value outside the range of an integral target is not presented"])

_ALL = ["bool"] + _NUM
_LANE_RULE = "each case makes lane values for one function, applies it at every size to plain vectors, to mixed storage kinds, with scalar parameters and to scalars, and compares every lane; distinct by function, form and values"
_EXH = "; the sweep unit presents every n-th float bit pattern (all of them in the thorough tier) and doubles of every exponent"
def _fun(g, elems, cases, weight, more=(), rest=(), rule="", thorough=50000):
    prop("P%02d" % g, [unit("pfun.cpp", "GROUP=%d" % g, "ELEM=" + e, weight=weight) for e in elems]
         + [unit("pfun.cpp", "GROUP=%d" % g, "ELEM=" + e, weight=weight, quick=[]) for e in rest] + list(more),
         [("casan0", cases)], [("gasan0", thorough // 5), ("cub", thorough), ("go3", thorough)], _LANE_RULE + rule)

def _sweep(g):
    return [unit("pexh.cpp", "GROUP=%d" % g, weight=10, quick=[("go2", 256)], thorough=[("go2", 2048), ("co2", 2048)])]

_fun(9, _ALL, 2000, 18)
_fun(10, ["float", "double", "int", "long long"], 10000, 10, _sweep(10), rule=_EXH)
_fun(11, ["float", "double", "int", "unsigned long long"], 3000, 20, rest=["unsigned", "long long", "unsigned long", "bool"])
_fun(12, ["float", "double"], 10000, 17)
_fun(13, ["float", "double"], 20000, 5, _sweep(13), rule=_EXH)
_fun(14, ["float", "double", "int", "unsigned", "long long", "unsigned long long", "unsigned long"], 10000, 12)

_PAIRS15 = [("float", "float"), ("float", "double"), ("double", "float"), ("double", "double"), ("int", "unsigned"), ("int", "double"), ("int", "int"), ("long long", "unsigned long long")]
prop("P15", [unit("p15.cpp", "GROUP=15", "ELEM=" + a, "ELEM2=" + b, weight=12) for a, b in _PAIRS15],
     [("casan0", 4000)], [("gasan0", 10000), ("cub", 50000), ("go3", 50000)],
     "each case makes two or three operand vectors for one function and compares the result with the definition, exactly where it is exact; distinct by function, size, regime and values")
prop("P16", [unit("p15.cpp", "GROUP=16", "ELEM=" + a, "ELEM2=" + a, weight=12) for a in ("float", "double")],
     [("casan0", 6000)], [("gasan0", 20000), ("cub", 100000), ("go3", 100000)],
     "each case makes an incident vector, a normal and a ratio in one regime and compares the result with the definition; distinct by function, size, regime and values")

prop("P17", [unit("p17.cpp", "WHAT=%d" % w, "ELEM=" + e, weight=(24, 12, 8)[w], quick=[("casan0", (1200, 500, 1500)[w])]) for w in (0, 1, 2) for e in ("float", "double")],
     [("casan0", 1500)], [("gasan0", 5000), ("casan", 10000), ("go3", 20000)],
     "each case builds or fills matrices of all nine shapes with fresh values in one way and compares every element and the memory around; distinct by shape, way and values",
     [_ASSUME_IEEE, "a floating value outside the range of the target type is not presented"])
_FF = [("float", "float"), ("double", "double"), ("float", "double"), ("double", "float")]
prop("P18", [unit("p18.cpp", "GROUP=18", "ELEM=" + a, "ELEM2=" + b, weight=30 if a == b else 15) for a, b in _FF],
     [("casan0", 500)], [("gasan0", 5000), ("casan", 10000), ("go3", 20000)],
     "each case makes operands for every compatible shape, exactly representable or of one or many magnitudes, and compares every element with a triple-loop model; distinct by operation, shape, kind and values")
prop("P19", [unit("p18.cpp", "GROUP=19", "ELEM=" + a, "ELEM2=" + b, weight=15 if a == b else 6) for a, b in _FF],
     [("casan0", 2000)], [("gasan0", 10000), ("casan", 20000), ("go3", 30000)],
     "each case fills operands of every shape with hostile values and compares every element bit by bit with the scalar operator; distinct by operation, shape, types and values")
prop("P20", [unit("p18.cpp", "GROUP=20", "ELEM=" + e, "ELEM2=" + e, weight=5) for e in ("float", "double")],
     [("casan0", 20000)], [("gasan0", 200000), ("casan", 400000), ("go3", 1000000)],
     "each case makes one matrix of each size (integer, unimodular, triangular, scaled, dominant, random), and compares determinant and inverse with exact models and identities; distinct by size, identity and values")

prop("P21", [unit("p21.cpp", "ELEM=" + e, weight=10) for e in ("float", "double", "int", "unsigned long long", "bool")]
     + [unit("p21.cpp", "ELEM=" + e, weight=10, quick=[]) for e in ("unsigned", "long long", "unsigned long")],
     [("casan0", 2000)], [("gasan0", 20000), ("casan", 20000), ("go3", 50000), ("valgrind", 300)],
     "each case is a history of sixty steps over one block of memory and up to twenty views of it, all of which are read in every way after each step; distinct by step, position and values")

prop("P22", [unit("p22.cpp", "WHAT=0", "ELEM=" + e, weight=22, quick=[("casan0", 80)]) for e in ("float", "int", "double")]
     + [unit("p22.cpp", "WHAT=1", "ELEM=" + e, weight=13) for e in ("float", "int", "double")]
     + [unit("p22.cpp", "WHAT=0", "ELEM=" + e, weight=22, quick=[]) for e in ("unsigned", "unsigned long long", "bool", "long long")],
     [("casan0", 2000)], [("gasan0", 5000), ("casan", 5000), ("go3", 20000)],
     "each case fills one object of every storage kind and iterates, moves and compares its iterators, and runs an algorithm against a plain array; distinct by kind, algorithm and values")

prop("P23", [unit("p23.cpp", "ELEM=" + e, weight=20) for e in ("float", "double", "int", "long long", "unsigned long long", "bool")]
     + [unit("p23.cpp", "ELEM=unsigned", weight=20, quick=[])],
     [("casan0", 700)], [("gasan0", 10000), ("casan", 10000), ("go3", 20000)],
     "each case loads hostile lanes into every storage kind and size, calls every member with recording function objects, near and extreme shift amounts and random index lists, and compares results and calls with a plain array; distinct by operation, amount and values")

prop("P24", [unit("p24.cpp", "PART=0", "ELEM=" + e, weight=8, quick=[("gplain", 1), ("casan0", 1), ("go2", 1)]) for e in ("float", "double")]
     + [unit("p24.cpp", "PART=1", "ELEM=" + e, weight=14, quick=q) for e, q in (("float", [("casan0", 1), ("go2", 1)]), ("double", [("casan0", 1)]), ("int", [("casan0", 1), ("go2", 1)]),
        ("unsigned long long", [("casan0", 1)]), ("bool", [("casan0", 1)]), ("long long", []), ("unsigned", []))]
     + [unit("p24.cpp", "PART=2", "ELEM=" + e, weight=18, quick=q) for e, q in (("float", [("casan0", 1)]), ("double", [("go2", 1)]))],
     [("casan0", 1)], [("gplain", 1), ("gasan0", 1), ("go2", 1), ("go3", 1), ("casan", 1), ("casan0", 1), ("cub", 1), ("co2", 1)],
     "tables of results which the compiler makes from seeded inputs, each compared with the run of the same code on the same inputs hidden from the optimiser; distinct by function and result")

prop("P25", [unit("p25.cpp", "MODE=0", "PART=0", "ELEM=" + e, weight=24, quick=q) for e, q in (("float", [("casan0", 6)]), ("int", [("casan0", 6)]), ("bool", []), ("unsigned long long", []))]
     + [unit("p25.cpp", "MODE=0", "PART=1", "ELEM=" + e, weight=14, quick=q) for e, q in (("double", [("casan0", 20)]), ("int", [("casan0", 20)]), ("bool", [("casan0", 20)]), ("float", []), ("unsigned", []))]
     + [unit("p25.cpp", "MODE=0", "PART=2", "ELEM=" + e, weight=20, quick=q) for e, q in (("float", [("casan0", 10)]), ("long long", [("casan0", 10)]), ("double", []), ("int", []), ("unsigned", []), ("unsigned long long", []))]
     + [unit("p25.cpp", "MODE=1", "PART=0", "ELEM=" + e, weight=16, quick=q) for e, q in (("double", [("casan0", 8)]), ("unsigned", [("co2", 8)]), ("bool", []))]
     + [unit("p25.cpp", "MODE=1", "PART=1", "ELEM=" + e, weight=10, quick=q) for e, q in (("float", [("casan0", 30)]), ("int", []))],
     [("casan0", 10)], [("gasan0", 60), ("casan0", 60)],
     "each case breaks every documented precondition in each argument and lane in turn, keeps it at its boundary otherwise, and catches the assertion or exception; distinct by operation, argument and outcome",
     ["glibc's assert() reporter __assert_fail is what assert() calls", _ASSUME_IEEE])

prop("P26", [unit("p26.cpp", "LANES=%d" % n, "ELEM=" + e, *(["ELEM_IS_FLOAT=1"] if e in ("float", "double") and n > 1 else []), weight=17, quick=q)
             for n, e, q in ((1, "int", [("casan0", 600)]), (2, "double", [("casan0", 600)]), (3, "int", [("casan0", 600)]), (3, "float", [("casan0", 600)]), (4, "double", [("casan0", 600)]), (4, "int", [("casan0", 600)]), (2, "unsigned", [("casan0", 600)]),
                             (1, "float", []), (2, "long long", []), (4, "float", []), (4, "unsigned long long", []), (3, "double", []))],
     [("casan0", 600)], [("gasan0", 10000), ("casan", 15000), ("go3", 50000), ("valgrind", 60)],
     "each case is a history of 250 operations over a pool of vectors, view_vectors, views, const views, matrices and plain memory with random aliasing, after each of which all cells of the pool are compared with the model; distinct by the state of the pool",
     [_ASSUME_IEEE, "values are kept small enough that every operation of the history is exact"])

_FLT = lambda e: ["ELEM_IS_FLOAT=1"] if e in ("float", "double") else []
prop("P27", [unit("p27.cpp", "WHAT=0", "ELEM=" + e, *_FLT(e), weight=w, quick=[("ctsan", 60)]) for e, w in (("float", 34), ("int", 25), ("bool", 12))]
     + [unit("p27.cpp", "WHAT=1", "ELEM=" + e, *_FLT(e), weight=w, quick=[("ctsan", 150)]) for e, w in (("float", 40), ("int", 30), ("bool", 16), ("unsigned long long", 30))]
     + [unit("p27.cpp", "WHAT=2", "ELEM=" + e, *_FLT(e), weight=w, quick=[("ctsan", 60)]) for e, w in (("double", 34), ("long long", 25))]
     + [unit("p27.cpp", "WHAT=%d" % w, "ELEM=" + e, *_FLT(e), weight=40, quick=[]) for w, e in ((0, "double"), (0, "unsigned"), (1, "double"), (2, "float"))],
     [("ctsan", 100)], [("ctsan", 4000), ("tsan", 4000), ("go3", 8000), ("casan", 1000)],
     "each case starts five to seven threads at once on fresh objects: readers of shared objects in different orders beside writers of all the lanes around what they read, writers of disjoint lanes, or users of private objects, with delays injected; observations are windows of eight steps of the interleaving, distinct by the threads and steps in them",
     ["a data race which ThreadSanitizer can see is one between accesses which both happened in the run", _ASSUME_IEEE])

prop("P28", [unit("p28.cpp", "ELEM=" + e, *_FLT(e), weight=17, quick=q) for e, q in (("float", [("casan0", 2000)]), ("double", [("casan0", 2000)]), ("int", [("casan0", 2000)]), ("bool", [("casan0", 2000)]), ("unsigned long long", [("casan0", 2000)]), ("unsigned", []), ("long long", []))],
     [("casan0", 1000)], [("gasan0", 20000), ("casan", 30000), ("go3", 100000)],
     "each case fills an object of every storage kind and size, the storage wrappers and matrices of every shape with arbitrary bits, and compares every conversion, tuple access, binding and size with the memory; distinct by kind, access and values")

prop("P29", [unit("p29.cpp", "WHAT=0", "ELEM=" + e, *_FLT(e), weight=8, quick=[("casan0", 300), ("go2", 300)] if e in ("float", "int") else [("casan0", 300)] if q else []) for e, q in (("float", 1), ("double", 1), ("int", 1), ("bool", 1), ("unsigned", 1), ("long long", 1), ("unsigned long long", 1), ("unsigned long", 0))]
     + [unit("p29.cpp", "WHAT=1", "ELEM=" + e, weight=17, quick=q) for e, q in (("float", [("casan0", 20)]), ("bool", [("gplain", 20)]), ("double", []), ("unsigned long long", []))],
     [("casan0", 300)], [("gasan0", 3000), ("casan", 3000), ("go3", 10000), ("co2", 10000)],
     "each case writes arbitrary bits through memory and reads them through every interface, and the other way about, for every vector, view and matrix type, and looks at the address and sequence of every swizzle; distinct by type, fact and values")

_CMP = (("float", "float", 25), ("double", "float", 25), ("int", "int", 20), ("long long", "unsigned", 16), ("unsigned long long", "unsigned long long", 16), ("int", "float", 16))
prop("P31", [unit("p31.cpp", "ELEM=" + a, "ELEM2=" + b, weight=w) for a, b, w in _CMP]
     + [unit("p31.cpp", "ELEM=int", "ELEM2=int", weight=15, quick=[("gplain", 1000)], thorough=[("gplain", 50000)]),
        unit("p31.cpp", "ELEM=int", "ELEM2=long long", weight=15, quick=[("gplain", 1000)], thorough=[("gplain", 50000)])]
     + [unit("p31.cpp", "ELEM=" + a, "ELEM2=" + b, weight=20, quick=[]) for a, b in (("double", "double"), ("unsigned", "unsigned"), ("unsigned", "int"), ("double", "unsigned long long"), ("long long", "long long"))],
     [("casan0", 1000)], [("gasan0", 20000), ("casan", 40000)],
     "each case makes two sets of lanes, often equal in their first lanes, puts them into several storage kinds and compares <=>, the relations and weighted comparisons with a lexicographic model, and sorts and stores vectors; distinct by kinds and values",
     [_ASSUME_IEEE, "signed lanes which are too far apart for their difference are the recorded finding; the sanitized binaries leave them out"])

prop("P32", [unit("p32.cpp", "ELEM=" + e, weight=14, quick=q) for e, q in (("float", [("casan0", 700)]), ("double", [("casan0", 700)]), ("int", [("casan0", 700)]), ("bool", [("casan0", 700)]), ("unsigned long long", [("gplain", 700)]), ("unsigned", []), ("long long", []))],
     [("casan0", 700)], [("gasan0", 10000), ("casan", 20000), ("go3", 60000)],
     "each case hashes one set of lanes in every storage kind, changes and exchanges its lanes, and runs a history of insertions and erasures on hashed containers beside an ordered model; distinct by what is hashed and values",
     [_ASSUME_IEEE, "no two of the hashed lane tuples collide by chance in 64 bits"])

prop("P33", [unit("p33.cpp", "ELEM=" + e, weight=13, quick=q) for e, q in (("float", [("casan0", 300)]), ("double", [("casan0", 300)]), ("int", [("casan0", 300)]), ("bool", [("casan0", 300)]), ("unsigned long long", [("gplain", 300)]), ("unsigned", []), ("long long", []))],
     [("casan0", 300)], [("gasan0", 5000), ("casan", 10000), ("go2", 30000)],
     "each case slices every kind of object at legal and illegal offsets, and copies to and from spans and valarrays of every length in exactly sized memory; distinct by helper, size and values",
     [_ASSUME_IEEE, "glibc's assert() reporter __assert_fail is what assert() calls"])

prop("P34", [unit("p34.cpp", "WHAT=0", "ELEM=" + e, weight=12) for e in ("float", "double", "int", "bool")]
     + [unit("p34.cpp", "WHAT=1", "ELEM=" + e, weight=18) for e in ("float", "double", "bool", "unsigned long long")]
     + [unit("p34.cpp", "WHAT=%d" % w, "ELEM=" + e, weight=18, quick=[]) for w, e in ((0, "long long"), (0, "unsigned"), (1, "int"))],
     [("gasan0", 200)], [("gasan0", 4000), ("go2", 20000)],
     "each case prints one set of lanes from every storage kind with random stream flags or format specifications, compares with what the facility prints for the lanes one by one, and reads the text back; distinct by kind, style and values")

prop("P35", [unit("p35.cpp", "WHAT=0", "ELEM=" + e, weight=11) for e in ("float", "double", "int", "long long")]
     + [unit("p35.cpp", "WHAT=1", "ELEM=" + e, weight=16) for e in ("float", "double")]
     + [unit("p35.cpp", "WHAT=2", "ELEM=" + e, weight=11, quick=[("gasan0" if e == "float" else "casan0", 3000)]) for e in ("float", "double")]
     + [unit("p35.cpp", "WHAT=9", "ELEM=float", weight=5, thorough=[("casan0", 1000)])],
     [("casan0", 1500)], [("gasan0", 20000), ("casan", 60000), ("go2", 100000)],
     "each case judges tolerances at, just inside and just outside their bounds, curves with exact and random control points, angles from parallel to opposite, or points, lines and planes of a triangle which is not too thin; distinct by helper and values",
     [_ASSUME_IEEE, "differences fit into the element type; directions and triangles are not degenerate"])

prop("P30", [unit("p30.cpp", weight=6)],
     [("casan0", 3000), ("gasan0", 3000)], [("casan0", 60000), ("gasan0", 60000), ("go2", 150000), ("co2", 150000)],
     "each case converts a file with a random mesh of good, degenerate and hostile facets, and offers the converter a file or a target which it has to refuse; distinct by mesh, and by kind and content of what is refused",
     [_ASSUME_IEEE, "facets which are slivers, or too large or small for their area in single precision, may be written or left out; a normal is judged for the others"])

prop("P36", [unit("p36.cpp", "WHAT=1", "ELEM=" + e, "SLICES=2", "SLICE=%d" % i, weight=6, quick=q) for e, q in (("float", [("gplain", 150)]), ("double", [("co2", 150)]), ("int", [])) for i in (0, 1)]
     + [unit("p36.cpp", "WHAT=1", "ELEM=bool", weight=6), unit("p36.cpp", "WHAT=1", "ELEM=int", weight=7, thorough=[])]
     + [unit("p36.cpp", "WHAT=2", "ELEM=" + e, weight=10, quick=q) for e, q in (("float", [("co2", 150)]), ("double", [("gplain", 150)]), ("int", [("gplain", 150)]), ("bool", [("co2", 150)]), ("unsigned long long", []))]
     + [unit("p36.cpp", "WHAT=3", "ELEM=" + e, weight=6, quick=q) for e, q in (("float", [("gplain", 200)]), ("double", [("gplain", 200)]), ("int", []))]
     + [unit("p36.cpp", "WHAT=4", "ELEM=" + e, weight=8, quick=q) for e, q in (("float", [("gplain", 200)]), ("int", [("co2", 200)]), ("double", []), ("unsigned long long", []))]
     + [unit("p36.cpp", "WHAT=5", "ELEM=" + e, weight=8, quick=[(c, 60)]) for e, c in (("float", "gplain"), ("double", "co2"))],
     [("gplain", 150)], [("gplain", 4000), ("go2", 10000), ("co2", 10000)],
     "each case makes a chain of six operand tuples, each differing from its neighbour in one lane or two, evaluates the operation on them forwards and backwards inside watched regions, and overwrites the operands afterwards; distinct by operation, kinds, values and pass",
     [_ASSUME_IEEE, "glibc; the static storage watched is that of the program, not of the C library, whose effects are not the library's"])

_T37 = ("bool", "int", "unsigned", "long long", "unsigned long long", "unsigned long", "float", "double")
prop("P37", [unit("p37.cpp", "WHAT=0", "SLICE=%d" % i, "ELEM=" + e, weight=20, quick=[(c, 1)] if q == i else []) for e, q, c in (("bool", 0, "gplain"), ("int", 0, "cplain"), ("unsigned", 1, "gplain"), ("long long", 1, "cplain"),
                                                                                                                   ("unsigned long long", -1, ""), ("unsigned long", 0, "cplain"), ("float", 1, "cplain"), ("double", 0, "gplain")) for i in (0, 1)]
     + [unit("p37.cpp", "WHAT=1", "ELEM=" + e, weight=10, quick=[(("gplain", "cplain")[i % 2], 1)] if e not in ("long long", "unsigned long") else []) for i, e in enumerate(_T37)]
     + [unit("p37.cpp", "WHAT=2", "ELEM=" + e, weight=10, quick=[(("gplain", "cplain")[i // 2 % 2], 1)] if e not in ("long long", "unsigned long") else []) for i, e in enumerate(_T37)]
     + [unit("p37.cpp", "WHAT=3", "ELEM=" + e, weight=16, quick=[(c, 1)]) for e, c in (("float", "gplain"), ("double", "cplain"))]
     + [unit("p37.cpp", "WHAT=4", "ELEM=" + e, weight=25, quick=[(c, 1)] if c else []) for e, c in (("float", "cplain"), ("int", "gplain"), ("bool", "cplain"), ("double", ""), ("unsigned long long", ""), ("unsigned", ""), ("long long", ""))]
     + [unit("p37.cpp", "WHAT=9", "ELEM=float", weight=14)],
     [("cplain", 1)], [("gplain", 1), ("cplain", 1), ("g23", 1), ("c23", 1)],
     "each program (an operation on operands of given kinds, element types and sizes) is put to the compiler once; distinct by program",
     ["the programs of a family are those of the rules; programs on which documents and code disagree (unasked conversion to fewer lanes, or to another shape of matrix) are not judged"])

prop("P38", [unit("p38.cpp", "WHAT=0", "ELEM=" + e, weight=w, quick=q) for e, w, q in (("float", 30, [("casan0", 100)]), ("int", 35, [("cplain", 150)]), ("bool", 12, [("casan0", 150)]), ("double", 30, [("gplain", 150)]), ("unsigned long long", 30, []), ("unsigned", 30, []))]
     + [unit("p38.cpp", "WHAT=1", "ELEM=" + e, weight=w, quick=q) for e, w, q in (("float", 25, [("cplain", 150)]), ("double", 25, [("casan0", 100)]), ("int", 12, [("gplain", 150)]), ("bool", 10, [("cplain", 150)]), ("unsigned long long", 12, []))]
     + [unit("p38.cpp", "WHAT=2", "ELEM=" + e, weight=w, quick=q) for e, w, q in (("float", 25, [("cplain", 150)]), ("double", 25, [("casan0", 100)]), ("int", 15, [("cplain", 150)]), ("bool", 8, [("gplain", 150)]), ("unsigned long long", 14, []))]
     + [unit("p38.cpp", "WHAT=3", "ELEM=" + e, weight=w, quick=q) for e, w, q in (("float", 11, [("gplain", 150)]), ("double", 11, [("casan0", 150)]), ("int", 8, [("gplain", 150)]), ("bool", 5, [("cplain", 150)]), ("unsigned long long", 6, []))],
     [("cplain", 150)], [("casan", 3000), ("gasan0", 2000), ("go2", 20000)],
     "each case fills an object of every kind and size with fresh values and uses it through a reference to its base, alone or with others, where the plain vector or an array of lanes says what must come out; distinct by kind, use and values")

prop("P39", [unit("p39.cpp", "WHAT=%d" % w, weight=wt) for w, wt in ((0, 11), (1, 15), (2, 15), (3, 9))],
     [("gasan0", 40), ("cplain", 100)], [("casan", 3000), ("gasan0", 2000), ("go3", 10000)],
     "each case makes an object of every name, fills it with fresh values of the element type which its letters spell and measures it in every way; distinct by name, measure and values")

prop("P40", [unit("p40.cpp", "WHAT=%d" % w, "ELEM=" + e, weight=wt, **q) for w, e, wt, q in (
        (0, "float", 2, {}), (0, "double", 2, {}),
        (1, "float", 3, dict(quick=[("gasan0", 2), ("cplain", 2), ("go2", 2), ("g23", 2)], thorough=[(c, 2) for c in ("gasan0", "gasan1", "gplain", "go2", "go3", "cub", "casan0", "casan", "co2", "cplain", "g23", "c23") * 3])),
        (1, "double", 4, dict(quick=[("gasan0", 2), ("cplain", 2), ("co2", 2), ("c23", 2)], thorough=[(c, 2) for c in ("gasan0", "gasan1", "gplain", "go2", "go3", "cub", "casan0", "casan", "co2", "cplain", "g23", "c23") * 3])),
        (2, "double", 3, dict(quick=[("gasan0", 30), ("co2", 30)], thorough=[("gasan0", 2000), ("casan", 2000), ("go3", 5000)])))],
     [("gasan0", 120), ("casan0", 120), ("go2", 300)], [("gasan0", 5000), ("cub", 5000), ("go3", 20000), ("co2", 20000)],
     "each case evaluates every function on fresh inputs (or judges a table made while compiling, whose inputs the seed chooses); distinct by function and input")

# every element type in the quick tier: those left out above get a plain build with fewer cases
for _id, _p in PROPS.items():
    _n = 0
    for _u in _p["units"]:
        if _u.get("quick") == [] and "-DSLICES=2" not in _u["defs"]:
            _c = next((n for v in _p["units"] if v["src"] == _u["src"] and [d for d in v["defs"] if "ELEM" not in d] == [d for d in _u["defs"] if "ELEM" not in d] for _, n in v.get("quick") or []), _p["quick"][0][1])
            _u["quick"] = [("ctsan" if _id == "P27" else ("cplain", "gplain")[_n % 2], max(1, _c // 2))]
            _n += 1

# g++ evaluates function arguments in another order than clang++: one build by each in every property
for _p in PROPS.values():
    _plans = [(u, list(u.get("quick", _p["quick"]))) for u in _p["units"]]
    if not any(CONFIGS[c]["cxx"] == "g++" for _, q in _plans for c, _n in q):
        _u, _q = next((u, q) for u, q in _plans if q)
        _u["quick"] = _q + [("tsan" if _q[0][0] == "ctsan" else "gplain", _q[0][1])]

# what only optimised code shows (aliasing, values which were never written): one such build in every property that is about values
for _i, (_id, _p) in enumerate(sorted(PROPS.items())):
    if _id in ("P25", "P27", "P37", "P38", "P39") or not any(c in ("go2", "go3", "co2") for c, _n in _p["thorough"]):
        continue
    _plans = [(u, list(u.get("quick", _p["quick"]))) for u in _p["units"]]
    if any(c in ("go2", "go3", "co2") for _, q in _plans for c, _n in q) and _id not in ("P10", "P13"):
        continue
    _u, _q = min(((u, q) for u, q in _plans if q and "pexh.cpp" not in u["src"] and "-DWHAT=9" not in u["defs"]), key=lambda x: x[0]["weight"])
    _u["quick"] = _q + [(("go2", "co2")[_i % 2], _q[0][1])]
