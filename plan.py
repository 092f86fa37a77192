"""What each check builds and runs.  A job is one program in one configuration:
  src, defs     source under harness/ and -D definitions
  cases         (quick, thorough) number of cases, split over the shards
  args          arguments of the program
"""
CLANG = ["clang++", "-std=c++17", "-O0", "-g1"]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

def build_cmd(j, tier, repo, here):
    cc = list(j.get("cc", CLANG))
    if tier == "thorough" and not j.get("fixed_flags"):
        cc = [("-O1" if c == "-O0" else c) for c in cc]
    cmd = cc + list(j.get("san", SAN)) + ["-I%s/include" % repo, "-I%s/harness" % here, "-w"]
    cmd += ["-D%s" % d for d in j.get("defs", [])]
    cmd += list(j.get("flags", []))
    cmd += ["%s/harness/%s" % (here, j["src"]), "-o", "@OUT@"] + list(j.get("libs", []))
    return cmd

def eng(cfg, name, q, t, args=(), defs=(), shards=2, **kw):
    d = dict(name=name, src="engine_main.cpp", defs=["CFG=%d" % cfg] + list(defs), cases=(q, t), args=list(args), shards=shards,
             shards_thorough=max(shards, 6), weight={0: 9, 6: 6, 1: 5, 2: 5}.get(cfg, 3))
    d.update(kw)
    return d

def big(cfg, name, q, t, args=(), defs=(), shards=2, **kw):
    return eng(cfg, name, q, t, ["--mode", "big", "--len", "16"] + list(args), defs, shards, **kw)

def fault(cfg, name, q, t, fcats, args=(), defs=(), shards=2, **kw):
    return eng(cfg, name, q, t, ["--mode", "fault", "--len", "14", "--fcats", fcats] + list(args), defs, shards, **kw)

def waves(cfg, name, q, t, cats="=copy:30,policy:6,erase:2", args=(), defs=(), shards=2, **kw):
    return eng(cfg, name, q, t, ["--mode", "waves", "--len", "8", "--cats", cats] + list(args), defs, shards, **kw)

def tr(cfg, name, q, t, args=(), defs=(), **kw):
    d = dict(name=name, src="transfer.cpp", defs=["CFG=%d" % cfg] + list(defs), cases=(q, t), args=list(args), shards=1, shards_thorough=6, weight=4)
    d.update(kw)
    return d

def sc(cfg, q=10, t=300, **kw):
    d = dict(name="scale-%d" % cfg, src="scale.cpp", defs=["CFG=%d" % cfg], cases=(q, t), args=[], shards=3, shards_thorough=6, weight=6,
             cc=("clang++", "-std=c++17", "-O1", "-g1"), san=["-fsanitize=undefined,float-cast-overflow", "-fno-sanitize-recover=all"])
    d.update(kw)
    return d

EMU = ["BOOST_NO_CXX11_VARIADIC_TEMPLATES", "BOOST_NO_CXX11_ALLOCATOR", "VF_STD_ALLOC", "VF_MAXARGS=4"]

def tf(cfg, q, t, defs=(), tag="", **kw):
    d = dict(name="traffic-%d%s" % (cfg, tag), src="traffic.cpp", defs=["CFG=%d" % cfg] + list(defs), cases=(q, t), args=["--len", "80"], shards=2, shards_thorough=6, weight=7)
    d.update(kw)
    return d

def ty(cfg, q, t, unique=False, **kw):
    d = dict(name="types-%d%s" % (cfg, "u" if unique else ""), src="types.cpp", defs=["CFG=%d" % cfg] + (["VF_UNIQUE"] if unique else []), cases=(q, t), args=[],
             shards=1, shards_thorough=4, weight=6)
    d.update(kw)
    return d

HIST = ("A case is a seeded random history of public operations on two containers and a pool of node handles, over value "
        "domains from a single key to mostly-distinct keys. After every operation each index of each container is compared, element "
        "by element, with a sequential model. Two states are the same if every index holds the same values in the same order; "
        "distinct_nontrivial counts distinct hashes of such states (and of lookup outcomes).")
FAULT = ("A case is a seeded random history whose last operation is re-executed with an exception injected at its 1st, 2nd, 3rd ... "
         "fault point (allocation, copy, move, assignment, comparison, hash, equality, key extraction, modifier, rollback, predicate, "
         "range iterator) until it completes; a third of the cases keep failing after the first fault. The state is compared with the "
         "model after the fault and during further operations. distinct_nontrivial counts distinct container states observed.")
A_HIST = ["the histories are random samples; paths no history drives are not judged",
          "the model in harness/engine.hpp is the specification; it was written from the reference documentation"]

TYPES = " A further program runs histories over element types of every awkward kind (integers, pointers, move-only, immovable, non-assignable, over-aligned, hostile operators, polymorphic)."
SCALE = " A further program repeats such operations on containers of 9000 to 270000 elements and compares with sorted vectors and maps."
SHAPES = (" Another program builds every arrangement of up to four elements for each of three keys, with the keys sharing buckets in four ways, carries out every "
          "modification, replacement, insertion, erasure and rehash on every element with an exception at every point, and then takes the container apart element by element.")
LIMITS = " Another program makes capacity requests of every magnitude up to the largest std::size_t, with an allocator that refuses large blocks: each is honoured in full or refused without effect."
def sh(cfg, q=125, t=3000, **kw):
    d = dict(name="shapes-%d" % cfg, src="shapes.cpp", defs=["CFG=%d" % cfg], cases=(q, t), args=[], shards=4, shards_thorough=6, weight=6, cc=("clang++", "-std=c++17", "-O1", "-g1"))
    d.update(kw)
    return d
def li(q=120, t=4000, **kw):
    d = dict(name="limits", src="limits.cpp", defs=[], cases=(q, t), args=["--len", "40"], shards=2, shards_thorough=4, weight=4,
             cc=("clang++", "-std=c++17", "-O1", "-g1"), san=["-fsanitize=undefined,float-cast-overflow", "-fno-sanitize-recover=all"])
    d.update(kw)
    return d

PLAN = {}

PLAN["C01"] = dict(rule=HIST + SCALE + TYPES, assumptions=A_HIST, require={"scale-verifications": 10, "full-state-checks": 5000, "insert-rejected": 100, "transferred": 50},
  jobs=[eng(0, "all-kinds", 400, 12000, shards=3), eng(6, "unique-gates", 320, 8000), eng(1, "seq-first", 320, 8000), eng(2, "rnd-first", 320, 8000),
        big(0, "all-kinds-big", 8, 200, shards=4), ty(1, 120, 4000, True), sc(1), eng(3, "hashed", 200, 6000, tiers=("thorough",)), eng(5, "ranked", 200, 6000, tiers=("thorough",))])

def het(q=120, t=4000, **kw):
    d = dict(name="compatible-keys", src="hetero.cpp", cases=(q, t), args=[], shards=2, shards_thorough=6, weight=3)
    d.update(kw)
    return d
HET = (" A further program looks up keys of other types and with other (coarser) comparison, hash and equality objects and compares with linear scans.")
PLAN["C02"] = dict(rule=HIST + SCALE + HET, assumptions=A_HIST, require={"scale-verifications": 10, "compatible-lookups": 50000, "lookups": 5000, "ranges": 200},
  jobs=[eng(4, "ordered-trio", 500, 12000, ["--cats", "lookup:14,hinted-insert:14,insert:8"], shards=3),
        eng(10, "ordered-non-unique", 400, 8000, ["--cats", "lookup:10,hinted-insert:14"]),
        eng(11, "ordered-unique", 400, 8000, ["--cats", "lookup:10,hinted-insert:14"]),
        eng(0, "all-kinds", 200, 6000, ["--cats", "lookup:10,hinted-insert:14", "--kinds", "6,1,1,1,1"]),
        big(4, "ordered-big", 16, 300, ["--cats", "lookup:10"], shards=4), het(), sc(0)])

PLAN["C03"] = dict(rule=HIST + SCALE + HET + SHAPES + LIMITS, assumptions=A_HIST, require={"scale-verifications": 10, "compatible-lookups": 50000, "lookups": 5000, "policy": 500, "operations-interrupted": 20000, "requests-honoured": 500, "requests-refused": 300, "million-buckets": 50},
  jobs=[eng(3, "hashed-trio", 500, 12000, ["--cats", "lookup:10,policy:10,insert:8"], shards=3),
        eng(12, "hashed-non-unique", 500, 8000, ["--cats", "lookup:8,policy:8"]),
        eng(13, "hashed-unique", 400, 8000, ["--cats", "lookup:8,policy:8"]),
        eng(0, "all-kinds", 200, 6000, ["--cats", "lookup:8,policy:8", "--kinds", "1,1,6,1,1"]),
        big(3, "hashed-big", 16, 300, ["--cats", "lookup:10,policy:10"], shards=4), waves(3, "hashed-waves", 8, 200), het(), sc(0), sh(1), li()])

PLAN["C04"] = dict(rule=HIST + SCALE + TYPES, assumptions=A_HIST, require={"scale-verifications": 10, "same-type-counts": 100, "insert-accepted": 1000, "insert-rejected": 100},
  jobs=[eng(1, "seq-gated", 500, 12000, ["--kinds", "1,1,1,5,1", "--cats", "bulk:8,erase:6"], shards=3),
        eng(14, "seq-alone", 500, 8000, ["--cats", "bulk:8"]),
        eng(7, "rnd-seq-gated", 300, 8000, ["--kinds", "1,1,1,5,1", "--cats", "bulk:8"]),
        big(1, "seq-big", 10, 200, ["--kinds", "1,1,1,5,1"], shards=3),
        ty(0, 200, 6000), sc(1), ty(3, 100, 4000, True, tiers=("thorough",))])

PLAN["C05"] = dict(rule=HIST + SCALE + TYPES + LIMITS, assumptions=A_HIST, require={"scale-verifications": 10, "same-type-counts": 100, "insert-accepted": 1000, "insert-rejected": 100, "capacity-honoured": 200, "capacity-refused": 200},
  jobs=[eng(7, "rnd-gated", 500, 12000, ["--kinds", "1,1,1,1,5", "--cats", "bulk:8,erase:6,policy:8"], shards=3),
        eng(15, "rnd-alone", 500, 8000, ["--cats", "bulk:8,policy:6"]),
        eng(2, "rnd-pair", 400, 8000, ["--kinds", "1,1,1,1,5", "--cats", "bulk:8,policy:6"]),
        big(2, "rnd-big", 10, 200, ["--kinds", "1,1,1,1,5"], shards=4),
        ty(0, 200, 6000, True), sc(1), ty(3, 100, 4000, tiers=("thorough",)), li()])

PLAN["C06"] = dict(rule=HIST + SCALE + HET, assumptions=A_HIST, require={"scale-verifications": 10, "compatible-lookups": 50000, "rank-sweeps": 2000, "lookups": 3000},
  jobs=[eng(5, "ranked-trio", 500, 12000, ["--cats", "lookup:14,erase:10,replace:8,modify:8"], shards=3),
        eng(16, "ranked-non-unique", 500, 8000, ["--cats", "lookup:14"]),
        eng(0, "all-kinds", 200, 6000, ["--cats", "lookup:10", "--kinds", "1,6,1,1,1"]),
        big(5, "ranked-big", 16, 300, ["--cats", "lookup:10,erase:8"], shards=4), het(), sc(0)])

PLAN["C07"] = dict(rule=HIST + TYPES, assumptions=A_HIST,
  require={"replace-accepted": 500, "replace-rejected": 100, "modify-accepted": 500, "modify-collision-erased": 50, "modify-rolled-back": 50,
           "modify-bad-rollback-kept": 5, "modify-bad-rollback-erased": 5},
  jobs=[eng(0, "all-kinds", 300, 8000, ["--cats", "replace:30,modify:40,insert:10"], shards=3),
        eng(6, "unique-gates", 400, 8000, ["--cats", "replace:30,modify:40,insert:10"], shards=2),
        eng(3, "hashed", 400, 8000, ["--cats", "replace:30,modify:40,insert:10,policy:6"]),
        eng(4, "ordered", 400, 8000, ["--cats", "replace:30,modify:40,insert:10"]),
        eng(5, "ranked", 400, 8000, ["--cats", "replace:30,modify:40,insert:10"]), ty(3, 160, 4000),
        eng(7, "lists", 200, 8000, ["--cats", "replace:30,modify:40,insert:10"], tiers=("thorough",))])

PLAN["C08"] = dict(rule=FAULT + SHAPES, assumptions=A_HIST, level="fault_enumeration", require={"fault-runs": 3000, "operations-interrupted": 50000},
  jobs=[fault(0, "all-kinds", 700, 12000, "insert:3,hinted-insert:3,replace:3,modify:4,node:2,policy:2,copy:3,lookup:2", shards=4),
        fault(3, "hashed", 500, 10000, "insert:3,hinted-insert:2,replace:3,modify:4,node:2,policy:6,copy:3,lookup:2"),
        fault(5, "ranked", 400, 10000, "insert:3,hinted-insert:3,replace:3,modify:4,node:2,copy:3,lookup:2"),
        fault(6, "unique-gates", 500, 10000, "insert:3,hinted-insert:3,replace:3,modify:6,node:2,policy:2,copy:3"),
        fault(7, "lists", 400, 10000, "insert:4,replace:3,modify:4,node:2,policy:4,copy:3,transfer:2")] + [sh(c) for c in range(3)])

PLAN["C09"] = dict(rule=FAULT, assumptions=A_HIST, level="fault_enumeration", require={"fault-runs": 3000},
  jobs=[fault(0, "all-kinds", 500, 12000, "bulk:3,erase:3,transfer:3,list:3,rearrange:2", shards=3),
        fault(7, "lists", 500, 12000, "bulk:3,erase:1,transfer:4,list:6,rearrange:2", shards=2),
        fault(1, "seq-gated", 500, 12000, "bulk:3,transfer:4,list:6,rearrange:2"),
        fault(2, "rnd-pair", 500, 12000, "bulk:3,transfer:4,list:6,rearrange:2"),
        fault(3, "hashed", 400, 10000, "bulk:3,erase:3,transfer:4"),
        fault(7, "lists-multialloc", 300, 8000, "transfer:4,list:4,copy:2", ["--multialloc", "1"]),
        fault(14, "seq-sort", 300, 6000, "list:1"), fault(15, "rnd-sort", 300, 6000, "list:1")] +
       [tr(c, "cross-type-%d" % c, 100, 3000, ["--mode", "fault"]) for c in range(3)])

NARROW = " A further program uses allocators whose size_type has 8 or 16 bits, with histories that reach the number of elements it can count."
def na(bits, q, t, **kw):
    d = dict(name="narrow-%d" % bits, src="narrow.cpp", defs=["NARROW=%d" % bits], cases=(q, t), args=["--len", "60" if bits == 8 else "30"], shards=1 if bits == 8 else 2, shards_thorough=4, weight=3, cc=("clang++", "-std=c++17", "-O1", "-g1"))
    d.update(kw)
    return d

PLAN["C10"] = dict(rule=HIST + TYPES + NARROW + " Every build runs under AddressSanitizer and UndefinedBehaviorSanitizer with reports fatal; element objects check their own lifetime and address.", assumptions=A_HIST + ["red-zone sanitizers miss accesses that land in other live memory"],
  require={"full-state-checks": 5000, "length-errors": 1000},
  jobs=[na(8, 400, 10000), na(16, 4, 200), eng(0, "all-kinds", 300, 8000, shards=2), eng(1, "seq-first", 200, 6000), eng(7, "rnd-first", 200, 6000), eng(3, "hashed", 200, 6000),
        fault(0, "all-kinds-fault", 250, 8000, "", shards=2), big(0, "all-kinds-big", 4, 100), ty(2, 160, 4000), ty(3, 100, 4000, True),
        eng(6, "gcc-std-alloc", 200, 4000, cc=["g++", "-std=c++17", "-O0", "-g1"], defs=["STD_ALLOC"]),
        eng(0, "memcheck", 12, 120, ["--len", "40"], san=[], wrap=["valgrind", "-q", "--error-exitcode=77", "--leak-check=no"], shards=4, cpu=400, wall=600)])

MA = ["--multialloc", "1", "--cats"]
def al(bits): return ["ALLOC_BITS=%d" % bits]
PMR = " Another program uses std::pmr::polymorphic_allocator, with three containers over two memory resources and elements that allocate from the resource they are constructed with."
def pm(q, t, **kw):
    d = dict(name="pmr", src="pmr.cpp", defs=[], cases=(q, t), args=["--len", "80"], shards=1, shards_thorough=4, weight=4, must_build=True, cc=("clang++", "-std=c++17", "-O0", "-g1"))
    d.update(kw)
    return d
PLAN["C11"] = dict(rule=HIST + PMR + " Element, node and array memory come from a recording allocator whose instances compare by identity; each block must return to an equal instance with its own size, and every propagation trait combination in the table is a separate build.",
  assumptions=A_HIST, require={"copy": 500, "transferred": 50, "copy-assigned": 500, "allocator-extended": 300},
  jobs=[pm(600, 20000), pm(200, 5000, name="pmr-gcc-safe", cc=("g++", "-std=c++20", "-O1", "-g1"), defs=["BOOST_MULTI_INDEX_ENABLE_SAFE_MODE"]), eng(0, "propagate-none", 250, 5000, MA + ["copy:14,transfer:8,node:6"], al(0), shards=2),
        eng(3, "hashed-all", 200, 5000, MA + ["copy:14,transfer:8,policy:6"], al(15)),
        eng(3, "hashed-pocma", 200, 5000, MA + ["copy:20,policy:6"], al(2)),
        eng(2, "rnd-socc", 200, 5000, MA + ["copy:14,transfer:8,policy:6"], al(8)),
        eng(7, "lists-none", 200, 5000, MA + ["copy:14,transfer:10,list:8,node:6"], al(0)),
        eng(4, "ordered-pocca", 200, 5000, MA + ["copy:14,transfer:8"], al(1)),
        eng(5, "ranked-pocma-pocs", 200, 5000, MA + ["copy:14,transfer:8"], al(6))] +
       [eng(7, "arrays-%d" % b, 160, 5000, MA + ["copy:30,node:6,transfer:6"], al(b)) for b in (1, 2, 3, 4, 5, 6, 7, 10, 12)] +
       [fault(7, "lists-fault", 200, 4000, "copy:4,transfer:3,list:2,node:1", ["--multialloc", "1"], al(0)),
        eng(0, "old-allocator", 160, 4000, MA + ["copy:20,transfer:8,node:6"], al(0) + ["BOOST_NO_CXX11_ALLOCATOR"]),
        waves(3, "hashed-waves", 8, 200, args=["--multialloc", "1"], defs=al(15)), waves(2, "rnd-waves", 6, 200, args=["--multialloc", "1"], defs=al(8)),
        fault(3, "hashed-fault", 200, 4000, "copy:4,transfer:3,policy:2", ["--multialloc", "1"], al(8), tiers=("thorough",))])

PLAN["C12"] = dict(rule=HIST + " An iterator per element and index, and all end iterators, are kept from insertion on and compared with the traversal after every operation.",
  assumptions=A_HIST, require={"full-state-checks": 5000, "transferred": 50, "node-inserted": 100},
  jobs=[eng(0, "all-kinds", 350, 10000, ["--cats", "copy:8,policy:10,rearrange:8,replace:8,modify:8"], shards=3),
        eng(3, "hashed", 300, 8000, ["--cats", "copy:8,policy:16,insert:10"]),
        eng(7, "lists", 300, 8000, ["--cats", "copy:8,policy:10,list:10,rearrange:10"]),
        eng(1, "seq", 300, 8000, ["--cats", "copy:8,list:10,rearrange:10,transfer:10"]),
        big(0, "all-kinds-big", 6, 100, ["--cats", "policy:10,rearrange:8"], shards=3), waves(3, "hashed-waves", 8, 200)])

CROSS = " A further program moves elements between containers of three different types with the same node type."
PLAN["C13"] = dict(rule=HIST + CROSS + TYPES, assumptions=A_HIST, require={"types-nodes": 60, "cross-transfers": 1000, "node-inserted": 500, "node-insert-rejected": 50, "node-dropped": 50, "transferred": 200, "transfer-rejected": 50},
  jobs=[eng(0, "all-kinds", 300, 10000, ["--cats", "node:30,transfer:20"], shards=3),
        eng(6, "unique-gates", 300, 8000, ["--cats", "node:30,transfer:20"]),
        eng(3, "hashed", 300, 8000, ["--cats", "node:30,transfer:20"]),
        eng(7, "lists", 300, 8000, ["--cats", "node:30,transfer:20"]),
        fault(6, "unique-gates-fault", 250, 6000, "node:4,transfer:4"), ty(1, 160, 4000)] +
       [tr(c, "cross-type-%d" % c, 400, 10000) for c in range(3)])

PLAN["C14"] = dict(rule=HIST + " A further program compares containers that are equal, permuted, or differ in one element, count or position.", assumptions=A_HIST,
  require={"copy": 3000, "hashed-same-size-unequal": 1000, "hashed-equal-pairs": 1000, "equivalent-unequal": 500},
  jobs=[eng(0, "all-kinds", 350, 10000, ["--cats", "copy:40"], shards=3), eng(3, "hashed", 300, 8000, ["--cats", "copy:40,policy:8"]),
        eng(2, "rnd-pair", 300, 8000, ["--cats", "copy:40"]), eng(1, "seq", 300, 8000, ["--cats", "copy:40"]),
        eng(5, "ranked", 300, 8000, ["--cats", "copy:40"]),
        big(0, "all-kinds-big", 4, 100, ["--cats", "copy:40"], shards=2),
        waves(0, "all-kinds-waves", 9, 300, shards=3), waves(3, "hashed-waves", 10, 300), waves(2, "rnd-waves", 10, 300),
        dict(name="comparison", src="compare.cpp", cases=(6000, 200000), args=[], shards=2, shards_thorough=4, weight=3)])

PLAN["C21"] = dict(rule=HIST + TYPES + SCALE, assumptions=A_HIST, require={"scale-verifications": 10, "types-rearranged": 100, "list": 2000, "rearrange": 1000, "transferred": 300},
  jobs=[eng(1, "seq-gated", 400, 10000, ["--cats", "list:30,rearrange:20,transfer:20"], shards=2),
        eng(14, "seq-alone", 400, 8000, ["--cats", "list:30,rearrange:20,transfer:20,bulk:10"]),
        eng(15, "rnd-alone", 400, 8000, ["--cats", "list:30,rearrange:20,transfer:20,bulk:10"]),
        eng(7, "rnd-seq", 400, 10000, ["--cats", "list:30,rearrange:20,transfer:20"], shards=2),
        eng(2, "rnd-pair", 300, 8000, ["--cats", "list:30,rearrange:20,transfer:20"]),
        big(7, "rnd-seq-big", 8, 200, ["--cats", "list:30,rearrange:20,transfer:10"], shards=3),
        ty(2, 160, 4000, True), ty(0, 100, 4000), sc(1, args=["--ops", "lists"])])

def ser(cfg, q, t, defs=(), name=None, **kw):
    d = dict(name=name or "serial-%d" % cfg, src="serial.cpp", defs=["CFG=%d" % cfg] + list(defs), cases=(q, t), args=[], shards=2, shards_thorough=6,
             weight=6, libs=["-lboost_serialization"])
    d.update(kw)
    return d
PLAN["C15"] = dict(rule="A case fills containers with random histories (orders unrelated to insertion order), saves them with iterators and pointers to elements "
    "through a text, binary, XML or custom archive and loads them into containers with random earlier contents; then archives of older format versions, archives cut at "
    "random points, archives with a clashing element, archives with altered counts and node pointers, and exceptions at every 1st to 3rd allocation, copy, comparison, hash "
    "or archive read are loaded, and each container involved is checked for coherence and used on. distinct_nontrivial counts distinct contents-and-orders times archive kind.",
    assumptions=["corruption of text, binary and XML archives is limited to truncation and element payload, since Boost.Serialization itself does not validate object ids"],
    require={"round-trips": 500, "non-empty-round-trips": 400, "clash-reported": 100, "corruption-reported": 50, "truncated-rejected": 500, "fault-runs": 2000, "old-version-loads": 30},
    technique="runtime monitoring: round-trip and damaged-archive oracle with fault injection under ASan+UBSan",
    jobs=[ser(c, 140, 3000) for c in range(7)] + [ser(0, 60, 1500, ["VF_SAFE"], "serial-safe", shards=1), ser(1, 60, 1500, ["NO_DEFAULT"], "serial-no-default", shards=1),
          ser(6, 60, 1500, ["NO_DEFAULT"], "serial-no-default-hashed", shards=1)])

def sm(cfg, q, t, **kw):
    d = dict(name="misuse-%d" % cfg, src="safemode.cpp", defs=["CFG=%d" % cfg], cases=(q, t), args=[], shards=2, shards_thorough=6, weight={0: 9, 1: 5, 2: 5, 5: 5}.get(cfg, 2))
    d.update(kw)
    return d
PLAN["C16"] = dict(rule="A case is a seeded random history over three containers (one of another type with the same node type) with safe mode on; iterators are kept all along "
    "and after every operation each is used: one whose element is alive must work on the right element without a report, one whose element is gone must be reported. Between "
    "operations every entry point that takes an iterator is given each wrong kind of iterator it can get; the report must have the documented code and leave the containers "
    "unchanged. Further builds run the reference-model histories and fault injection in safe mode, where any report is a false alarm. distinct_nontrivial counts distinct "
    "(entry point, misuse, container sizes) and container states.",
    assumptions=A_HIST, require={"misuses": 100000, "dead-uses": 20000, "valid-uses": 100000, "dead-passed": 5000, "code-6": 500, "code-7": 500, "code-8": 500, "code-10": 500},
    technique="runtime monitoring: iterator-validity oracle and misuse injection in safe mode under ASan+UBSan",
    jobs=[sm(c, 160, 4000) for c in range(6)] + [
        eng(0, "safe-all-kinds", 120, 4000, defs=["VF_SAFE"]), eng(7, "safe-lists", 150, 4000, ["--cats", "list:10,transfer:10,copy:8"], defs=["VF_SAFE"]),
        fault(6, "safe-fault", 100, 4000, "", defs=["VF_SAFE"]), tr(0, "safe-cross-type", 200, 4000, defs=["VF_SAFE"])])

def ckj(cfg, q, t, **kw):
    d = dict(name="composite-%d" % cfg, src="composite.cpp", defs=["CFG=%d" % cfg], cases=(q, t), args=[], shards=2, shards_thorough=6, weight=9 if cfg in (2, 4) else 5)
    d.update(kw)
    return d
PLAN["C17"] = dict(rule="A case draws component function objects (direction, modulus and offset per component) and value domains, then compares pairs of composite keys of lengths "
    "1-5, 7 and 10 with results and with boost::tuple and std::tuple of int, long, short and references of every length 1-10, in both argument orders, and fills containers of values, "
    "pointers, shared pointers and reference wrappers with two ordered, two ranked and two hashed composite indices and looks up every prefix length. All answers are recomputed component by "
    "component. distinct_nontrivial counts distinct (lengths, outcome, deciding component) and container contents with function objects.",
    assumptions=["composite lengths 6, 8 and 9 are only reached as tuple lengths", "components are pure functions of the element"],
    require={"pairs": 20000, "equal-pairs": 1000, "equal-modulo": 50, "prefix-hits": 20000, "prefix-misses": 5000, "hash-hits": 5000, "mixed": 300, "unique-refused": 300},
    technique="runtime monitoring: component-wise recomputation oracle under ASan+UBSan",
    jobs=[ckj(0, 160, 6000), ckj(1, 200, 8000), ckj(2, 160, 5000), ckj(3, 300, 10000), ckj(4, 80, 3000)])

def exj(name, q, t, **kw):
    d = dict(name=name, src="extract.cpp", cases=(q, t), args=[], shards=2, shards_thorough=3, weight=5)
    d.update(kw)
    return d
PLAN["C18"] = dict(rule="A case applies every extractor (identity, member, the eight member function kinds with and without noexcept, global functions, static members, macros, explicit and offset "
    "variants, key<...>) to a random object, plain and as a base subobject at non-zero offset, through a value, reference wrappers and some two dozen pointer chains, and compares key value, "
    "object identity, function called, receiver and number of calls with a direct access; writes through each read/write extractor; and fills indices over values, pointers, shared pointers and "
    "reference wrappers. distinct_nontrivial counts distinct (extractor, handle, value) and index contents.",
    assumptions=["identity<T> and member<T,U,..> with non-const U are not applied to chained pointers to const T: the reference lists these but the declared return type excludes them, and they do not compile"],
    require={"writes": 5000, "derived": 50, "convertible": 100, "modify_key": 300, "index-hits": 1000},
    technique="runtime monitoring: identity and call-trace oracle under ASan+UBSan",
    jobs=[exj("clang-17", 400, 10000), exj("gcc-20", 300, 8000, cc=["g++", "-std=c++20", "-O0", "-g1"]), exj("clang-14", 300, 8000, cc=["clang++", "-std=c++14", "-O0", "-g1"]),
          exj("gcc-17-O2", 300, 8000, cc=["g++", "-std=c++17", "-O2", "-g1"], tiers=("thorough",))])

TSAN = ["-fsanitize=thread", "-pthread", "-fno-omit-frame-pointer"]
def thr(name, q, t, cc=("clang++", "-std=c++17", "-O1", "-g1"), defs=(), **kw):
    d = dict(name=name, src="threads.cpp", cc=list(cc), san=TSAN, defs=list(defs), cases=(q, t), args=[], shards=2, shards_thorough=2, weight=9, libs=["-lboost_serialization"])
    d.update(kw)
    return d
PLAN["C19"] = dict(rule="A case builds a container with ten indices of every kind and lets 4-6 threads run const operations of 20 kinds (lookups also by compatible keys and predicates, ranks, ranges, buckets, iteration, saving, composite keys, "
    "projection, copy, comparison, iterator copies) on it at once, the first use being concurrent, and 4-7 threads run mutating histories on containers of their own, half of the "
    "time handing node handles to each other, with function objects that throw at times, through nearly all mutating operations of all indices; function objects yield, spin and sleep at random. ThreadSanitizer watches every access, and each result is compared with that of a "
    "single-threaded run on an identically built container. In safe mode iterators of several threads to one container come and go. distinct_nontrivial counts distinct pairs of "
    "operation kinds whose execution intervals overlapped and distinct results of histories.",
    assumptions=["ThreadSanitizer sees conflicting accesses of the executed code that no synchronisation orders, whether or not they collide in time; code no case executes is not judged"],
    require={"concurrent-reads": 50000, "overlapping-pairs": 10000, "mail-histories": 200, "own-histories": 200, "kept-iterators": 2000, "exceptions": 1000},
    technique="runtime monitoring: ThreadSanitizer race detection and comparison with single-threaded execution under injected scheduling noise",
    jobs=[thr("clang", 1600, 20000, shards=3), thr("clang-safe", 400, 4000, shards=3, defs=["VF_SAFE"]), thr("gcc-O2", 800, 10000, cc=("g++", "-std=c++17", "-O2", "-g1"))])

def cpx(cfg, name, q, t, **kw):
    d = dict(name=name, src="complexity.cpp", defs=["CFG=%d" % cfg], cc=["clang++", "-std=c++17", "-O0", "-g1"], fixed_flags=True,
             san=["-fsanitize-coverage=bb,no-prune,trace-pc"], cases=(q, t), args=[], shards=3, shards_thorough=6, weight=5)
    d.update(kw)
    return d
PLAN["C20"] = dict(rule="A case builds containers of 256, 4096 or 8192 and 16384 elements (lists: up to 4096) by one of nine histories (ascending, descending, random, all equal, few groups, zigzag, "
    "sawtooth erasure, random churn, middle-out) and measures every operation at each size: basic blocks executed (compiler instrumentation of the library's code), function object calls, allocations, element "
    "copies and moves. Growth between sizes must fit the documented bound with a factor 3; lookups must need no more comparisons than a red-black tree is high; transfers, rearrangements and lookups must neither "
    "copy elements nor allocate. Counts are exact and repeatable; no timing is used. distinct_nontrivial counts distinct (operation, history, size, cost).",
    assumptions=["growth is judged between the measured sizes only", "blocks of code not compiled here (memmove, allocation) are not counted", "amortised and average bounds are judged as averages over many operations"],
    require={"growth-checks": 5000, "balance-sweeps": 50},
    technique="runtime monitoring: instrumented operation counts (basic blocks, function object calls, allocations, copies) against documented growth",
    jobs=[cpx(0, "ordered", 27, 108), cpx(1, "ranked", 27, 108), cpx(2, "hashed", 27, 108), cpx(3, "lists", 9, 36), cpx(4, "six-indices", 18, 72),
          cpx(0, "ordered-deep", 18, 36, args=["--deep", "1"], tiers=("thorough",)), cpx(1, "ranked-deep", 18, 36, args=["--deep", "1"], tiers=("thorough",)),
          cpx(2, "hashed-deep", 18, 36, args=["--deep", "1"], tiers=("thorough",)), cpx(4, "six-indices-deep", 18, 36, args=["--deep", "1"], tiers=("thorough",))])

def cf(name, defs=(), cc=("clang++", "-std=c++11", "-O0", "-g1"), san=SAN, **kw):
    d = dict(name="config-" + name, src="config.cpp", cc=list(cc), san=list(san), defs=list(defs), cases=(300, 6000), args=["--digest", "config"], shards=1, shards_thorough=6,
             fixed_flags=True, weight=4)
    d.update(kw)
    return d
def ce(cfg, name, defs=(), cases=(60, 2000), **kw):
    kw.setdefault("cc", CLANG)
    return eng(cfg, "engine%d-%s" % (cfg, name), cases[0], cases[1], ["--digest", "engine%d" % cfg], defs, 2, fixed_flags=True, **kw)
UNC = ["BOOST_MULTI_INDEX_DISABLE_COMPRESSED_ORDERED_INDEX_NODES"]
INV = ["BOOST_MULTI_INDEX_ENABLE_INVARIANT_CHECKING"]
NOSER = ["BOOST_MULTI_INDEX_DISABLE_SERIALIZATION"]
def rl(name, q, t, defs=(), **kw):
    d = dict(name=name, src="reloc.cpp", defs=list(defs), cases=(q, t), args=["--len", "60"], shards=2, shards_thorough=6, weight=4, fixed_flags=True)
    d.update(kw)
    return d
PLAN["C22"] = dict(rule="The same seeded histories run in builds that differ in compiler, language standard (C++11 to C++23), optimisation, safe mode, invariant checking, node compression, "
    "serialization support, emulation macros and allocator pointer type (raw, or a class with explicit construction only). In each case all observations (every index's traversal after every "
    "operation, results, lookups, bucket counts, the operation log) are hashed, and builds must give the same hash for the same case; each also runs its own coherence or model oracle. "
    "A further program keeps containers in a Boost.Interprocess segment which is copied to another address between operations, the old one becoming inaccessible. "
    "distinct_nontrivial counts distinct observed states.",
    assumptions=["configurations whose compilers are not installed (MSVC, pre-C++11 modes, 32-bit) are not judged"] + A_HIST,
    require={"reloc-moves": 3000, "reloc-out-of-memory": 50, "digests-compared": 3000, "config-histories": 2000},
    technique="runtime monitoring: comparison of observation digests across instrumented builds, with ASan+UBSan",
    jobs=[cf("cxx11-asan"), cf("gcc14-O2", cc=("g++", "-std=c++14", "-O2", "-g1"), san=()), cf("fancy-cxx17", ["VF_FANCY"], ("clang++", "-std=c++17", "-O0", "-g1")),
          cf("safe-cxx20", ["VF_SAFE"], ("clang++", "-std=c++20", "-O0", "-g1")), cf("gcc23-uncompressed", UNC, ("g++", "-std=c++23", "-O1", "-g1"), ()),
          cf("cxx11-O3-invariants", INV, ("clang++", "-std=c++11", "-O2", "-g1"), ()),
          cf("no-library-features", NOSER + ["BOOST_NO_CXX11_HDR_INITIALIZER_LIST", "BOOST_NO_MEMBER_TEMPLATE_FRIENDS", "BOOST_NO_CXX11_HDR_TUPLE"], ("clang++", "-std=c++14", "-O0", "-g1")),
          cf("old-allocator", ["BOOST_NO_CXX11_ALLOCATOR"], ("clang++", "-std=c++17", "-O0", "-g1")),
          cf("no-moves", ["VF_NOMOVE"], ("clang++", "-std=c++17", "-O0", "-g1"), (), args=["--digest", "config-nomove"], cases=(150, 3000)),
          cf("emulated-moves", ["VF_NOMOVE", "BOOST_NO_CXX11_RVALUE_REFERENCES", "BOOST_NO_CXX11_ALLOCATOR"], args=["--digest", "config-nomove"], cases=(150, 3000)),
          cf("no-language-features", ["BOOST_NO_ARGUMENT_DEPENDENT_LOOKUP", "BOOST_NO_CXX11_EXPLICIT_CONVERSION_OPERATORS", "BOOST_NO_CXX11_HDR_TYPE_TRAITS", "BOOST_NO_SFINAE_EXPR", "BOOST_NO_CXX11_REF_QUALIFIERS"],
             tiers=("thorough",)),
          cf("gcc11-fancy-O3", ["VF_FANCY"], ("g++", "-std=c++11", "-O3", "-g1"), (), tiers=("thorough",)),
          cf("no-if-constexpr", ["BOOST_NO_CXX17_IF_CONSTEXPR"] + UNC, ("clang++", "-std=c++17", "-O0", "-g1"), tiers=("thorough",)),
          cf("safe-fancy", ["VF_SAFE", "VF_FANCY"], ("clang++", "-std=c++14", "-O0", "-g1"), tiers=("thorough",)),
          ce(0, "plain"), ce(0, "fancy", ["VF_FANCY"]), ce(0, "invariants", INV), ce(0, "uncompressed", UNC + NOSER), ce(0, "safe", ["VF_SAFE"]),
          ce(0, "gcc20-O2", cc=["g++", "-std=c++20", "-O2", "-g1"], san=[], tiers=("thorough",)),
          ce(7, "plain", cases=(100, 3000)), ce(7, "fancy", ["VF_FANCY"] + INV, cases=(100, 3000)),
          ce(5, "plain", cases=(100, 3000)), ce(5, "fancy-uncompressed", ["VF_FANCY"] + UNC, cases=(100, 3000)),
          ce(3, "plain", cases=(100, 3000), tiers=("thorough",)), ce(3, "fancy", ["VF_FANCY"], cases=(100, 3000), tiers=("thorough",)),
          rl("relocated", 200, 8000), rl("relocated-safe", 100, 4000, ["VF_SAFE"]), rl("relocated-gcc-O2", 200, 8000, cc=("g++", "-std=c++14", "-O2", "-g1"), san=()),
          ce(4, "plain", cases=(100, 3000), tiers=("thorough",)), ce(4, "fancy-safe", ["VF_FANCY", "VF_SAFE"], cases=(100, 3000), tiers=("thorough",))])

PLAN["C23"] = dict(rule="A case is a seeded random history over two containers with equal and one with another allocator, from every index, accepted and refused. Element objects count every construction, copy, move, assignment and destruction; "
    "each operation's counts are compared with what it asks for. Emplacing operations get 0 to 7 arguments that cannot be copied or moved, in the categories lvalue, const lvalue and rvalue, and the element notes what it received; some builds emulate variadic templates (0 to 5 arguments). "
    "distinct_nontrivial counts distinct container contents observed.",
    assumptions=["the histories are random samples; paths no history drives are not judged", "a refused insertion may construct and destroy one temporary element object; lists and ranges may copy refused values"],
    require={"operations-counted": 60000, "emplaced": 5000, "emplace-refused": 1000},
    technique="runtime monitoring: counting of element constructions, copies, moves and assignments per operation, with ASan+UBSan",
    jobs=[tf(0, 2000, 40000), tf(1, 2000, 40000), tf(2, 2000, 40000), tf(3, 2000, 40000),
          tf(1, 400, 10000, ["VF_STD_ALLOC"], "-gcc-std", cc=("g++", "-std=c++20", "-O1", "-g1")),
          tf(0, 200, 6000, ["BOOST_MULTI_INDEX_ENABLE_SAFE_MODE", "BOOST_MULTI_INDEX_ENABLE_INVARIANT_CHECKING"], "-safe"),
          tf(0, 400, 10000, EMU, "-emulated", cc=("clang++", "-std=c++17", "-O0", "-g1")), tf(1, 400, 10000, EMU, "-emulated", cc=("clang++", "-std=c++17", "-O0", "-g1"), tiers=("thorough",)),
          tf(2, 300, 10000, ["VF_STD_ALLOC"], "-std", tiers=("thorough",)), tf(3, 300, 10000, ["VF_STD_ALLOC"], "-gcc-O2", cc=("g++", "-std=c++17", "-O2", "-g1"), san=(), tiers=("thorough",))])
