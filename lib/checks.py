"""The checks: which harness decides which property, how it is built, what it assumes."""
import os
import build as B

H = os.path.join(B.VERIF, "harness")
CHECKS = {}


def check(prop, harness, rule, assumptions=(), config="asan", args=(), level="model_checking", builder=None, **kw):
    CHECKS[prop] = dict(harness=harness, rule=rule, config=config, args=list(args), level=level, builder=builder,
                        assumptions=list(assumptions), **kw)


def build_check(prop):
    c = CHECKS[prop]
    if c["builder"]:
        return c["builder"](c)
    exe = B.build(c["harness"], [os.path.join(H, c["harness"] + ".cpp")], c["config"])
    return exe, c["args"]


SMALL = "bounded: holds for every case of the families listed under coverage.families, says nothing beyond their bounds"
REF = "the reference distance (dynamic programming over the definition, harness/ref.h) is right"

for prop, alg, name in (("C01", 0, "standard"), ("C02", 1, "transposition"), ("C03", 2, "merge-and-split")):
    check(prop, "query", config="asan", args=[str(alg)],
          rule="every dictionary x query x bound of each family is run through the public API with %s distance and the "
               "results (terms, distances, multiplicity) are compared with the reference; a case is non-trivial when "
               "the reference answer is neither empty nor only the query itself" % name,
          assumptions=[SMALL, REF])

check("C10", "dict", assumptions=[SMALL],
      rule="every ascending sequence of each family is built into a dictionary whose size, iteration and membership (of "
           "its terms and of other strings) are compared with the set of terms; non-trivial: two or more terms")
check("C11", "dict", assumptions=[SMALL, "blocks are counted at operator new/delete"],
      rule="every sequence of each family is given to the factory and added one by one; verdicts, final contents and the "
           "number of live heap blocks are compared with a model; non-trivial: the sequence descends somewhere")
check("C12", "dict", assumptions=[SMALL],
      rule="the node graph of every dictionary of each family is compared with the minimal automaton of its terms "
           "(partition by accepted suffixes, node count); non-trivial: the minimal automaton has more than two states")
check("C13", "dict", assumptions=[SMALL],
      rule="every pair of dictionaries, nodes, transitions and term pairs of each family is compared and hashed, built "
           "through different routes and heap placements; all count as non-trivial")
check("C18", "dict", assumptions=[SMALL],
      rule="every sequence of add and remove calls of each family is made on finished, loaded and unfinished "
           "dictionaries; all observers are compared before and after each call; all count as non-trivial")
check("C22", "dict", assumptions=[SMALL],
      rule="every sequence of edge operations of each family is run against a map; non-trivial: some edge is present")

check("C08", "distance", assumptions=[SMALL, REF], config="plain",
      rule="every pair and every call history of each family is asked of the real distance objects and compared with the "
           "reference; non-trivial: the distance is neither zero nor the longer length, or the case is a history")
check("C09", "distance", assumptions=[SMALL, "triangle violations of the transposition distance listed in known-findings.txt are findings, any other is a violation"],
      config="plain",
      rule="the metric laws are evaluated on the distances the library returns for every pair and triple of each family; "
           "non-trivial: pairs at distance two or more (triples), different terms (affixes)")

check("C04", "lazy", assumptions=[SMALL],
      rule="for every dictionary x query x algorithm of each family the answer of the largest bound is filtered and "
           "compared with the answer of every other bound, in both formats; non-trivial: the answer is neither empty "
           "nor the whole dictionary")
check("C05", "lazy", assumptions=[SMALL],
      rule="every interleaving of the steps of the iterations of each family is executed in a fresh dictionary and every "
           "iteration is compared, after every step of any of them, with what it yields alone; all count as non-trivial")
check("C17", "lazy", assumptions=[SMALL, "blocks are counted at operator new/delete; invalid accesses and frees are trapped by AddressSanitizer",
                                 "an iteration is not used after its transducer or dictionary is gone"],
      rule="every legal sequence of create, use and destroy operations of each family is executed under AddressSanitizer "
           "and must leave no block allocated; all count as non-trivial")

check("C19", "automaton", assumptions=[SMALL, "blocks are counted at operator new/delete"],
      rule="every operation history of each family is run on the real list and on a vector, compared after every step "
           "(contents, iteration, cursor, live blocks); non-trivial: two or more positions, or something removed")
check("C20", "automaton", assumptions=[SMALL, REF, "what a position accepts is taken from its definition (rest of the query and errors spent), not from the successor function"],
      rule="the library's subsumption is evaluated on every pair of positions of each family, its verdicts are compared "
           "with the acceptance of every continuation; non-trivial: the verdict is 'subsumes', or something was pruned")

check("C14", "serial", assumptions=[SMALL],
      rule="every dictionary of each family is saved and loaded through the real serializer (overloads, stream block sizes, "
           "file histories) and the copy is compared with the original in every observer and in the shape of its graph; "
           "non-trivial: two or more terms, or a file was involved")
check("C15", "serial", level="fault_enumeration",
      assumptions=[SMALL, "blocks are counted at operator new/delete; invalid accesses are trapped by AddressSanitizer",
                   "protobuf's own parser is trusted to reject or parse, what it accepts is what is judged"],
      rule="every damage of each family is applied to real saves (or the message is built directly), loaded through the real "
           "deserializer, and whatever is not refused is walked, counted, iterated, queried, saved again and destroyed; "
           "non-trivial: loading gave a dictionary")
check("C16", "serial", level="fault_enumeration",
      assumptions=[SMALL, "blocks are counted at operator new/delete",
                   "file operations are intercepted at the C library boundary (open, write, writev, close, fsync, rename and stdio); a failing close loses what the file held"],
      rule="every fault of each family is injected into a real save and its verdict is compared with what the destination "
           "then holds; non-trivial: a failure was delivered")


check("C23", "faults", level="fault_enumeration",
      assumptions=[SMALL, REF, "allocations are those through operator new; what is allocated for an operation that failed may be lost"],
      rule="every operation of each family is run once for each of its allocations, with that allocation failing (alone or with "
           "all later ones); what it yields, and everything that existed before, is compared with the reference afterwards; "
           "non-trivial: a failure was delivered")


check("C24", "schema", assumptions=[SMALL, REF, "what the schema says is encoded and decoded by harness/schema.cpp after proto/liblevenshtein.proto as published"],
      rule="every dictionary of each family is saved and the bytes are decoded by hand, and every encoding of each family is written by "
           "hand and loaded by the real deserializer and compared with the dictionary it spells; non-trivial: two or more terms")


check("C25", "explore", assumptions=[SMALL, REF, "reads are seen where they are compiled with AddressSanitizer (the library and the headers it uses)", "work is measured in allocations"],
      rule="every query and membership test of each family runs while the nodes it has no reason to look at are poisoned, so that reading "
           "one ends the process; answers are compared with the reference; non-trivial: some node was poisoned, or work was measured")


def build_demo(c):
    src = os.path.join(B.REPO, "example", "src")
    inc = ["-Dmain=demo_main", "-I" + src]
    extra = [(os.path.join(src, f), B.CONFIGS["plain"] + inc) for f in sorted(os.listdir(src)) if f.endswith(".cpp")]
    return B.build("demo", [os.path.join(H, "demo.cpp")], "plain", extra_sources=extra), []


check("C21", "demo", config="plain", builder=build_demo,
      assumptions=[SMALL, REF, "the save can be written; what is typed contains no line that imitates the program's own output"],
      rule="every session of each family is held with the real program (a process with scratch files), its output parsed and "
           "compared with the reference, its save loaded, and the session repeated from the save; non-trivial: something was found")


def build_threads(c):
    rt = os.path.join(B.VERIF, "rt", "rt.cpp")
    with open(os.path.join(B.VERIF, "rt", "rt.h")) as f:
        tag = "-DRT_H=%d" % (hash_text(f.read()))
    return B.build("threads", [os.path.join(H, "threads.cpp")], "hb", defines=[tag[2:]],
                   extra_sources=[(rt, ["-O2", "-fno-builtin", "-fno-threadsafe-statics", tag])], libs=["-rdynamic"]), []


def hash_text(s):
    import zlib
    return zlib.crc32(s.encode())


HB = ["accesses are judged where the library and the harness are compiled from source; the C++ runtime and protobuf libraries are trusted, their locks are scheduled",
      "weak memory is judged by the happens-before order only"]
check("C06", "threads", config="hb", builder=build_threads, assumptions=[SMALL] + HB,
      rule="every combination of read operations of each family runs in real threads under our scheduler, once per schedule "
           "within the preemption bound; every memory access is checked against the happens-before order and every answer "
           "against what the operation answers alone; every schedule counts as non-trivial")
check("C07", "threads", config="hb", builder=build_threads, assumptions=[SMALL, REF] + HB,
      rule="every combination of calls of each family runs in real threads under our scheduler, once per schedule within the "
           "preemption bound; every memory access is checked against the happens-before order, every answer and every later "
           "answer against the reference; every schedule counts as non-trivial")
