"""The stages of every check: one program each, built from props/ and /repo."""


def stage(name, src, quick, thorough, **kw):
    d = {"name": name, "src": [src] if isinstance(src, str) else src,
         "cases": {"quick": quick, "thorough": thorough}}
    d.update(kw)
    return d


CHECKS = {
    "C01": {"level": "exploration", "stages": [
        stage("roundtrip", "C01.cpp", 100000, 1000000),
        stage("large", "C01_large.cpp", 4, 120, san="none", jobs=4)]},
    "C02": {"level": "exploration", "stages": [stage("saved", "C02.cpp", 75000, 600000)]},
    "C03": {"level": "exploration", "stages": [stage("numpy", "C03.cpp", 75000, 600000)]},
    "C04": {"level": "exploration", "stages": [stage("spelling", "C04.cpp", 150000, 1500000)]},
    "C05": {"level": "exploration", "stages": [stage("peeks", "C05.cpp", 25000, 500000)]},
    "C06": {"level": "exploration", "stages": [stage("sequence", "C06.cpp", 75000, 600000)]},
    "C07": {"level": "exploration", "stages": [stage("cuts", "C07.cpp", 9000, 150000)]},
    "C08": {"level": "exploration", "stages": [stage("bytes", "C08.cpp", 150000, 4000000, san="ubsan", cpu=20)]},
    "C09": {"level": "exploration", "stages": [stage("types", "C09.cpp", 10000, 500000)]},
    "C10": {"level": "exploration", "stages": [
        stage("layout", "C10.cpp", 60000, 1500000),
        stage("large", "C10_large.cpp", 8, 60, san="none", jobs=2)]},
    "C11": {"level": "exploration", "stages": [stage("indices", "C11.cpp", 40000, 1000000, san="ubsan")]},
    "C12": {"level": "exploration", "stages": [stage("machine", "C12.cpp", 90000, 1500000)]},
    "C13": {"level": "exploration", "stages": [
        stage("roundtrip", "C13.cpp", 20000, 500000),
        stage("many", "C13_many.cpp", 24, 240, san="none"),
        stage("big", "C14_big.cpp", 24, 1000, san="none")]},
    "C14": {"level": "exploration", "stages": [
        stage("valid", "C14.cpp", 14000, 200000),
        stage("many", "C13_many.cpp", 24, 240, san="none"),
        stage("big", "C14_big.cpp", 48, 1000, san="none")]},
    "C15": {"level": "exploration", "stages": [
        stage("numpy", "C15.cpp", 8000, 200000),
        stage("big", "C15_big.cpp", 48, 1000, san="none")]},
    "C16": {"level": "exploration", "stages": [stage("deflate", "C16.cpp", 14000, 200000)]},
    "C17": {"level": "exploration", "stages": [
        stage("hooked", "C17_hooked.cpp", 6000, 150000,
              lib_flags=["-DLIBNPY_VERIF_ZIP64_LIMIT=verif_zip64_limit", "-include", "zip64_limit.h"]),
        stage("offsets", "C17_offsets.cpp", 20000, 400000, san="none"),
        stage("count", "C13_many.cpp", 24, 240, san="none"),
        stage("huge", "C17_huge.cpp", 1, 14, san="none", jobs=1, cpu=600)]},
    "C18": {"level": "exploration", "stages": [
        stage("damage", "C18.cpp", 3500, 150000),
        stage("big", "C18_big.cpp", 24, 1000, san="none")]},
    "C19": {"level": "exploration", "stages": [stage("bytes", "C19.cpp", 30000, 1500000, san="ubsan", cpu=20)]},
    "C20": {"level": "exploration", "stages": [stage("history", "C20.cpp", 20000, 600000)]},
    "C21": {"level": "exploration", "stages": [stage("life", "C21.cpp", 15000, 300000)]},
    "C22": {"level": "fault_enumeration", "stages": [stage("storage", "C22.cpp", 1050, 60000)]},
    "C23": {"level": "exploration", "stages": [stage("threads", "C23.cpp", 300, 30000, san="tsan", jobs=4, sticky=True)]},
    "C24": {"level": "exploration", "stages": [stage("locales", "C24.cpp", 4000, 200000)]},
    "C25": {"level": "exploration", "stages": [stage("custom", "C25.cpp", 20000, 400000)]},
    "C26": {"level": "exploration", "stages": [stage("codes", "C26.cpp", 120000, 1500000)]},
    "C27": {"level": "exploration", "stages": [stage("values", "C27.cpp", 1200000, 12000000, san="ubsan", reduced=["-DNUMBERS_ONLY"])]},
    "C28": {"level": "exploration", "stages": [stage("leaks", "C28.cpp", 4000, 100000, san="none")]},
    "C30": {"level": "exploration", "stages": [stage("files", "C30.cpp", 24000, 400000)]},
    "C31": {"level": "exploration", "stages": [stage("reproduce", "C31.cpp", 8000, 200000)]},
    "C32": {"level": "exploration", "stages": [stage("life", "C32.cpp", 20000, 400000)]},
    "C33": {"level": "exploration", "stages": [stage("meter", "C33.cpp", 3000, 60000, san="none")]},
    "C34": {"level": "exploration", "stages": [stage("times", "C34.cpp", 4000, 100000)]},
    "C29": {"level": "exploration", "stages": [stage("memory", "C29.cpp", 2500, 200000, san="none")]},
}

_SEARCH = "Randomised search with a fixed case count: it shows violations with a shrunk replay, never their absence. "
# per property: the deciding method, and what it assures and trusts
NOTES = {
    "C01": ("round trip of generated tensors through every save/load entry point",
            _SEARCH + "The oracle is the generated value itself, compared bit by bit; memory errors show under ASan."),
    "C02": ("differential against an independent strict NPY parser and NumPy",
            _SEARCH + "Trusts NumPy and the harness's own parser (written from the format document), which must agree with each other."),
    "C03": ("differential against NumPy as the writer",
            _SEARCH + "Trusts NumPy's writer; the expected value comes from the generator, not from libnpy."),
    "C04": ("metamorphic: random conforming spellings of one header",
            _SEARCH + "The grammar covers key order, inner white space, optional commas, padding and version; quotes other than ' and number suffixes are not generated."),
    "C05": ("differential between peek, the declared header and load",
            _SEARCH + "Streams that count what is consumed judge 'reads only the header'."),
    "C06": ("model-based sequences on one stream",
            _SEARCH + "Stream position checked after every load on seekable and unseekable streams."),
    "C07": ("exhaustive truncation points of generated files",
            _SEARCH + "All cut points of files up to 2300 bytes, boundary-biased ones beyond."),
    "C08": ("structured fuzzing under ASan+UBSan with an accept oracle",
            _SEARCH + "An accepted input must parse in the harness's own lenient header parser with the same result; allocations above 64 MiB are refused to keep absurd sizes cheap; CPU limit 20 s a case stands for termination."),
    "C09": ("all pairs of element types on generated data",
            _SEARCH + "Every ordered pair of types appears in every case of the pairs stage."),
    "C10": ("differential of every accessor against a layout model",
            _SEARCH + "All indices of small tensors, sampled ones up to 4 GiB buffers."),
    "C11": ("generated bad indices through every accessor under ASan/UBSan",
            _SEARCH + "Out-of-bounds accesses inside the element buffer show as a missing exception, outside it as an ASan report."),
    "C12": ("stateful model-based testing against plain values",
            _SEARCH + "Histories up to 25 steps over four tensors."),
    "C13": ("stateful round trip of archives against a map model",
            _SEARCH + "Up to 2^17 entries in a separate stage."),
    "C14": ("differential against a strict ZIP parser, Python's zipfile and NumPy",
            _SEARCH + "Trusts zipfile/zlib/NumPy and the harness's parser."),
    "C15": ("differential against NumPy as the archive writer", _SEARCH + "Trusts NumPy's writer."),
    "C16": ("differential against zlib and a generated-token DEFLATE encoder",
            _SEARCH + "Token streams reach block types, code lengths and distances no real encoder emits."),
    "C17": ("round trip and differential at lowered, simulated and real ZIP64 sizes",
            _SEARCH + "The lowered limit uses the hook; offsets beyond 4 GiB use sparse files; one entry beyond 4 GiB is real (skipped, with a note, when memory is short)."),
    "C18": ("one-region fault injection on archives",
            _SEARCH + "CRC-32 collisions by more than one region are outside the property."),
    "C19": ("structured fuzzing of archives under ASan+UBSan",
            _SEARCH + "Terminates is judged by a CPU limit; allocations capped."),
    "C20": ("stateful differential against a fresh reader", _SEARCH + "Histories up to 15 operations."),
    "C21": ("stateful testing of writers with failing tensors",
            _SEARCH + "The finished archive is judged by the strict parser and by reading it back."),
    "C22": ("enumeration of every byte count at which storage fails",
            "For each generated file up to 700 bytes every failure point is tried (RLIMIT_FSIZE), selected ones beyond, and a full device; the files themselves are sampled."),
    "C23": ("generated thread programs under ThreadSanitizer, compared with running alone",
            _SEARCH + "Schedules are the operating system's; TSan generalises over them for the executed accesses. Sources are rebuilt with TSan; a data race inside libstdc++ or libc would not be seen."),
    "C24": ("metamorphic: random installed locales against the classic one",
            _SEARCH + "Locales are built from random facets as only C, C.utf8 and POSIX are installed."),
    "C25": ("differential between custom tensor types and the built-in one",
            _SEARCH + "Three types that differ in order, ownership and how they read and write."),
    "C26": ("exhaustive type codes within random histories of look-ups",
            _SEARCH + "The finite table is enumerated in every case; near-miss strings are sampled."),
    "C27": ("differential against the language's own conversion to bool",
            _SEARCH + "Every arithmetic type, pointers, enumerations and classes."),
    "C29": ("generated scenarios with every memory allocation failing in turn",
            _SEARCH + "Up to 80 allocation points per scenario, alone or with all later ones; malloc is replaced."),
    "C30": ("stateful comparison of a directory tree with a model of it after every call",
            _SEARCH + "Runs as an unprivileged file-system user; no full disks or concurrent writers."),
    "C31": ("metamorphic: the same save repeated under other times, threads, processes, memory and histories",
            _SEARCH + "Compares the library with itself only; clock and fresh memory are replaced by the harness."),
    "C32": ("stateful testing with arguments destroyed after each call and results compared with a model after every operation",
            _SEARCH + "Kept references show as AddressSanitizer reports or as changed values."),
    "C33": ("measuring memory and input of every call on generated arrays and archives",
            _SEARCH + "Limits are a fixed allowance plus a generous multiple (8 to 64) of the data a call is about; time is not judged."),
    "C34": ("generated programs that use the library before, in and after main, compared with the same operations within main",
            _SEARCH + "Each case is a new process; static objects of the library's own are preceded and outlived by the harness's."),
    "C28": ("allocation and handle accounting with injected allocation failures",
            _SEARCH + "malloc is replaced; blocks the C++ run time keeps for good are settled by a warm-up run of the same operation."),
}
