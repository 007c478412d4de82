"""What each check runs: harness, build variant, number of generated cases (quick, thorough)."""


def run(name, suite, variant, quick, thorough, **kw):
    return dict(name=name, suite=suite, variant=variant, quick=quick, thorough=thorough, **kw)


MODEL = "stateful model-based property testing of the library with shrinking"
NET = "stateful model-based property testing of the server over real sockets with shrinking"
SPECS = {
    "C01": {"technique": MODEL, "runs": [run("model", "cache_suite", "plain", 8000, 120000), run("asan", "cache_suite", "asan", 1000, 15000), run("net", "net_suite", "plain", 4000, 60000), run("capi", "capi_suite", "plain", 30000, 400000)],
            "note": "Random histories against a reference map, with controlled hash values, index sizes and growth steps; also under AddressSanitizer. The same through the text protocol on sockets and through the C interface."},
    "C02": {"technique": MODEL, "runs": [run("model", "cache_suite", "plain", 20000, 120000), run("capi", "capi_suite", "plain", 60000, 800000)],
            "note": "Random histories under memory pressure against a reference map that follows the eviction callback. Also through the C interface and its callback."},
    "C03": {"technique": MODEL + ", owned clock", "runs": [run("model", "cache_suite", "plain", 300000, 4000000), run("asan", "cache_suite", "asan", 8000, 100000), run("net", "net_suite", "plain", 15000, 200000), run("capi", "capi_suite", "plain", 40000, 500000)],
            "note": "The monotonic clock belongs to the harness, including ticks at any clock reading inside an operation. The same through the text protocol on sockets and through the C interface."},
    "C04": {"technique": MODEL, "runs": [run("model", "cache_suite", "plain", 500000, 3000000), run("net", "net_suite", "plain", 15000, 200000)],
            "note": "Version tokens of every item version are tracked by the model; cas with current, stale, foreign and future tokens. The same with gets and cas through the text protocol."},
    "C05": {"technique": MODEL, "runs": [run("model", "cache_suite", "plain", 350000, 2500000), run("asan", "cache_suite", "asan", 8000, 100000), run("net", "net_suite", "plain", 15000, 200000), run("capi", "capi_suite", "plain", 40000, 500000)],
            "note": "Boundary-biased numbers and near-numbers, with and without memory pressure. The same through the text protocol on sockets and through the C interface."},
    "C06": {"technique": MODEL + ", fault injection", "runs": [run("model", "cache_suite", "plain", 50000, 600000), run("asan", "cache_suite", "asan", 5000, 50000), run("net", "net_suite", "plain", 12000, 150000), run("capi", "capi_suite", "plain", 40000, 500000)],
            "note": "Sizes around the page limit, refused stores, failing heap allocations during index growth, guard pages around the arena. The same through the text protocol on sockets and through the C interface."},
    "C07": {"technique": MODEL, "runs": [run("model", "cache_suite", "plain", 250000, 3000000), run("net", "net_suite", "plain", 12000, 150000), run("capi", "capi_suite", "plain", 40000, 500000)],
            "note": "Reported memory compared with the live items after every operation; capacity measured against a fresh cache at the end. The same through the text protocol on sockets and through the C interface."},
    "C08": {"technique": "stateful model-based property testing of the allocator with shrinking", "runs": [run("model", "alloc_suite", "plain", 40000, 250000)],
            "note": "Allocator driven directly; blocks carry patterns, the arena lies between guard pages."},
    "C09": {"technique": MODEL, "runs": [run("model", "cache_suite", "plain", 25000, 150000)],
            "note": "Necessity judged conservatively from the addresses of live items; page of every victim computed from its address."},
    "C10": {"technique": "stateful model-based property testing of the index with controlled hash values and shrinking", "runs": [run("model", "dict_suite", "plain", 30000, 200000), run("asan", "dict_suite", "asan", 1500, 20000), run("big", "dict_suite", "plain", 10, 80, workers=3)],
            "note": "dict (three option sets) and hash_table against std::map under eleven hash shapes, growth and failing growth; indexes up to 2^27 slots."},
    "C11": {"technique": NET, "runs": [run("model", "net_suite", "plain", 10000, 200000), run("asan", "net_suite", "asan", 2000, 30000), run("daemon", "net_suite", "plain", 1500, 30000, server="server")],
            "note": "Random command histories, compared byte for byte with an independent protocol model; owned clock; malformed and oversized commands; also against the executable."},
    "C12": {"technique": NET + ", metamorphic over segmentations", "runs": [run("model", "net_suite", "plain", 8000, 80000), run("asan", "net_suite", "asan", 1000, 10000), run("daemon", "net_suite", "plain", 2000, 20000, server="server")],
            "note": "Streams cut byte by byte, at random and around line ends; TCP and unix sockets; every complete command must be answered before more is sent."},
    "C13": {"technique": "grammar-based and mutational fuzzing of the server's sockets with a responsiveness and integrity oracle, also under AddressSanitizer", "runs": [run("model", "net_suite", "plain", 2500, 25000), run("asan", "net_suite", "asan", 2000, 20000), run("daemon", "net_suite", "plain", 1500, 15000, server="server")],
            "note": "Generated bytes on all three transports in any segmentation, unterminated lines up to beyond the buffer limit; another client's items are verified."},
    "C14": {"technique": NET, "runs": [run("model", "net_suite", "plain", 20000, 400000), run("asan", "net_suite", "asan", 3000, 40000), run("daemon", "net_suite", "plain", 1000, 20000, server="server")],
            "note": "Datagrams with well-formed commands, bad headers and incomplete commands interleaved; every reply compared with the protocol model."},
    "C15": {"technique": MODEL + "; the same through the stats command and the statistics signal", "runs": [run("model", "cache_suite", "plain", 250000, 3000000), run("alloc", "alloc_suite", "plain", 10000, 120000), run("net", "net_suite", "plain", 6000, 120000), run("daemon", "net_suite", "plain", 1000, 20000, server="server")],
            "note": "Every counter compared with an independent account of the history, in process, over the wire and as printed by the server on SIGUSR1."},
    "C16": {"technique": "property-based testing against an independent 128-bit oracle, exhaustive for 8/16-bit types", "runs": [run("model", "prim_suite", "plain", 300000, 3000000), run("asan", "prim_suite", "asan", 40000, 400000)],
            "note": "Boundary-biased values and texts for all eight types from memory with inaccessible neighbours. Also under AddressSanitizer."},
    "C17": {"technique": "stateful model-based property testing with allocation-failure injection and shrinking", "runs": [run("model", "buf_suite", "plain", 800000, 10000000), run("asan", "buf_suite", "asan", 20000, 300000)],
            "note": "io_buffer against a byte string with positions; ASan watches the writes into reserved space."},
    "C18": {"technique": "differential and model-based testing of random C API programs with shrinking", "runs": [run("model", "capi_suite", "plain", 250000, 2000000), run("asan", "capi_suite", "asan", 8000, 100000)],
            "note": "C interface in lock-step with the C++ interface on twin caches and a reference map; hash zero is not passed (reserved)."},
    "C19": {"technique": "property-based testing of random configurations with a model-based workload up to the limits of each accepted one", "runs": [run("model", "cfg_suite", "plain", 6000, 60000), run("daemon", "net_suite", "plain", 1500, 20000, server="server")],
            "note": "Library and C interface with controlled refusal of memory by the system; pages up to 2 GB and arenas of terabytes in reserved address space; command line in several notations."},
    "C20": {"technique": NET + ", generated schedules of sends, reads and reactor steps", "runs": [run("model", "net_suite", "plain", 8000, 80000), run("asan", "net_suite", "asan", 2500, 25000), run("daemon", "net_suite", "plain", 1500, 20000, server="server")],
            "note": "Two to six clients with private and shared keys; the case decides which client sends or reads how many bytes when, how many handlers run and who leaves abruptly."},
    "C21": {"technique": "stateful property testing of the server executable with random client activity, signals and command lines", "runs": [run("daemon", "net_suite", "plain", 10000, 60000, server="server")],
            "note": "Statistics signals and terminations at random points with idle, half-way and stuck clients; sixteen kinds of impossible starts."},
    "C22": {"technique": "property-based testing against std::string and an independent FNV-1a", "runs": [run("model", "prim_suite", "plain", 1500000, 8000000), run("asan", "prim_suite", "asan", 100000, 1000000)],
            "note": "Ranges in memory with inaccessible neighbours, overlapping patterns, known zero-hash inputs. Also under AddressSanitizer."},
    "C23": {"technique": "property-based testing against bit-by-bit definitions and model-based testing of list histories with shrinking", "runs": [run("model", "base_suite", "plain", 1500000, 15000000), run("asan", "base_suite", "asan", 60000, 1000000)],
            "note": "Two lists over the same nodes through different link members; every node asked after every step."},
}
