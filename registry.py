HARNESSES = {
    "codec": {"mode": "ubsan", "lib": "none", "srcs": ["harness/codec.cpp"]},
    "queue": {"mode": "sched", "lib": "none", "srcs": ["harness/queue.cpp"], "engine": ["engine/sched.cpp"]},
    "workers": {"mode": "sched", "lib": "none", "srcs": ["harness/workers.cpp"], "engine": ["engine/sched.cpp"]},
    "hashers": {"mode": "ubsan", "lib": "crypto", "srcs": ["harness/hashers.cpp"]},
    "small": {"mode": "ub", "lib": "none", "srcs": ["harness/small.cpp"]},
    "metafiles": {"mode": "asan", "lib": "all", "srcs": ["harness/metafiles.cpp"]},
    "pipeline": {"mode": "sched", "lib": "all", "srcs": ["harness/pipeline.cpp"], "engine": ["engine/sched.cpp"]},
    # the multi-buffer hashers, with a stand-in of ISA-L
    "pipeline_mb": {"mode": "sched", "lib": "all", "srcs": ["harness/pipeline.cpp", "shim/isal/isal_standin.cpp"], "engine": ["engine/sched.cpp"], "extra": ["-DDOTTORRENT_USE_ISAL"], "inc": ["shim/isal"]},
    # the hashers on each cryptographic library, with failures of its calls
    "backends_openssl": {"mode": "ubsan", "lib": "crypto", "srcs": ["harness/backends.cpp"], "libs": ["-Wl,--wrap=" + f for f in ("EVP_DigestInit", "EVP_DigestInit_ex", "EVP_DigestInit_ex2", "EVP_DigestUpdate", "EVP_DigestFinal", "EVP_DigestFinal_ex", "EVP_DigestFinalXOF", "EVP_MD_CTX_copy", "EVP_MD_CTX_copy_ex", "EVP_MD_CTX_new", "EVP_MD_CTX_free")]},
    "backends_wolfssl": {"optional": True, "mode": "ubsan", "lib": "crypto", "srcs": ["harness/backends.cpp"], "extra": ["-UDOTTORRENT_USE_OPENSSL", "-DDOTTORRENT_USE_WOLFSSL"], "inc": ["shim/wolfssl"]},
    "backends_wolfssl_md4": {"optional": True, "mode": "ubsan", "lib": "crypto", "srcs": ["harness/backends.cpp"], "extra": ["-UDOTTORRENT_USE_OPENSSL", "-DDOTTORRENT_USE_WOLFSSL", "-DVP_WOLFSSL_MD4"], "inc": ["shim/wolfssl"]},
    "backends_wincng": {"optional": True, "mode": "ubsan", "lib": "crypto", "srcs": ["harness/backends.cpp", "shim/wincng/wincng_standin.cpp"], "extra": ["-UDOTTORRENT_USE_OPENSSL", "-DDOTTORRENT_USE_WINCNG"], "inc": ["shim/wincng"]},
    "mb_memory": {"mode": "ubsan", "lib": "crypto", "srcs": ["harness/backends.cpp", "shim/isal/isal_standin.cpp"], "extra": ["-DDOTTORRENT_USE_ISAL"], "inc": ["shim/isal"],
                  "libs": ["-Wl,--wrap=" + f for f in ("EVP_DigestInit", "EVP_DigestInit_ex", "EVP_DigestInit_ex2", "EVP_DigestUpdate", "EVP_DigestFinal", "EVP_DigestFinal_ex", "EVP_DigestFinalXOF", "EVP_MD_CTX_copy", "EVP_MD_CTX_copy_ex", "EVP_MD_CTX_new", "EVP_MD_CTX_free", "aligned_alloc", "free")]},
    "containers": {"mode": "asan", "lib": "all", "srcs": ["harness/containers.cpp"]},
}
PROPS = {
    "C01": {"slug": "queue-linearizable", "harness": ["queue"], "level": "model_checking"},
    "C02": {"slug": "queue-progress", "harness": ["queue"], "level": "model_checking"},
    "C03": {"slug": "object-pool", "harness": ["workers"], "level": "model_checking"},
    "C04": {"slug": "queue-processor", "harness": ["workers"], "level": "model_checking"},
    "C27": {"slug": "hex-codec", "harness": ["codec"], "level": "model_checking"},
    "C28": {"slug": "percent-codec", "harness": ["codec"], "level": "model_checking"},
    "C30": {"slug": "digest-streaming", "harness": ["hashers"], "level": "model_checking"},
    "C31": {"slug": "hash-values", "harness": ["hashers"], "level": "model_checking"},
    "C32": {"slug": "checksums", "harness": ["hashers"], "level": "model_checking"},
    "C34": {"slug": "hash-names", "harness": ["hashers"], "level": "model_checking"},
    "C35": {"slug": "flags", "harness": ["small"], "level": "model_checking"},
    "C36": {"slug": "dht-node", "harness": ["small"], "level": "model_checking"},
    "C38": {"slug": "size-arithmetic", "harness": ["small"], "level": "model_checking"},
    "C39": {"slug": "errors", "harness": ["small"], "level": "model_checking"},
    "C40": {"slug": "aligned-buffers", "harness": ["small"], "level": "model_checking"},
    "C16": {"slug": "merkle-tree", "harness": ["containers", "pipeline"], "level": "model_checking"},
    "C17": {"slug": "storage-bookkeeping", "harness": ["containers"], "level": "model_checking"},
    "C18": {"slug": "piece-geometry", "harness": ["containers"], "level": "model_checking"},
    "C19": {"slug": "piece-size-choice", "harness": ["containers"], "level": "model_checking"},
    "C20": {"slug": "alignment", "harness": ["containers"], "level": "model_checking"},
    "C21": {"slug": "value-semantics", "harness": ["containers"], "level": "model_checking"},
    "C22": {"slug": "announce-list", "harness": ["containers"], "level": "model_checking"},
    "C33": {"slug": "info-hash", "harness": ["containers"], "level": "model_checking"},
    "C23": {"slug": "round-trip", "harness": ["metafiles"], "level": "model_checking"},
    "C24": {"slug": "info-hash-stable", "harness": ["metafiles"], "level": "model_checking"},
    "C25": {"slug": "malformed-metafile", "harness": ["metafiles"], "level": "model_checking"},
    "C26": {"slug": "metafile-editing", "harness": ["metafiles"], "level": "model_checking"},
    "C29": {"slug": "magnet", "harness": ["metafiles"], "level": "model_checking"},
    "C37": {"slug": "metafile-encoding", "harness": ["metafiles"], "level": "model_checking"},
    "C09": {"slug": "v1-hashing", "harness": ["pipeline"], "level": "model_checking"},
    "C10": {"slug": "v2-hashing", "harness": ["pipeline"], "level": "model_checking"},
    "C11": {"slug": "hybrid-hashing", "harness": ["pipeline"], "level": "model_checking"},
    "C12": {"slug": "file-checksums", "harness": ["pipeline"], "level": "model_checking"},
    "C13": {"slug": "v1-verification", "harness": ["pipeline"], "level": "model_checking"},
    "C14": {"slug": "v2-verification", "harness": ["pipeline"], "level": "model_checking"},
    "C15": {"slug": "verified-percentage", "harness": ["pipeline"], "level": "model_checking"},
    "C05": {"slug": "hasher-schedules", "harness": ["pipeline"], "level": "model_checking"},
    "C06": {"slug": "verifier-schedules", "harness": ["pipeline"], "level": "model_checking"},
    "C07": {"slug": "pipeline-lifecycle", "harness": ["pipeline"], "level": "model_checking"},
    "C08": {"slug": "pipeline-progress", "harness": ["pipeline"], "level": "model_checking"},
    "C41": {"slug": "disk-entries", "harness": ["containers"], "level": "model_checking"},
    "C43": {"slug": "multi-buffer", "harness": ["mb_memory", "pipeline_mb"], "level": "model_checking"},
    "C44": {"slug": "crypto-libraries", "harness": ["backends_openssl", "backends_wolfssl", "backends_wolfssl_md4", "backends_wincng"], "level": "model_checking"},
    "C42": {"slug": "end-to-end", "harness": ["pipeline"], "level": "model_checking"},
}
