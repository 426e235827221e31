FLAVOURS = ["uniform", "patterned", "vector", "aniso", "magnetic", "batched", "mixedrank",
            "rank2n", "lattbatch", "single", "skew64"]
SCAN = ["patterned", "magnetic", "lattbatch", "skew64"]
