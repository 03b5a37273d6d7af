import sys, common
from zsv import runner, codec


class P06(codec.SchemaCheck):
    PROPERTY = "P06"
    COLS = ("size", "pos", "hex", "rpos", "dump2", "same")
    NVALS = 8
    NSCHEMAS = {"quick": 90, "thorough": 1200}
    PROFILE = {"packed": 92, "array": 75, "maxlen": 12, "nested": 45, "choice": 30, "union": 30, "recursion": 14, "enum": 25,
               "bitmask": 20, "dyn": 14}
    RULE = ("a case is one random value (clustered, constant, monotone, extreme and alternating integer sequences) of a random schema "
            "whose arrays are mostly packed; bytes, size and read-back are compared with the reference packing; non-trivial: distinct "
            "and the reference encodes at least one leaf of the value with packing enabled")

    def nontrivial(self, c):
        if not hasattr(c, "pk"):
            from zsv import refcodec
            c.pk = refcodec.encode(c.o, c.start)[2].packed_leaves
        return c.pk > 0


if __name__ == "__main__":
    sys.exit(runner.main(P06()))
