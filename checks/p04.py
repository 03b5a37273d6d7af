import sys, common
from zsv import runner, codec


class P04(codec.SchemaCheck):
    PROPERTY = "P04"
    COLS = ("end", "size", "pos")
    STARTS = (0, 1, 2, 3, 4, 5, 6, 7, 8, 13)
    NVALS = 10
    NSCHEMAS = {"quick": 90, "thorough": 1200}
    PROFILE = {"align": 20, "offsets": 20, "optional": 25, "extended": 20, "packed": 50}
    RULE = ("a case is one random value of one root type of a random schema measured (initializeOffsets, bitSizeOf) and written from one "
            "of ten start bit positions by four language runtimes, the C++ writer into a buffer of exactly the reported size; end "
            "position, size and position after write are compared with the reference; non-trivial: distinct, more than 8 bits")

    def nontrivial(self, c):
        return c.n > 8


if __name__ == "__main__":
    sys.exit(runner.main(P04()))
