import sys, common
from zsv import runner, codec


class P02(codec.SchemaCheck):
    PROPERTY = "P02"
    COLS = ("rpos", "dump2", "eq", "same")
    STARTS = (0, 5, 8, 3, 1, 16, 7)
    NVALS = 6
    RULE = ("a case is one random value of one root type of a random schema which is written, read back from its start bit, dumped "
            "field by field, compared with the original object and written again in each of the four language runtimes; expected "
            "read position and dump come from the reference decoder; non-trivial: distinct, and more than 8 bits are read")


if __name__ == "__main__":
    sys.exit(runner.main(P02()))
