import sys, common
from zsv import runner, codec


class P01(codec.SchemaCheck):
    PROPERTY = "P01"
    COLS = ("pos", "hex")
    RULE = ("a case is one random value of one root type of a randomly generated schema, written at a random start bit by "
            "generated Java, Python, Python over the C++ binding and C++ code and compared bit by bit with the reference encoder; "
            "non-trivial: distinct, and more than 8 bits are written")


if __name__ == "__main__":
    sys.exit(runner.main(P01()))
