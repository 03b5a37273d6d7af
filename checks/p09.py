import sys, common
from zsv import runner, codec
from zsv.exprgen import ExprGen
from zsv.tape import Tape


class P09(codec.SchemaCheck):
    PROPERTY = "P09"
    COLS = ("hex", "size", "dump", "dump2")
    NVALS = 10
    STARTS = (0,)
    NSCHEMAS = {"quick": 140, "thorough": 2500}
    RULE = ("a case is one random value of a structure with functions, array lengths, bit-field lengths, conditions, constraints, "
            "arguments and defaults made of random expressions; every function result, presence and size is compared with exact "
            "integer arithmetic; non-trivial: distinct and the structure has at least four functions")
    ASSUMPTIONS = ["no operand or intermediate result leaves the integer type it has in one of the languages",
                   "floats are float64 and divided by 2.0 only"]

    def schema_for(self, seed, idx, choices=None):
        t = Tape(choices=choices) if choices is not None else Tape((seed, self.PROPERTY, idx))
        s = ExprGen(t).gen()
        return s, t.out

    def nontrivial(self, c):
        return len(c.d.funcs) >= 4


if __name__ == "__main__":
    sys.exit(runner.main(P09()))
