import sys, zserio, s.api as s
zserio.serialize(s.S([s.E(1), s.E(99)]))
try:
    zserio.serialize(s.S([s.E(1), s.E(100)]))
except zserio.PythonRuntimeException:
    sys.exit(0)
sys.exit(1)
