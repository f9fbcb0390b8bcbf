"""Every declarative rewrite pattern (TableGen records, expanded by llvm-tblgen), read as an equation: matched and constructed expression are given the meaning of their operations over
random element vectors (convolutions as uninterpreted functionals of input, filter and every geometric attribute) and must denote the same value; the functions that compute operands
from operands are compared with their definitions."""
from common import *
import c16
FLOOR = 35
ASSUMPTIONS = ['quantisation and dequantisation to 8 bits denote the identity', 'the TensorFlow and TensorFlow Lite operations have the operands listed in stubs/td']


def check(k):
    c16.operands(k)
    for td, f, oid, p in c16.walk(k):
        c16.equation(k, td, oid, p, 'operands and attributes of the constructed operations sit where those of the matched ones belong')
