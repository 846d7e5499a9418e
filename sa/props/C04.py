from ..check import Obl

DRIVER = '''
import symfit.core.printing
from sympy import HadamardProduct, HadamardPower, Inverse, MatPow, Idx


class Node(object):
    """a matrix expression: its text and how tightly it binds"""
    def __init__(self, text, precedence=1000, args=(), shape=(2, 2)):
        self.text = text
        self.precedence = precedence
        self.args = args
        self.shape = shape
        self.base = args[0] if args else None
        self.exp = args[1] if len(args) > 1 else None
        self.arg = self.base
        self.label = self.base

    def __str__(self):
        return self.text


def binding(item):
    return item.precedence


class Printer(object):
    """does what printers of sympy do with their parts"""
    def doprint(self, item):
        return item.text

    def _print(self, item):
        return item.text

    def parenthesize(self, item, level, strict=False):
        if item.precedence < level or (not strict and item.precedence <= level):
            return '(' + item.text + ')'
        return item.text

    def _module_format(self, name, register=True):
        return name

    def stringify(self, args, sep, level=0):
        return sep.join([self.parenthesize(item, level) for item in args])

    def _print_Pow(self, item, rational=False):
        return 'power(' + item.text + ')'

    def _print_MatPow(self, item):
        return 'matrix_power(' + item.text + ')'


A = Node('A')
B = Node('B')
C = Node('C')
SUM = Node('A + B', 40)
NEG = Node('-A', 40)
PROD = Node('A*B', 50)
POW = Node('A**B', 60)
TWO = Node('2')
MINUS = Node('-2', 40)
SHAPES = [(1, 1), (2, 2), (3, 3)]


def product(*args):
    """a product of sympy has two or more arguments"""
    return spec_code(HadamardProduct._numpycode(Node('?', 50, args), Printer()))


def power(*args):
    return spec_code(HadamardPower._numpycode(Node('?', 60, args), Printer()))


def product_got():
    return product(A, B), product(B, A)


def product_want():
    return spec_code('A*B'), spec_code('B*A')


def factors_got():
    return product(A, B, C), product(A, B, C, TWO)


def factors_want():
    return spec_code('A*B*C'), spec_code('A*B*C*2')


def nested_got():
    return (product(SUM, C), product(C, SUM), product(C, SUM, NEG), product(POW, C),
            product(C, POW))


def nested_want():
    return (spec_code('(A + B)*C'), spec_code('C*(A + B)'), spec_code('C*(A + B)*(-A)'),
            spec_code('(A**B)*C'), spec_code('C*(A**B)'))


def shapes_got():
    return [spec_code(e._numpycode(Node('?', k, (x, TWO), s), Printer()))
            for e, k in ((HadamardProduct, 50), (HadamardPower, 60))
            for x in (A, SUM) for s in SHAPES + [(1, 2), (2, 1), (2, 3)]]


def shapes_want():
    return [spec_code(c) for c in ('A*2', '(A + B)*2', 'A**2', '(A + B)**2')
            for i in (1, 2, 3, 4, 5, 6)]


def power_got():
    return power(A, TWO), power(A, B)


def power_want():
    return spec_code('A**2'), spec_code('A**B')


def base_got():
    return (power(SUM, TWO), power(PROD, TWO), power(POW, TWO), power(NEG, TWO),
            power(A, SUM), power(A, PROD), power(A, MINUS))


def base_want():
    return (spec_code('(A + B)**2'), spec_code('(A*B)**2'), spec_code('(A**B)**2'),
            spec_code('(-A)**2'), spec_code('A**(A + B)'), spec_code('A**(A*B)'),
            spec_code('A**(-2)'))


def inverse_got():
    return [spec_code(Inverse._numpycode(Node('?', 60, (x, MINUS), s), Printer()))
            for s in SHAPES for x in (A, SUM, PROD)]


def inverse_want():
    return [spec_code('numpy.linalg.inv(' + x.text + ')') for x in (A, SUM, PROD)] * 3


def index_got():
    return [Idx._numpycode(Node('?', 1000, (Node(n), Node('range'))), Printer())
            for n in ('i', 'long_name')]


def index_want():
    return ['i', 'long_name']


def matpow_got():
    return [spec_code(MatPow._numpycode(Node('M', 60, (A, TWO), s), Printer()))
            for s in ((1, 1), (2, 2), (3, 3), (5, 5))]


def matpow_want():
    return [spec_code('power(M)')] + [spec_code('matrix_power(M)')] * 3
'''
KW = dict(raises=True, intercept={'sympy.printing.precedence.precedence': 'binding'})
OBLIGATIONS = [
    Obl('element-wise products', 'product_got', 'product_want', 'multiply their factors', '_print_HadamardProduct', **KW),
    Obl('element-wise products of many', 'factors_got', 'factors_want', 'lose none', '_print_HadamardProduct', **KW),
    Obl('factors', 'nested_got', 'nested_want', 'bind tighter than the product', '_print_HadamardProduct', **KW),
    Obl('element-wise powers', 'power_got', 'power_want', 'raise the base to the exponent', '_print_HadamardPower', **KW),
    Obl('base and exponent', 'base_got', 'base_want', 'bind tighter than the power', '_print_HadamardPower', **KW),
    Obl('shapes', 'shapes_got', 'shapes_want', 'do not matter to element-wise operations',
        ['_print_HadamardProduct', '_print_HadamardPower'], **KW),
    Obl('inverse', 'inverse_got', 'inverse_want', 'is a matrix inverse', '_print_Inverse', **KW),
    Obl('indices', 'index_got', 'index_want', 'print their label', '_print_Idx', **KW),
    Obl('matrix powers', 'matpow_got', 'matpow_want', 'of 1 x 1 matrices are powers of scalars', '_print_MatPow', **KW),
]
