"""C06: quantities of different axes never meet.

Every function of the analysis, alignment, telescope and tool modules is interpreted once with values abstracted to their axis (x or column,
y or row, z) and rotation (alpha, beta, gamma).  Tags come from column, variable, parameter and attribute names, from the position in (x, y)
pairs and (x, y, z) triples, and from the contracts of the coordinate conversions; they follow assignments, arithmetic, numpy functions,
containers, loops over literals, branches on the direction and calls inside the package.
R1 assign, append, return - a value is stored, collected or returned under a name of its own axis
R2 argument               - an argument reaches a parameter of its own axis
R3 compare, subtract, add, divide, joined - the operands belong to one axis (sums of products and sums of squares mix axes on purpose)
R4 histogram              - edges and ranges of a histogram are those of the quantity that is filled
R5 order                  - components are given in the order x, y, z or alpha, beta, gamma
R6 direction              - what a test for the x direction selects belongs to x, the alternative to y
"""
from ..coords import CFG, apply

ID = 'C06'
TECHNIQUE = 'abstract interpretation of every function over axis tags seeded from names, pairs and conversion contracts; clashes where two tagged values meet'
MINIMUM = {'functions': 200, 'tag_meetings': 1000}
LEVEL_NOTE = ('static analysis of all functions of the analysis, alignment, telescope and tool modules; a value whose axis is told neither by a name nor by its origin '
              '(matrix elements, loop-indexed components) carries no tag and is not judged')

WHAT = {'assign': 'is stored as', 'append': 'is collected as', 'return': 'is returned as', 'argument': 'is passed as', 'compare': 'is compared with', 'subtract': 'is combined by subtraction with',
        'add': 'is added to', 'divide': 'is divided with', 'joined': 'is joined with', 'histogram': 'is binned with', 'order': 'is the order given for', 'direction': 'is chosen for'}


def run(prog, res, tier):
    def label(rule, what, a, b, fn):
        return '%s: in %s a quantity of %s %s one of %s' % (what, fn.name, b, WHAT.get(rule, 'meets'), a)
    apply(prog, res, ('axis', 'rot'), CFG, label)
