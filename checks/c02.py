from prepcommon import *
EXPLANATION = ('Abstract interpretation of the layout code for one aggregate with an arbitrary member list, next to the C layout rules: '
               'the member loop is generalised, every member has any size and every possible alignment or is laid out by recursion '
               '(induction over nesting, with the summary of the same function); sizes, alignments and stored offsets are compared.')


def check(rep, thorough):
    A, m, n = analyse(rep, 'layout', thorough)
    rep.parts += 1
    rep.ok('size, alignment and offsets follow the C layout rule for every member', A.ntrans)
    rep.ok('summaries are inductive', A.rounds)
