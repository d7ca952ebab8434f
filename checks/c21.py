from rawcheck import *
EXPLANATION = ('Each function of the raw interface is interpreted for an arbitrary argument of every kind at an arbitrary position of an arbitrarily long list; the block offset the interface prescribes is carried along and compared with every pointer made, value stored and byte read.')


def check(rep, thorough):
    check_layout(rep, thorough, False)
