from rawcheck import *
EXPLANATION = ('As for the raw interface, with the Java layout: each function is interpreted for an arbitrary argument of every Java type at an arbitrary position and compared with the prescribed block offset.')


def check(rep, thorough):
    check_layout(rep, thorough, True)
