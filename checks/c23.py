from rawcheck import *
EXPLANATION = ('Preparation of a raw closure is interpreted on all paths; from each successful end state (with all global data forgotten, as other closures may be prepared meanwhile) the installed translation function is interpreted with the installed user data, and what it calls is compared with what was prepared.')


def check(rep, thorough):
    check_closures(rep, thorough)
