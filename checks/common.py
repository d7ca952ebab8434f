import build, llvmc, irai
from build import Broken, Wrong

TRUSTED = ['clang 18 -O0 + sroa as the translation of the C sources to LLVM IR', 'libLLVM bitcode reader',
           'GNU as and llvm-objdump for the assembly sources', 'the analyses in /verif/lib']
_m = {}


def mods(*units):
    b = build.get()
    out = []
    for u in units:
        if u not in _m:
            _m[u] = llvmc.Module(b.bitcode(u))
        out.append(_m[u])
    return out


FFI64 = 'src/x86/ffi64.c'
FFIW64 = 'src/x86/ffiw64.c'
