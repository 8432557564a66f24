"""One-off transcription aid: wrote the first version of cref/atop_*.h from the ctypes tables of the pinned commit.

The headers were then reviewed by hand against what is known of atop's photosyst.h, photoproc.h, rawlog.[ch] and
cgroups.h and against the struct lengths recorded in the real sample logs. They are the reference from here on: nothing
runs this program again.
"""
import ctypes, sys
sys.path.insert(0, '/repo'); sys.dont_write_bytecode = True
from atoparser import utils
from atoparser.structs import shared
CT = {ctypes.c_int:'int', ctypes.c_uint:'unsigned int', ctypes.c_short:'short', ctypes.c_ushort:'unsigned short',
      ctypes.c_long:'long', ctypes.c_ulong:'unsigned long', ctypes.c_char:'char', ctypes.c_uint8:'unsigned char',
      ctypes.c_float:'float'}
for m in utils._VERSIONS:
    H = m.Header; out = []; done = {}
    def name(t):
        if t is ctypes.c_longlong: return 'count_t'   # aliases c_long in ctypes on LP64
        return CT[t]
    def emit(S):
        if S in done: return done[S]
        body = []
        fields = []
        for k in reversed(S.__mro__):
            fields += list(k.__dict__.get('_fields_', []))
        for f in fields:
            n, t = f[0], f[1]
            dim = ''
            while issubclass(t, ctypes.Array):
                dim += '[%d]' % t._length_; t = t._type_
            if issubclass(t, ctypes.Structure): tn = 'struct ' + emit(t)
            else: tn = name(t)
            body.append('\t%s %s%s;' % (tn, n, dim))
        nm = S.__name__
        assert nm not in done.values(), nm
        done[S] = nm
        out.append('struct %s {\n%s\n};\n' % (nm, '\n'.join(body)))
        return nm
    tops = []
    for n in ('Record', 'SStat', 'TStat', 'CStat'):
        if getattr(H, n) is not None:
            tops.append((n, emit(getattr(H, n))))
    tops.append(('Header', emit(H)))
    v = H.supported_version.replace('.', '_')
    with open('/verif/cref/atop_%s.h' % v, 'w') as f:
        f.write('/* Structures in raw logs of atop %s (x86-64 Linux). */\ntypedef long long count_t;\n\n' % H.supported_version)
        f.write('\n'.join(out))
        f.write('\n' + ''.join('#define TOP_%s %s\n' % t for t in tops))
