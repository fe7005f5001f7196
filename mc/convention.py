"""How the package passes its operands to the compiled entry points, read off the programs jax lowers (so that a check that calls an entry
point directly follows the package if it passes them in another order or as other integer types).

    pack(conv, values)  -> list of numpy arrays in the order the entry point gets them
    learn(...)          -> {"uni": [[role, type], ...], "multi": ...}; a missing entry: not recognised, do not call directly
"""
import ctypes
import json
import os
import re
import subprocess
import sys

TYPES = {"i32": "int32", "i64": "int64", "i1": "bool", "i8": "int8", "ui8": "uint8", "ui32": "uint32", "ui64": "uint64", "f64": "float64"}


def pack(conv, values):
    import numpy as onp
    out = []
    for role, t in conv:
        v = values[role]
        out.append(onp.ascontiguousarray(v, dtype=t) if role in ("x", "d") and onp.ndim(v) else onp.array([v], dtype=t))
    return out


def parse(text, target):
    """Operands of the custom call as (constant value or None, shape, type)."""
    const = {}
    for m in re.finditer(r"(%\w+) = stablehlo\.constant dense<([^>]*)> : tensor<([^>]*)>", text):
        v = m.group(2)
        shape = m.group(3).split("x")
        val = json.loads(v)
        if len(shape) > 1 and not isinstance(val, list):
            val = [val] * int(shape[0])
        const[m.group(1)] = val
    m = re.search(r"stablehlo\.custom_call @(\w+)\(([^)]*)\) .* : \(([^)]*)\) ->", text)
    names = [s.strip() for s in m.group(2).split(",")]
    types = re.findall(r"tensor<([^>]*)>", m.group(3))
    return [(const.get(n), t.split("x")[:-1], t.split("x")[-1]) for n, t in zip(names, types)]


def script():
    import numpy as np
    import jax
    from tfc import utfc, mtfc
    from tfc.utils import BF

    keep = [BF.CP(0.0, 1.0, np.array([], dtype=np.int32), 2) for _ in range(23)]
    x = np.linspace(0, 1, 7)
    res = {}
    u = utfc(7, 2, 9, x0=0.0, xf=1.0)
    v = mtfc([2, 2], [1, 1], 3, x0=[0.0, 0.0], xf=[1.0, 1.0])
    for kind, t, f, args in (("uni", u, lambda full: (lambda a: u.d4H(a, full=full)), (x,)), ("multi", v, lambda full: (lambda a, b: v.Hx2y(a, b, full=full)), (x, x))):
        try:
            two = [parse(jax.jit(f(full)).lower(*args).as_text(), None) for full in (False, True)]
            cols = [jax.eval_shape(f(full), *args).shape[1] for full in (False, True)]
            roles = []
            for a, b in zip(*two):
                val = (a[0], b[0])
                if a[2] == "f64" and a[0] is None:
                    role = "x"
                elif val == (t.basisClass.identifier,) * 2:
                    role = "id"
                elif val in ((False, True), (0, 1)):
                    role = "full"
                elif val == tuple(cols):
                    role = "m"
                elif val == (7, 7):
                    role = "n"
                elif val == ((4, 4) if kind == "uni" else ([2, 1], [2, 1])):
                    role = "d"
                elif kind == "multi" and val == (2, 2):
                    role = "dlen"
                else:
                    raise ValueError(val)
                roles.append([role, TYPES[a[2]]])
            ctypes.pythonapi.PyCapsule_GetPointer.restype = ctypes.c_void_p
            ctypes.pythonapi.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
            if not ctypes.pythonapi.PyCapsule_GetPointer(t.basisClass.xlaCapsule, b"xla._CUSTOM_CALL_TARGET"):
                raise ValueError("no entry point")
            names = [r for r, _ in roles]
            need = {"x", "id", "full", "n", "d"}
            if len(set(names)) == len(names) and need <= set(names) and len(two[0]) == len(two[1]):
                res[kind] = roles
        except Exception as e:
            print(kind, repr(e), file=sys.stderr)
    print("CONV " + json.dumps(res))


def learn(runmod, scratch):
    """Builds the plain extension and asks jax."""
    tree = runmod.build(scratch, "plain")
    r = subprocess.run([runmod.PYEXE, os.path.abspath(__file__)], env=runmod.env_for(scratch, {"PYTHONPATH": os.path.join(tree, "src")}), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, cwd=scratch)
    m = re.search(r"^CONV (.*)$", r.stdout, re.M)
    if not m or set(json.loads(m.group(1))) != {"uni", "multi"}:
        print("note: the way the package calls the compiled entry points was not recognised; they are not called directly\n" + r.stderr[-800:])
    return json.loads(m.group(1)) if m else {}


if __name__ == "__main__":
    script()
