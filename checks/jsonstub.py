"""json module that carries symbolic numbers through text."""
import json as _json
import types

_TABLE = []


def _enc(o):
    from symx.sym import Sym, SymBool
    if isinstance(o, (Sym, SymBool)):
        _TABLE.append(o)
        return {"__sym__": len(_TABLE) - 1}
    if isinstance(o, dict):
        return {k: _enc(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_enc(v) for v in o]
    return o


def _hook(d):
    if set(d) == {"__sym__"}:
        return _TABLE[d["__sym__"]]
    return d


mod = types.ModuleType("json")
mod.__dict__.update(_json.__dict__)
mod.dumps = lambda o, **k: _json.dumps(_enc(o), **k)
mod.loads = lambda s, **k: _json.loads(s, object_hook=_hook, **k)
mod.dump = lambda o, f, **k: f.write(mod.dumps(o, **k))
mod.load = lambda f, **k: mod.loads(f.read(), **k)


def install():
    from symx import loader
    loader.EXTRA["json"] = mod
