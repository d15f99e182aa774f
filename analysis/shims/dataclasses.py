def fields(x):
    return x.__dataclass_fields_list__


def replace(o, /, **changes):
    kw = {f.name: getattr(o, f.name) for f in fields(o) if f.init}
    kw.update(changes)
    return type(o)(**kw)


def _conv(v, d):
    if hasattr(v, "__dataclass_fields_list__"):
        return asdict(v) if d else astuple(v)
    if isinstance(v, list):
        return [_conv(x, d) for x in v]
    if isinstance(v, tuple):
        return tuple([_conv(x, d) for x in v])
    if isinstance(v, dict):
        return {k: _conv(x, d) for k, x in v.items()}
    return v


def asdict(o):
    return {f.name: _conv(getattr(o, f.name), True) for f in fields(o)}


def astuple(o):
    return tuple([_conv(getattr(o, f.name), False) for f in fields(o)])


def is_dataclass(o):
    return hasattr(o, "__dataclass_fields_list__")
