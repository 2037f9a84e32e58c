"""Everything an object shows through its public interface, as plain data,
and digests of it.  Nothing here knows what a report means."""

import datetime
import functools
import hashlib
import inspect
import json

from observe import S


def scalar(v):
    """One value as a tagged text."""
    if v is None:
        return "none"
    if v is True:
        return "true"
    if v is False:
        return "false"
    if isinstance(v, str):
        return "s:" + v
    if isinstance(v, (int, float)):
        return "n:%r" % float(v)
    if isinstance(v, datetime.datetime):
        return "t:" + v.isoformat()
    if isinstance(v, datetime.timedelta):
        return "d:%r" % v.total_seconds()
    return None


def ours(v):
    return type(v).__module__.split(".")[0] == "aeromet_py"


def shown(v):
    """The names of the values an object shows: properties of any make and plain attributes."""
    c = type(v)
    names = {n for n in dir(c) if isinstance(getattr(c, n, None), functools.cached_property) or inspect.isdatadescriptor(getattr(c, n, None))}
    return sorted(n for n in names | set(getattr(v, "__dict__", ())) if not n.startswith("_"))


def ask(v, name):
    """The answer to one question about an object: a property or a method."""
    try:
        if name == "str()":
            return str(v)
        if name.endswith("()"):
            return getattr(v, name[:-2])()
        if name == "[]":
            return list(v)
        if name == "len":
            return len(v)
        return getattr(v, name)
    except Exception as e:  # noqa
        return "raise " + type(e).__name__


def questions(v):
    qs = shown(v)
    if type(v).__str__ is not object.__str__:
        qs.append("str()")
    for n in ("as_dict", "to_json", "should_be_cavok"):
        if hasattr(v, n):
            qs.append(n + "()")
    if hasattr(type(v), "__iter__"):
        qs.append("[]")
    if hasattr(type(v), "__len__"):
        qs.append("len")
    return qs


def tree(v, depth=8):
    """v and all it shows, as plain data."""
    t = scalar(v)
    if t is not None:
        return t
    if isinstance(v, (list, tuple)) and not ours(v):
        return [tree(x, depth - 1) for x in v]
    if isinstance(v, dict):
        return {str(k): tree(x, depth - 1) for k, x in v.items()}
    if ours(v):
        if depth <= 0:
            return "..."
        return {q: tree(ask(v, q), depth - 1) for q in questions(v)}
    return "<%s:%s>" % (type(v).__name__, v)


def canon(data):
    return json.dumps(data, sort_keys=True)


def digest(data):
    return hashlib.sha1(canon(data).encode()).hexdigest()[:16]


def snapshot(v):
    return digest(tree(v))


def difference(a, b, path=""):
    """The path of the first difference of two trees ("" if none)."""
    if type(a) is not type(b):
        return path or "."
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return path + "/" + k
            d = difference(a[k], b[k], path + "/" + k)
            if d:
                return d
        return ""
    if isinstance(a, list):
        if len(a) != len(b):
            return path + "/len"
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, path + "/%d" % i)
            if d:
                return d
        return ""
    return "" if a == b else path or "."
