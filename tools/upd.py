"""upd.py: replaces fields of properties in props.py (development helper).  Usage: from upd import U; U("E01", title=..., statement=..., ...)"""
import re
F = "/verif/tools/props.py"
ORDER = ["id", "title", "statement", "over", "text", "why", "files", "mech", "design", "note"]


def U(pid, **kw):
    import props
    import importlib
    importlib.reload(props)
    e = [x for x in props.P if x["id"] == pid][0]
    s = open(F).read()
    for k, v in kw.items():
        old = e[k]
        assert k in ("title", "statement", "text", "why", "design", "note"), k
        q = '"' + old + '"'
        a = s.index('p("%s"' % pid)
        i = s.index(q, a)
        s = s[:i] + '"' + v.replace('"', '\\"') + '"' + s[i + len(q):]
    open(F, "w").write(s)
