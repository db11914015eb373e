# Executes requests of the harness (C21) through the Python binding: one JSON line each.
import collections, datetime, gc, json, re, struct, sys, types
import polodb
from polodb import PoloDB


class Odd(Exception):
    pass


def decode(v):
    t = v[0]
    if t == "N":
        return None
    if t == "B":
        return v[1]
    if t == "I":
        return int(v[1])
    if t == "F":
        return float("nan") if v[1] == "nan" else struct.unpack(">d", bytes.fromhex(v[1]))[0]
    if t == "S":
        return v[1]
    if t == "L":
        return [decode(x) for x in v[1]]
    if t == "D":
        return {k: decode(x) for k, x in v[1]}
    if t == "OD":
        return collections.OrderedDict((k, decode(x)) for k, x in v[1])
    if t == "X":
        k = v[1]
        if k == "object":
            return object()
        if k == "set":
            return {1}
        if k == "complex":
            return 1j
        if k == "surrogate":
            return "a\ud800b"
        if k == "key":
            return {1: 2}
        if k == "nonekey":
            return {None: 2}
        if k == "bigkey":
            return {"a": {"b": 1}, "c\ud900": 1}
        if k == "type":
            return int
        if k == "function":
            return decode
        if k == "loop":
            a = []
            a.append(a)
            return a
        if k == "dictloop":
            d = {"x": 1}
            d["y"] = [d, d]
            return d
        if k == "deep":
            d = {}
            for i in range(5000):
                d = {"a": d} if i % 2 else [d]
            return {"a": d}
        if k == "namespace":
            return types.SimpleNamespace(a=1)
    raise Odd(t)


EPOCH = datetime.datetime(1970, 1, 1)


def encode(v):
    if v is None:
        return ["N"]
    t = type(v)
    if t is bool:
        return ["B", v]
    if t is int:
        return ["I", str(v)]
    if t is float:
        return ["F", "nan" if v != v else struct.pack(">d", v).hex()]
    if t is str:
        return ["S", v]
    if t is list:
        return ["L", [encode(x) for x in v]]
    if t is dict:
        return ["D", [[k if type(k) is str else "%s:%r" % (type(k).__name__, k), encode(x)] for k, x in v.items()]]
    if t is tuple:
        return ["T", [encode(x) for x in v]]
    if t is bytes:
        return ["Y", v.hex()]
    if t is datetime.datetime:
        if v.tzinfo is not None:
            v = v.astimezone(datetime.timezone.utc).replace(tzinfo=None)
        return ["DT", str((v - EPOCH) // datetime.timedelta(microseconds=1))]
    if isinstance(v, re.Pattern):
        return ["R", v.pattern]
    return ["?", t.__name__]


class State:
    def __init__(self):
        self.db = None
        self.colls = {}


def run(st, r):
    op = r["op"]
    if op == "open":
        if r["how"] == "with":
            with PoloDB(r["path"]) as db:
                st.db = db
                db.list_collection_names()
        else:
            st.db = PoloDB(r["path"])
        st.colls = {}
        return None
    if op == "close":
        st.db = None
        if r.get("all", True):
            st.colls = {}
        gc.collect()
        return None
    if op == "coll":
        n = r["name"]
        how = r["how"]
        c = st.db[n] if how == "item" else getattr(st.db, n) if how == "attr" else st.db.collection(n)
        st.colls[r["as"]] = c
        return None
    if op == "names":
        return st.db.list_collection_names()
    c = st.colls[r["coll"]]
    if op == "name":
        return c.name()
    if op == "len":
        return c.len()
    a = [decode(x) for x in r["args"]]
    before = [encode(x) for x in a] if r.get("frozen") else None
    res = getattr(c, op)(*a)
    if before is not None and before != [encode(x) for x in a]:
        raise Odd("the arguments have been changed")
    return res


def main():
    st = State()
    # threads and libraries must not write to the channel of the harness
    out = sys.stdout
    sys.stdout = sys.stderr
    for line in sys.stdin:
        try:
            res = {"ok": encode(run(st, json.loads(line)))}
        except BaseException as e:
            m = str(e).encode("utf-8", "replace").decode()
            res = {"err": type(e).__name__, "exception": isinstance(e, Exception) and not isinstance(e, Odd), "msg": m.split(", backtrace:")[0][:300]}
            del e
        out.write(json.dumps(res) + "\n")
        out.flush()


main()
