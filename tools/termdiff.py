"""find a smallest pair of corresponding subterms at which two terms differ (debugging aid)"""
from vf.irx.terms import show
def kids(t):
    if t.op == "add": return [x for _, x in t.args[1]]
    return [a for a in t.args if hasattr(a, "op")]
def diff(x, y, seen=None, path=""):
    seen = seen if seen is not None else set()
    if x is y or (x, y) in seen: return None
    seen.add((x, y))
    a, b = kids(x), kids(y)
    ra = [k for k in a if k not in set(b)]; rb = [k for k in b if k not in set(a)]
    print(path, x.op, y.op, x.w, len(a), len(b), len(ra), len(rb), x.args[0] if x.op == "add" else "", y.args[0] if y.op=="add" else "")
    if x.op != y.op or len(a) != len(b) or len(ra) != len(rb) or len(path) > 60:
        for nm, r in (("X", ra), ("Y", rb)):
            for t in sorted(r, key=lambda t: t.id)[:4]:
                print(nm, show(t, 7)[:900])
        return True
        print("X", repr(x)[:1500]); print("Y", repr(y)[:1500]); return True
    # the operand pair with the smallest ids
    k = min(zip(ra, rb), key=lambda p: min(p[0].id, p[1].id)) if ra else None
    return diff(k[0], k[1], seen, path + ">") if k else print("same kids", repr(x)[:500], repr(y)[:500])
