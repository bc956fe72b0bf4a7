"""
Which random families exercise which property.  (weight, generator)
"""
import gen


def cases(pid, rng, count, tag="r"):
    fams = PLAN[pid]
    ws = [w for w, _ in fams]
    out = []
    for k in range(count):
        f = rng.choices([f for _, f in fams], ws)[0]
        out.append(gen.spice(rng, f(rng, "%s-%s%d" % (pid, tag, k))))
    return out


def fill(masked):
    return lambda r, c: gen.fam_fill(r, c, masked, small=r.random() < 0.5)


def flow(focus, kind="mixed"):
    return lambda r, c: gen.fam_flow(r, c, kind, focus)


def streams(cls, focus, **kw):
    def f(r, c):
        k = cls if isinstance(cls, str) else r.choice(cls)
        return gen.fam_streams(r, c, k, focus, **kw)
    return f


def session(*cls):
    return lambda r, c: gen.fam_session(r, c, r.choice(cls), r.randint(4, 9))


ALL = ["Sfr6", "Sfr2005", "Prms"]
PLAN = {
    "C01": [(1, fill(False))],
    "C02": [(1, fill(False))],
    "C03": [(1, fill(True))],
    "C04": [(1, gen.fam_nan)],
    "C05": [(1, flow("fdir"))],
    "C06": [(2, flow("fdir", "cond")), (1, flow("fdir", "fill"))],
    "C07": [(1, gen.fam_term)],
    "C08": [(1, flow("facc"))],
    "C09": [(1, flow("ws"))],
    "C10": [(1, flow("sub"))],
    "C11": [(1, gen.fam_delineate)],
    "C12": [(3, streams(["Sfr6", "Prms"], "conn")), (1, session("Sfr6", "Prms"))],
    "C13": [(2, streams("Sfr6", "packdata")), (2, streams("Sfr6", "conndata")), (1, gen.fam_conndata_graph),
            (1, session("Sfr6"))],
    "C14": [(4, streams(["Sfr2005", "Prms"], "conn")), (1, session("Sfr2005", "Prms"))],
    "C15": [(2, streams("Sfr2005", "reachdata")), (1, streams("Sfr2005", "segdata")), (1, session("Sfr2005"))],
    "C16": [(3, streams("Sfr2005", "irunbnd")), (1, session("Sfr2005"))],
    "C17": [(3, streams("Prms", "casc")), (1, session("Prms"))],
    "C18": [(4, streams("Prms", "casc", m2m=True)), (1, session("Prms"))],
    "C19": [(4, streams(ALL, "vectors")), (1, session(*ALL))],
    "C20": [(1, gen.fam_thresh)],
    "C21": [(1, session(*ALL))],
    "C22": [(3, gen.fam_history), (1, gen.fam_cache), (1, session(*ALL))],
    "C23": [(1, gen.fam_same)],
    "C24": [(1, flow("geom"))],
    "C25": [(1, streams("Prms", "pgsf", m2m=True)), (1, streams("Sfr2005", "pgsf")), (1, session("Sfr2005", "Prms"))],
}


def budget(pid, tier):
    """(random cases per worker, rounds)"""
    per = {"C22": 120, "C23": 110, "C21": 200, "C25": 220}.get(pid, 260)
    return (per, 1) if tier == "quick" else (per * 2, 60)


def huge(pid, rng, tier, r):
    """cases on meshes of more than 2^15 cells"""
    if pid not in gen.HUGE or r >= 4:
        return []
    return [gen.fam_huge(rng, "%s-H%d_%d" % (pid, r, j), gen.HUGE[pid]) for j in range(1 if tier == "quick" else 2)]


def fixed(pid, rng, tier, r):
    """cases on large meshes"""
    if pid not in gen.LARGE:
        return []
    k = 8 if tier == "quick" else 32
    return [gen.fam_large(rng, "%s-L%d_%d" % (pid, r, j), gen.LARGE[pid], j == 0, {1: 1, 2: 2}.get(j)) for j in range(k)]
