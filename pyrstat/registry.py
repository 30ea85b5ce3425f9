"""Property id -> check."""
from .report import Report, finish
from .front import AnalysisBroken


def table():
    from . import checks_eff as ce, checks_vg as cv, checks_c24, checks_mix, checks_query, checks_dens, checks_prob, checks_gibbs, checks_load
    t = {}
    for mod in (ce, cv, checks_c24, checks_mix, checks_query,
                checks_dens, checks_prob, checks_gibbs, checks_load):
        for n in dir(mod):
            if n[0] == "c" and n[1:].isdigit():
                t[n.upper()] = getattr(mod, n)
    return t


def run(prop, tier):
    t = table()
    if prop not in t:
        raise AnalysisBroken("no check for %s" % prop)
    rep = Report(prop, tier)
    t[prop](rep)
    return finish(rep)
