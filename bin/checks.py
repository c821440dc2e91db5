"""What each check runs.  kind "gen": TLC enumerates, the library replays; kind "trace": the
library runs seeded random scenarios, TLC judges; kind "model": specification only."""


def T(area, module, quick, thorough, **kw):
    return dict(kind="trace", area=area, module=module, quick=quick, thorough=thorough, **kw)


def G(area, module, **kw):
    return dict(kind="gen", area=area, module=module, **kw)


def M(module, **kw):
    return dict(kind="model", module=module, **kw)


def life(group, profile, extra=(), **kw):
    """Enumerated runs of one group, seeded runs of one profile, and the mix of everything."""
    return dict(parts=[
        G("life", "LifeGen", cfg_quick="LifeGen.%s.quick.cfg" % group, cfg_thorough="LifeGen.%s.thorough.cfg" % group),
        T("life", "LifeTrace", 4000, 60000, profile=profile, budget=200),
        T("life", "LifeTrace", 2000, 40000, profile="", budget=150)] + list(extra), **kw)


def vals(group):
    return G("vals", "ValsGen", cfg_quick="ValsGen.%s.quick.cfg" % group, cfg_thorough="ValsGen.%s.thorough.cfg" % group)


def valst(profile, q=8000, t=100000, b=200):
    return T("vals", "ValsTrace", q, t, profile=profile, budget=b)


CHECKS = {
    "C01": dict(parts=[G("parse", "ParseGen"),
                       T("parse", "ParseTrace", 20000, 300000)]),
    "C02": dict(parts=[G("parse", "ParseGen"),
                       T("parse", "ParseTrace", 20000, 300000, profile="args"),
                       T("parse", "ParseTrace", 8000, 150000, profile="own", budget=150)]),
    "C03": life("order", "reject"),
    "C04": life("order", "order"),
    "C05": life("order", "err"),
    "C06": life("timing", "timing"),
    "C07": life("hooks", "hooks"),
    "C10": life("dispatch", "dispatch"),
    "C11": life("scope", "scope", extra=[T("nav", "NavTrace", 3000, 60000, budget=120)]),
    "C12": dict(parts=[G("pipe", "PipeGen"), T("pipe", "PipeTrace", 20000, 400000, budget=400)]),
    "C13": life("dyn", "dyn"),
    "C08": dict(parts=[vals("source"), valst("source"), valst("", b=100)]),
    "C09": dict(parts=[vals("combine"), valst("")]),
    "C14": life("valid", "valid", extra=[vals("exist")]),
    "C15": dict(parts=[G("exit", "ExitGen"), T("exit", "ExitTrace", 8000, 100000, budget=300)]),
    "C16": dict(parts=[G("expr", "ExprGen"), T("expr", "ExprTrace", 15000, 150000, budget=200),
                       T("expr", "ExprTrace", 8000, 80000, profile="bind", budget=200),
                       T("expr", "ExprTrace", 5000, 60000, profile="own", budget=150)]),
    "C17": dict(parts=[G("comp", "CompGen"), T("comp", "CompTrace", 10000, 150000, budget=300)]),
    "C18": dict(parts=[G("tmpl", "TmplGen"), T("tmpl", "TmplTrace", 10000, 150000, budget=200),
                       T("tmpl", "TmplTrace", 5000, 100000, profile="fault", budget=200)]),
    "C19": dict(parts=[G("quote", "QuoteGen"), T("quote", "QuoteTrace", 2200, 90000, profile="all", chunk=90000, budget=300),
                       T("quote", "QuoteTrace", 10000, 200000, budget=200)]),
    "C20": dict(parts=[G("path", "PathGen"), T("path", "PathTrace", 10000, 200000, budget=300),
                       T("path", "PathTrace", 5000, 200000, profile="match", budget=150)]),
    "C21": dict(parts=[G("help", "HelpGen"), T("help", "HelpTrace", 10000, 200000, budget=300),
                       T("wrap", "WrapTrace", 10000, 300000, budget=200)]),
    "C22": dict(parts=[G("prov", "ProvGen"), T("prov", "ProvTrace", 10000, 200000, budget=300),
                       T("prov", "ProvTrace", 4000, 100000, profile="new"), T("prov", "ProvTrace", 4000, 100000, profile="fac")]),
    "C23": dict(parts=[G("bind", "BindGen"), T("bind", "BindTrace", 10000, 200000, budget=200),
                       T("bind", "BindTrace", 5000, 100000, profile="expr", budget=100)]),
    "C24": dict(parts=[G("fset", "FsetGen"), T("fset", "FsetTrace", 10000, 200000, budget=300)]),
    "C25": dict(parts=[G("color", "ColorGen"), T("color", "ColorTrace", 6000, 150000, budget=200), T("color", "ColorTrace", 4000, 50000, profile="tty", budget=150)]),
    "C27": dict(parts=[G("fops", "FopsGen"), T("fops", "FopsTrace", 10000, 200000, budget=300)]),
    "C28": dict(parts=[G("conv", "ConvGen"), T("conv", "ConvTrace", 6000, 150000, budget=250)]),
    "C29": dict(parts=[G("meta", "MetaGen"), T("meta", "MetaTrace", 8000, 200000, budget=300), T("meta", "MetaTrace", 4000, 50000, profile="acc", budget=100)]),
    "C30": dict(parts=[vals("xform"), valst("xform")]),
    "C31": dict(parts=[G("ctxv", "CtxvGen"), T("ctxv", "CtxvTrace", 8000, 150000, budget=250)]),
    "C32": dict(parts=[G("struc", "StrucGen"), T("struc", "StrucTrace", 10000, 300000, budget=250)]),
    "C33": dict(parts=[G("nav", "NavGen"), T("nav", "NavTrace", 10000, 300000, budget=250)]),
    "C34": dict(parts=[G("bits", "BitsGen"), T("bits", "BitsTrace", 10000, 300000, budget=250)]),
    "C35": dict(parts=[G("nums", "NumsGen"), T("nums", "NumsTrace", 10000, 200000, budget=250)]),
    "C26": dict(parts=[vals("each"), valst("each"), valst("", b=100)]),
}
