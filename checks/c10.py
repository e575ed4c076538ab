"""C10: step size laws of the controllers, named exponents, fallback of decorators."""
from vlib.run import Harness
from vlib.world import *
from vlib.control import *

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "real powers: uninterpreted function of base and exponent (x**-e = 1/x**e, (x/y)**e = "
    "(y/x)**-e known)",
    "published exponents: Soederlind / Kennedy and Carpenter; factors of history entries "
    "that are zero are left out",
]


def law(ctx, decorated, hist="any"):
    """suggestion = clipped product of powers, all exponents symbolic."""
    ctx.merge = True
    cfg = config(ctx)
    x = Exps(ctx, "x")
    c = ErrorController(config=cfg, **x.kw())
    if decorated:
        y = Exps(ctx, "y", mode="one")
        c = ErrorControllerDecorator(error_controller=c, **y.kw())
    k = Call(ctx, hist=hist)
    not_borderline(ctx, cfg, k)
    acc, want = reference(ctx, cfg, x, k)
    r, s = call(c, k)
    if r == "refused":
        ctx.check("refused_rejections_only", not acc)
        if not decorated:
            ctx.check("refused_only_without_smaller_step", want >= k.dt)
        ctx.reach("refused")
    else:
        ctx.check("decision", r is acc)
        if decorated and not acc and bool(want >= k.dt):
            _, want = reference(ctx, cfg, y, k)
            ctx.reach("fallback")
        ctx.check_eq("suggestion", s, want)
    ctx.reach("done")


def fallback(ctx, calls, max_iter):
    """The decorating controller takes over when the decorated one can't shrink the step
    or has been rejected too often, until a step is accepted."""
    ctx.merge = True
    mi = int(ctx.int("max_iter", 0, max_iter))
    cfg = config(ctx, infinite=False, max_iter=mi)
    x, y = Exps(ctx, "x", mode="one"), Exps(ctx, "y", mode="one")
    y.alpha = ctx.real("yalpha", positive=True)
    x.alpha = ctx.real("xalpha", positive=True)
    c = ErrorControllerDecorator(
        error_controller=ErrorController(config=cfg, **x.kw()), **y.kw()
    )
    inner, count, dt = False, 0, None
    for i in range(calls):
        k = Call(ctx, str(i), hist="none", remaining="infinite", dt=dt)
        not_borderline(ctx, cfg, k)
        acc, want = reference(ctx, cfg, x, k)
        refuse = False
        if not inner and not acc:
            count += 1
            if not (bool(want < k.dt) and count <= mi):
                inner, count = True, 0
                ctx.reach("takes_over")
        if inner:
            acc, want = reference(ctx, cfg, y, k)
            refuse = not acc and bool(want >= k.dt)
        if acc:
            inner, count = False, 0
        r, s = call(c, k)
        ctx.check("refusal", (r == "refused") == refuse)
        if refuse or r == "refused":
            ctx.reach("refused")
            break
        ctx.check("decision", r is acc)
        ctx.check_eq("suggestion", s, want)
        dt = None if acc else s
    else:
        ctx.reach("all")
    ctx.reach("done")


def _same_config(ctx, a, b):
    for n in ("tol", "lower_bound", "upper_bound", "safety_factor", "max_iter"):
        ctx.check_eq("config_" + n, getattr(a, n), getattr(b, n))


def exponents(ctx, name, decorated):
    """Named controllers carry their published exponents for every order."""
    from rkopenmdao import error_controllers as ec

    p = ctx.int("p", 1, 12)
    cfg = config(ctx)
    base = ErrorController(alpha=1.0, config=cfg) if decorated else None
    args = {}
    general = dict(
        h_312_general=("var_alpha", "a", "b"), h_321_general=("var_alpha", "var_beta", "a"),
        h_330_general=("var_alpha", "var_beta", "var_gamma"),
    )
    if name in general:
        v = {n: ctx.real("arg_" + n) for n in general[name]}
        args = v
        va = v["var_alpha"]
        k = "p"
        if name == "h_312_general":
            w = (va, -2 * va, va, v["a"], v["b"])
        elif name == "h_321_general":
            w = (va, v["var_beta"], -(va + v["var_beta"]), v["a"], 1 - v["a"])
        else:
            w = (va, v["var_beta"], v["var_gamma"], 2, -1)
    else:
        k, *w = NAMED[name]
    kw = dict(base=base) if base is not None else {}
    if not (name == "pseudo" and decorated):
        kw["config"] = cfg
    c = getattr(ec, name)(p, **args, **kw)
    den = {None: 1, "p": p, "p+1": p + 1}[k]
    got = [c.alpha, c.beta, c.gamma, c.a, c.b]
    tol = 1e-12
    for n, g, e in zip(("alpha", "beta", "gamma"), got[:3], w[:3]):
        d = g * den - e
        ctx.check(n, (d <= tol) & (d >= -tol) if ctx.symbolic else abs(d) <= 1e-9)
    for n, g, e in zip(("a", "b"), got[3:], w[3:]):
        d = g - e
        ctx.check(n, abs(d) <= tol if not ctx.symbolic else (
            (d <= tol) & (d >= -tol) if is_sym(d) else abs(d) <= tol))
    if name.startswith("h0_"):
        # deadbeat controllers: all poles of the closed loop at zero
        al, be, ga = (q * den for q in got[:3])
        for n, d in (("1", al - 1 - got[3]), ("2", be - got[3] + got[4]), ("3", ga + got[4])):
            ctx.check("deadbeat" + n, (d <= tol) & (d >= -tol) if is_sym(d) else abs(d) <= 1e-9)
    _same_config(ctx, c.config, cfg)
    ctx.check("decorates", isinstance(c, ErrorControllerDecorator) == decorated)
    ctx.reach("done")


def chain_in_integrator(ctx, names, p, phat):
    """The integrator builds the chain in the given order with the lower of both orders
    and the given configuration."""
    from rkopenmdao import error_controllers as ec
    from vlib.layouts import LAYOUTS

    lay = LAYOUTS["autonomous"]()
    tab = tableau(ctx, 1, "erk", embedded=True, p=p, phat=phat)
    seen = []

    def factory(n):
        def f(p, config=ErrorControllerConfig(), base=None):
            c = getattr(ec, n)(p=p, config=config, base=base)
            seen.append((n, p, config, base, c))
            return c
        return f

    cfg = ErrorControllerConfig(tol=ctx.real("tol", positive=True))
    World(
        ctx, lay, tab, steps=1, step_size=ctx.real("h"), adaptive=True,
        error_controller=[factory(n) for n in names],
        error_controller_options=dict(config=cfg),
    )
    got = seen[-len(names):]
    ctx.check("names", [g[0] for g in got] == list(names))
    for i, g in enumerate(got):
        ctx.check_eq("order", g[1], min(p, phat))
        _same_config(ctx, g[2], cfg)
        _same_config(ctx, g[4].config, cfg)
        ctx.check("base", g[3] is (got[i - 1][4] if i else None))
    ctx.reach("done")


from vlib.engine import is_sym  # noqa: E402

_F = ("ErrorController._run", "ErrorController._estimate_next_step_function",
      "ErrorControllerDecorator.__call__", "ErrorControllerDecorator._run")
_gen = ["h_312_general", "h_321_general", "h_330_general"]
HARNESSES = [
    Harness(
        law, quick=[dict(decorated=False), dict(decorated=True, hist="none"), dict(decorated=True)],
        functions=_F, reach=("done", "refused", "fallback"), opts=dict(max_paths=60000),
        bounds="one call; every exponent, configuration value, error, history symbolic",
    ),
    Harness(
        fallback, quick=[dict(calls=3, max_iter=2)], thorough=[dict(calls=4, max_iter=3)],
        functions=_F, reach=("done", "takes_over", "refused", "all"), opts=dict(max_paths=90000),
        bounds="sequences of 3 (4) calls, max_iter 0..2 (3)",
    ),
    Harness(
        exponents,
        quick=[dict(name=n, decorated=d) for n in list(NAMED) + _gen for d in (False, True)],
        functions=("every factory of error_controllers",), bounds="order 1..12 symbolic",
    ),
    Harness(
        chain_in_integrator,
        quick=[dict(names=["pid", "integral"], p=3, phat=2), dict(names=["h_211"], p=2, phat=4),
               dict(names=["integral", "h0_312", "pc"], p=4, phat=3)],
        functions=("RungeKuttaIntegrator._setup_error_controller", "EmbeddedButcherTableau.min_p_order"),
        bounds="chains of one to three controllers",
    ),
]
