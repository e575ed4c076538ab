"""C17: Butcher tableaux are classified and validated correctly."""
import warnings

from vlib.run import Harness
from vlib.world import *

ASSUMPTIONS = [
    "real arithmetic: rounding of IEEE doubles is not modelled",
    "sums that agree up to a deviation between 1e-9 and 1e-3 may be warned about or not",
]


def _both(ctx, label, got, conditions):
    """got holds exactly if all the conditions hold."""
    all_ = None
    for c in conditions:
        all_ = c if all_ is None else (all_ & c)
    if all_ is None:
        ctx.check(label, bool(got))
    elif bool(got):
        ctx.check(label, all_)
    else:
        ctx.check(label, ~all_ if not isinstance(all_, (bool, np.bool_)) else not all_)


def _full(ctx, s, name="A"):
    return ctx.reals(name, s, s)


def _zero(A, s, first):
    """Entries (i, j) with j >= i + first are zero."""
    return [A[i, j] == 0.0 for i in range(s) for j in range(i + first, s)]


def _make(ctx, kind, A, b, c, e, p, phat):
    with quiet():
        if kind == "plain":
            return ButcherTableau(butcher_matrix=A, butcher_weight_vector=b,
                                  butcher_time_stages=c, p=p)
        if kind == "embedded":
            return EmbeddedButcherTableau(
                butcher_matrix=A, butcher_weight_vector=b, butcher_adaptive_weights=e,
                butcher_time_stages=c, p=p, phat=phat)
        return EmbeddedButcherTableau.from_butchertableau(
            ButcherTableau(butcher_matrix=A, butcher_weight_vector=b,
                           butcher_time_stages=c, p=p), e, phat)


def _classes(ctx, label, t, A, s):
    """The three classes exclude each other and cover everything."""
    explicit, dirk, full = t.is_explicit(), t.is_diagonally_implicit(), t.is_implicit()
    ctx.check(label + "exactly_one", int(explicit) + int(dirk) + int(full) == 1)
    _both(ctx, label + "explicit", explicit, _zero(A, s, 0))
    lower = _zero(A, s, 1)
    if dirk:
        _both(ctx, label + "dirk", True, lower)
    _both(ctx, label + "lower_triangular", not full, lower)
    ctx.reach("explicit" if explicit else "dirk" if dirk else "full")


def _coefficients(ctx, label, t, A, b, c, s):
    ctx.check(label + "shapes", np.shape(t.butcher_matrix) == (s, s)
              and np.shape(t.butcher_weight_vector) == (s,)
              and np.shape(t.butcher_time_stages) == (s,))
    ctx.check_eq(label + "A", list(np.ravel(t.butcher_matrix)), list(np.ravel(A)))
    ctx.check_eq(label + "b", list(t.butcher_weight_vector), list(b))
    ctx.check_eq(label + "c", list(t.butcher_time_stages), list(c))


def _order(t, what):
    try:
        return getattr(t, what)
    except ValueError:
        return None


def classify(ctx, s, kind):
    A, b, c = _full(ctx, s), ctx.reals("b", s), ctx.reals("c", s)
    e = ctx.reals("e", s)
    p, phat = ctx.int("p", 1, 9), ctx.int("phat", 1, 9)
    given = bool(ctx.bool("times_given"))
    # sums are a matter of the harness below
    ctx.assume(_sum(b) == 1.0)
    if given:
        for i in range(s):
            ctx.assume(c[i] == _sum(A[i]))
    t = _make(ctx, kind, A, b, c if given else None, e, p, phat)
    c = arr([_sum(A[i]) for i in range(s)])
    embedded = kind != "plain"
    ctx.check("stages", t.number_of_stages() == s and len(t) == s)
    ctx.check("embedded", t.is_embedded is embedded)
    ctx.check("order", t.p == p)
    ctx.check("min_order", t.min_p_order() == (min(p, phat) if embedded else p))
    _coefficients(ctx, "", t, A, b, c, s)
    _classes(ctx, "", t, A, s)
    if embedded:
        ctx.check("embedded_order", t.phat == phat)
        ctx.check_eq("embedded_weights", list(t.butcher_adaptive_weights), list(e))
        ctx.assume(_sum(e) == 1.0)
        with quiet():
            main, emb = t.main_method, t.embedded_method
        for name, m, w, q in (("main_", main, b, p), ("emb_", emb, e, phat)):
            ctx.check(name + "embedded", m.is_embedded is False)
            ctx.check(name + "order", m.p == q and m.min_p_order() == q)
            ctx.check(name + "stages", m.number_of_stages() == s and len(m) == s)
            _coefficients(ctx, name, m, A, w, c, s)
        _classes(ctx, "main_", main, A, s)
    # classification follows the orders and coefficients set later
    q = ctx.int("q", 1, 9)
    t.p = q
    ctx.check("order_set", t.p == q)
    ctx.check("min_order_set", t.min_p_order() == (min(q, phat) if embedded else q))
    ctx.reach("done")


def _sum(v):
    r = 0.0
    for x in v:
        r = r + x
    return r


def unknown_orders(ctx, kind):
    A, b, c, e = _full(ctx, 1), arr([1.0]), None, arr([1.0])
    t = _make(ctx, "embedded", A, b, c, e, None if kind in ("p", "both") else 2,
              None if kind in ("phat", "both") else 2)
    for what in ("p", "phat"):
        unknown = kind in (what, "both")
        ctx.check(what, (_order(t, what) is None) == unknown)
        setattr(t, what, 3)
        ctx.check(what + "_set", getattr(t, what) == 3)
    ctx.reach("done")


def sizes(ctx, kind, smax):
    """Accepted exactly if all sizes agree."""
    rows, cols = int(ctx.int("rows", 1, smax)), int(ctx.int("cols", 1, smax))
    nb = int(ctx.int("nb", 1, smax))
    nc = int(ctx.int("nc", 0, smax))  # 0: not given
    ne = int(ctx.int("ne", 1, smax)) if kind == "embedded" else nb
    A, b = ctx.reals("A", rows, cols), ctx.reals("b", nb)
    c = ctx.reals("c", nc) if nc else None
    e = ctx.reals("e", ne)
    consistent = rows == cols == nb == ne and nc in (0, nb)
    try:
        t = _make(ctx, kind, A, b, c, e, 1, 1)
        accepted = True
    except (ValueError, AssertionError, TypeError, IndexError):
        accepted = False
    ctx.check("accepted" if consistent else "rejected", accepted == consistent)
    if accepted and consistent:
        ctx.check("stages", t.number_of_stages() == rows)
        ctx.reach("accepted")
    else:
        ctx.reach("rejected")
    ctx.reach("done")


def _noticeable(ctx, deviations):
    """Whether some of the deviations is large; all are either large or tiny."""
    big = False
    for d in deviations:
        a = abs(d)
        if bool(a > 1e-3):
            big = True
        else:
            ctx.assume(a < 1e-9)
    return big


def warned(ctx, s, kind, times):
    """A warning for weights or rows with a wrong sum, and for nothing else."""
    A, b, c, e = _full(ctx, s), ctx.reals("b", s), ctx.reals("c", s), ctx.reals("e", s)
    bad_b = _noticeable(ctx, [_sum(b) - 1.0])
    bad_c = _noticeable(ctx, [_sum(A[i]) - c[i] for i in range(s)]) if times else False
    with warnings.catch_warnings(record=True) as seen:
        warnings.simplefilter("always")
        if kind == "plain":
            t = ButcherTableau(butcher_matrix=A, butcher_weight_vector=b,
                               butcher_time_stages=c if times else None, p=1)
        else:
            t = EmbeddedButcherTableau(
                butcher_matrix=A, butcher_weight_vector=b, butcher_adaptive_weights=e,
                butcher_time_stages=c if times else None, p=1, phat=1)
    ctx.check("warnings", len(seen) == int(bad_b) + int(bad_c))
    _coefficients(ctx, "", t, A, b, c if times else [_sum(A[i]) for i in range(s)], s)
    ctx.reach(f"bad{int(bad_b)}{int(bad_c)}" if times else "done")
    ctx.reach("done")


_F = ("ButcherTableau", "EmbeddedButcherTableau")
_K = ("plain", "embedded", "from")
HARNESSES = [
    Harness(
        classify, quick=[dict(s=s, kind=k) for s in (1, 2, 3) for k in _K],
        thorough=[dict(s=4, kind=k) for k in _K],
        functions=_F, reach=("done", "explicit", "dirk", "full"), opts=dict(max_paths=60000),
        bounds="tableaux of up to 3 (thorough: 4) stages, all coefficients, orders 1-9",
    ),
    Harness(unknown_orders, quick=[dict(kind=k) for k in ("p", "phat", "both", "none")],
            functions=_F, bounds="one stage"),
    Harness(
        sizes, quick=[dict(kind=k, smax=3) for k in ("plain", "embedded")],
        thorough=[dict(kind=k, smax=4) for k in ("plain", "embedded")],
        functions=_F, reach=("done", "accepted", "rejected"), opts=dict(max_paths=60000),
        bounds="all sizes 1-3 (4), all coefficients",
    ),
    Harness(
        warned, quick=[dict(s=s, kind=k, times=t) for s in (1, 2) for k in ("plain", "embedded")
                       for t in (True, False)],
        thorough=[dict(s=3, kind=k, times=True) for k in ("plain", "embedded")],
        functions=_F, reach=("done",), opts=dict(max_paths=60000),
        bounds="up to 2 (3) stages, all coefficients",
    ),
]
