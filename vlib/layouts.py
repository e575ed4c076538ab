"""Quantity layouts shared by the component harnesses."""
from vlib.world import Layout, Param, Quant

LAYOUTS = {
    "scalar": lambda: Layout([Quant("q", (1,))]),
    "scalar_p": lambda: Layout([Quant("q", (1,))], [Param("p", (1,))]),
    "autonomous": lambda: Layout([Quant("q", (2,))], time=False, unsteady=False),
    "two": lambda: Layout(
        [Quant("u", (2,)), Quant("v", (1,))], [Param("p", (1,))], unsteady=False
    ),
    "matrix": lambda: Layout([Quant("u", (2, 2))], [Param("p", (2,))]),
    "output_only": lambda: Layout(
        [Quant("w", (1,), inputs=False), Quant("u", (1,))], [Param("p", (1,))]
    ),
    "three": lambda: Layout(
        [Quant("u", (1,)), Quant("u_v", (2, 1)), Quant("v", (1,))],
        [Param("p", (1,)), Param("p_u", (2,))],
    ),
}
