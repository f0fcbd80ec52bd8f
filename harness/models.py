"""Ways to build the solver objects under test."""
from ibl.head_method import HeadMethod
from ibl.ibl_method import IBLMethod
from ibl.thwaites_method import ThwaitesMethodLinear, ThwaitesMethodNonlinear

MODELS = ["linear", "nonlinear", "head"]
CLASSES = {"linear": ThwaitesMethodLinear, "nonlinear": ThwaitesMethodNonlinear,
           "head": HeadMethod}


def make(model, u_e=None, du_e=None, d2u_e=None, **kw):
    return CLASSES[model](U_e=u_e, dU_edx=du_e, d2U_edx2=d2u_e, **kw)


def internals():
    """Whether a method can still be written the way the library's are.

    The names a derived method uses are not public; should they be renamed,
    the laws on methods of our own have nothing to say.
    """
    m = make("linear")
    return (all(hasattr(m, n) for n in (
        "_solution", "_ic", "_ode_setup", "_ode_impl", "_set_kill_event",
        "_add_kill_event"))
        and set(IBLMethod.__abstractmethods__) == {
            "_ode_setup", "_ode_impl", "v_e", "delta_d", "delta_m", "delta_k",
            "shape_d", "shape_k", "tau_w", "dissipation"})
