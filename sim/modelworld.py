"""Fourth workload vocabulary: evaluating tool error models whose definitions are
files shipped with the library (YAML and JSON), read through the storage seam."""
import os

from . import bootstrap, fsim, world
from .owned import guard
from .world import ALL_MODELS, Op, gen_survey, mk_survey, obs, obs_survey

VIEWS = ()
VARY = True
OWSG_B = ["MWD+HRGM", "MWD+HRGM_Fl", "MWD+LRGM+SAG", "EMS+HRGM+AX", "EMS+IFR1+SAG+MS", "B013Mc",
          "B002Mc_Fl", "B017Mc", "FINDS", "BLIND+TREND", "A020Gb", "A022Gb_Fl", "A019Gb"]
GYRO = ["GYRO-MWD", "GYRO-NS", "GYRO-NS_Fl", "GYRO-NS-CT", "CB_Film_GMS", "CB_Film_GSS"]
OPS = {}


def _root():
    return os.path.join(os.path.realpath(bootstrap.REPO), "welleng", "errors")


def _on():
    fsim.configure([_root()], bufsize=700)


def gen_world(rng):
    return world.gen_world(rng)


def build(w):
    _on()
    return world.build(w)


def build_minimal(w, keep, d=None):
    _on()
    return world.build_minimal(w, keep, d)


def ref_shared(w):
    _on()
    return world.ref_shared(w)


snapshot, obs_obj, count, plain = world.snapshot, world.obs_obj, world.count, world.plain
outputs, sig, mirror, simplify = world.outputs, world.sig, world.mirror, world.simplify
repick = world.repick


def atomic(d):
    return [d["s"]] if OPS[d["op"]].mutates else []


def names(*groups):
    return [n for n, v in OPS.items() if v.group in groups]


def gen_op(rng, w, pool):
    n = rng.choice(pool)
    s = world.pick_s(rng, w)
    d = {"op": n, "s": s}
    d.update(OPS[n].gen(rng, world._W(w, s)))
    return d


def run_op(o, d):
    return guard(lambda: OPS[d["op"]].fn(o, o.surveys[d["s"]], d))


def op(name, group, gen=None, mutates=False):
    def deco(fn):
        OPS[name] = Op(name, gen or (lambda rng, w: {}), fn, group, mutates)
        return fn
    return deco


def _model(r, w):
    return {"model": r.choice(GYRO if r.random() < 0.5 else ALL_MODELS), "ret": r.random() < 0.3}


def parts(e):
    """Total, sum of the four propagation classes, sum over the sources."""
    return [e.cov_NEVs, e.cov_NEVs_random + e.cov_NEVs_systematic + e.cov_NEVs_global + e.cov_NEVs_within_pad,
            sum((v.cov_NEV for v in e.errors.values()), 0 * e.cov_NEVs)]


@op("evaluate_model", "models", _model, mutates=True)
def _(o, s, d):
    r = s.get_error(d["model"], return_error=True)
    return parts(r.errors) + obs([s.cov_nev, r.errors.cov_HLAs, sorted(r.errors.errors)])


@op("evaluate_model_separately", "models", _model)
def _(o, s, d):
    from welleng.error import ErrorModel
    r = ErrorModel(s, d["model"])
    return parts(r.errors) + obs([r.errors.cov_HLAs, {k: v.e_DIA for k, v in r.errors.errors.items()}])


def _spec(r, w):
    s = gen_survey(r, r.randrange(len(w["headers"])), w["unit"], models=GYRO + ALL_MODELS, cov=0.0)
    return {"spec": s}


@op("new_survey_model", "models", _spec)
def _(o, s, d):
    return obs_survey(mk_survey(d["spec"], o.headers[d["spec"]["h"]]))


@op("tool_model", "json", lambda r, w: {"model": r.choice(OWSG_B)})
def _(o, s, d):
    """A model definition by its own name, below the list of registered models."""
    from welleng.error import ErrorModel
    from welleng.errors.tool_errors import ToolError
    e = ToolError(ErrorModel(s, "ZERO-ERROR"), d["model"])
    return parts(e) + obs([e.cov_HLAs, {k: v.cov_NEV for k, v in e.errors.items()},
                           {str(k): str(v) for k, v in e.em["header"].items()}])


@op("model_list", "index")
def _(o, s, d):
    from welleng.error import get_error_models, get_tool_index
    ix = get_tool_index()
    return obs([sorted(ix), get_error_models(), {k: str(v) for k, v in ix.items()}])


@op("conformance", "json", lambda r, w: {"file": r.choice([
    "owsg_a/GYRO-NS.json", "owsg_a/MWD+SRGM.json", "owsg_a/MWD+IFR1+SAG.json", "owsg_b/FINDS.json",
    "owsg_b/MWD+HRGM+SAG.json", "owsg_b/EMS+LRGM+AX.json"])})
def _(o, s, d):
    from welleng.errors.conformance import compare_model
    return obs([[r.name, r.legacy_function, r.legacy_available, r.interp_available, r.max_abs_diff,
                 r.n_stations] for r in compare_model(
        os.path.join(_root(), "iscwsa_json", d["file"]), s)])
