"""C14: saved integration states restore completely and independently."""
import copy
import json
import os
import random

import numpy as np

from rkopenmdao.checkpoint_interface.runge_kutta_integrator_pyrevolve_classes import (
    RungeKuttaCheckpoint)
from rkopenmdao.time_discretization.runge_kutta_discretization_state import (
    EmbeddedRungeKuttaDiscretizationState, RungeKuttaDiscretizationState)
from rkopenmdao.time_integration_state import TimeIntegrationState

DISC = ["start_state", "stage_states", "stage_updates", "final_state",
        "independent_inputs", "stage_independent_outputs", "final_independent_outputs",
        "start_time", "stage_times", "final_time", "step_size", "linearization_points"]
EMB = ["embedded_state", "error_estimate"]
INT = ["step_size_suggestion", "step_size_history", "error_history"]


def scenarios(tier, seed):
    h = json.load(open(os.environ["HIST_FILE"]))
    return [{"h": x, "s": f"{seed}/{i}"} for i, x in enumerate(h["gen"] + h["sim"])]


class Obj:
    """One state (an integration state, or only its discretization part)."""

    def __init__(self, kind, sizes):
        self.kind = kind
        cls = (EmbeddedRungeKuttaDiscretizationState if kind[0]
               else RungeKuttaDiscretizationState)
        d = cls(ode_state_size=sizes[0], independent_input_size=sizes[1],
                independent_output_size=sizes[2], number_of_stages=sizes[3],
                linearization_point_size=sizes[4])
        self.o = (TimeIntegrationState(d, np.zeros(1), np.zeros(2), np.zeros(2))
                  if kind[1] else d)
        self.ck = None

    @property
    def disc(self):
        return self.o.discretization_state if self.kind[1] else self.o

    def names(self):
        return DISC + (EMB if self.kind[0] else []) + (INT if self.kind[1] else [])

    def arr(self, name):
        return getattr(self.o if name in INT else self.disc, name)

    def obs(self):
        return [[int(v) if float(v).is_integer() and abs(v) < 2**31 else -1
                 for v in np.asarray(self.arr(n)).ravel()] for n in self.names()]

    def shapes(self):
        return [list(np.shape(self.arr(n))) for n in self.names()]

    def ids(self):
        return [id(self.arr(n)) for n in self.names()]

    def typ(self):
        return [int(isinstance(self.disc, EmbeddedRungeKuttaDiscretizationState)),
                int(isinstance(self.o, TimeIntegrationState))]


def run(sc):
    rng = random.Random(sc["s"])
    kind = [rng.randint(0, 1), rng.choice([1, 1, 0])]
    sizes = [rng.choice([1, 2, 3]), rng.choice([0, 1, 2]), rng.choice([0, 1, 2]),
             rng.choice([1, 2, 3]), rng.choice([1, 2, 4])]
    st = {1: Obj(kind, sizes), 2: Obj(kind, sizes)}
    nxt = [100]

    def fresh():
        nxt[0] += 1
        return nxt[0]

    for o in st.values():
        for n in o.names():
            a = o.arr(n)
            a[...] = np.array([fresh() for _ in range(a.size)]).reshape(a.shape)

    def obs():
        return [st[1].obs(), st[2].obs()]

    for o in st.values():  # a checkpoint lives as long as the integration
        if kind[1]:
            o.ck = RungeKuttaCheckpoint(o.o)
    ev = [{"op": "start", "obs": obs(), "shapes": [st[1].shapes(), st[2].shapes()]}]
    saved = dic = None
    for k, a, b in sc["h"]:
        if k in "VR" and not kind[1]:
            k = "T"  # checkpoints are of integration states
        if k == "R" and saved is None or k == "F" and dic is None:
            continue
        e = {"op": "do", "k": [k, a, b], "f": 1, "j": 1, "v": 0}
        o, p = st[a], st.get(b)
        ids = o.ids()
        live = [(n, o.arr(n)) for n in o.names()]
        inplace = 1
        if k == "W":
            n = rng.choice([n for n in o.names() if o.arr(n).size])
            j = rng.randrange(o.arr(n).size)
            e.update(f=o.names().index(n) + 1, j=j + 1, v=fresh())
            o.arr(n).flat[j] = e["v"]
        elif k == "S":
            o.o.set(p.o)
            inplace = int(o.ids() == ids and all(
                np.array_equal(x, o.arr(n)) for n, x in live))
        elif k == "V":
            saved = list(o.ck.get_data(rng.randrange(5)))
        elif k == "R":
            loc = o.ck.get_data_location(rng.randrange(5))
            assert len(loc) == len(saved)
            for x, y in zip(loc, saved):
                x[:] = y
        elif k == "D":
            dic = copy.deepcopy(o.o.to_dict())
        elif k in "FTC":
            if k == "C":
                o.o = copy.deepcopy(p.o)
            else:
                d = copy.deepcopy(dic) if k == "F" else o.o.to_dict()
                o.o = type(o.o).from_dict(d)
            if kind[1]:
                o.ck = RungeKuttaCheckpoint(o.o)
        e.update(obs=obs(), inplace=inplace, kind=o.typ(), shapes=o.shapes())
        ev.append(e)
    return [{"kind": kind, "names": st[1].names(), "sizes": sizes, "ev": ev}]
