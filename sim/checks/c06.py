"""C06: an aborted query leaves no trace."""
from ..core import Check
from ..world import jkey
from .. import catalog as cat
from .. import scene as sc
from . import c03


class C06(Check):
    id = "C06"
    quick_runs = 900
    thorough_runs = 24000
    rule = ("a run builds a model (views, sometimes a second model), asks questions, cuts some of them short with a fault placed by a dry run in a fork "
            "(callback failing at its k-th evaluation, exception at a library line or bytecode, output stream failing at a write) and goes on asking the same, "
            "neighbouring and other questions of all objects; every later answer is compared with a pristine twin; non-trivial: a fault fired inside a query "
            "and at least two questions were answered after it")
    assumptions = ["asynchronous faults are delivered between bytecodes of library frames, not inside numpy/scipy"]

    def generate(self, rng, tier):
        ops, gens = [], {}
        sc.scene(rng, "a", kinds=["Recursion"] if rng.random() < 0.15 else None, ops=ops, gens=gens)
        if rng.random() < 0.25:
            sc.scene(rng, "b", kinds=[ops[0]["kind"]] if rng.random() < 0.6 else None, views=0.2, ops=ops, gens=gens)
        ids = sorted(gens)
        asked = {i: [gens[i][0]()] for i in ids}

        def some(i):
            q = gens[i][0]()
            r = rng.random()
            if r < 0.35:
                q = dict(rng.choice(asked[i]))
            elif r < 0.65:
                q = cat.mutate(rng, rng.choice(asked[i][-4:]), gens[i][0])
            asked[i].append(q)
            return dict(q, id=i)
        for _ in range(rng.randint(1, 3)):
            ops.append(some(rng.choice(ids)))
        for _ in range(rng.randint(2, 4)):
            i = rng.choice(ids)
            q = some(i)
            ops.append(dict(q, fault=sc.gen_fault(rng, q, gens[i][1], gens[i][1]["custom"])))
            if rng.random() < 0.7:
                ops.append(dict(q))
            for _ in range(rng.randint(1, 4)):
                ops.append(some(i if rng.random() < 0.7 else rng.choice(ids)))
        return dict(ops=ops)

    def execute(self, case):
        return c03.run_history(case)

    def judge(self, case, rec, oracle):
        return c03.judge_history(rec, oracle, "trace-of-aborted-query")

    def nontrivial(self, case, rec):
        fired = [o["k"] for o in rec.get("obs", []) if o["fired"]]
        return bool(fired) and len([o for o in rec["obs"] if o["k"] > fired[0] and o["out"][0] != "raise"]) >= 2


CHECK = C06()
