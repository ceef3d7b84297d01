"""Which monitored processes make up each check."""
from dataclasses import dataclass, field


@dataclass
class Proc:
    test: str = ""          # test function, default Test<ID>
    cpus: int = 0           # CPU affinity (sets the agent's worker count); 0 = all
    gomaxprocs: int = 0
    budget: int = 60        # seconds of exploration after which no new case is started
    limit: int = 300        # hang watchdog
    weight: int = 1         # CPUs it is expected to keep busy
    env: dict = field(default_factory=dict)


def q(tier, a, b):
    return a if tier == "quick" else b


def pure(nq=2, nt=8, **kw):
    def f(tier):
        n = q(tier, nq, nt)
        return [Proc(budget=q(tier, 40, 400), limit=q(tier, 300, 800), weight=1, **kw) for _ in range(n)]
    return f


def c07(tier):
    b, l = q(tier, 40, 400), q(tier, 300, 800)
    return [Proc(budget=b, limit=l, weight=4),
            Proc(budget=b, limit=l, weight=2, gomaxprocs=2),
            Proc(budget=b, limit=l, weight=1, gomaxprocs=1),
            Proc(budget=b, limit=l, weight=4, env={"VERIF_NOTABLE": "1"})]


def spoe(quick, thorough, **kw):
    """One process per entry; the entry is the number of CPUs, which sets the
    number of workers of the agent."""
    def f(tier):
        return [Proc(cpus=n, budget=q(tier, 40, 400), limit=q(tier, 300, 800), weight=min(n, q(tier, 4, 8)), **kw)
                for n in q(tier, quick, thorough)]
    return f


def peers(nq, nt, **kw):
    """Peer servers have no worker threads; half of the processes run on few CPUs."""
    def f(tier):
        return [Proc(gomaxprocs=[0, 2, 4, 1][i % 4], budget=q(tier, 40, 400), limit=q(tier, 300, 800),
                     weight=[4, 2, 4, 1][i % 4], **kw) for i in range(q(tier, nq, nt))]
    return f


PLANS = {
    "C01": pure(), "C02": pure(), "C03": pure(), "C04": pure(), "C06": pure(), "C08": pure(),
    "C16": pure(), "C17": pure(), "C28": pure(), "C30": pure(), "C31": pure(), "C32": pure(1, 2), "C07": c07,
    "C05": spoe([8, 1], [8, 8, 8, 4, 2, 2, 1, 1]),
    "C09": spoe([8, 2], [8, 8, 8, 4, 2, 1]),
    "C11": spoe([8, 2], [8, 8, 8, 2]),
    "C12": spoe([8, 2], [8, 8, 8, 4, 2, 1]),
    "C13": spoe([8, 3, 1], [8, 8, 4, 3, 2, 1]),
    "C14": spoe([8, 3, 2, 1], [8, 8, 7, 6, 5, 4, 3, 2, 1]),
    "C18": peers(2, 6), "C19": peers(2, 6), "C20": peers(3, 8), "C21": peers(2, 6), "C22": peers(2, 6), "C27": peers(2, 6),
    "C23": spoe([8, 2], [8, 8, 4, 3, 2, 1]), "C24": peers(4, 8),
    "C15": spoe([8, 2], [8, 8, 8, 4, 2, 1]),
    "C10": spoe([8, 3], [8, 8, 8, 4, 3, 2]),
    "C25": spoe([8, 2], [8, 8, 4, 2]),
    "C29": spoe([8, 2], [8, 8, 4, 2, 1]),
    "C26": lambda tier: [Proc(gomaxprocs=[0, 2, 4, 1][i % 4], budget=q(tier, 40, 400), limit=q(tier, 300, 800), weight=2) for i in range(q(tier, 4, 8))],
}
