"""Which monitors decide which property."""

RUNNER = dict(pkg="runner", stubs={"demo": "internal/runbook/demo"}, shards=4)

DAG = dict(pkg="dag", shards=4)

BOOK = dict(pkg="book", shards=4, **{"with": ["jn"]})

SHELL = dict(pkg="shell", shards=4, **{"with": ["jn"]})

JOBS = {
    "C01": [RUNNER], "C02": [RUNNER], "C03": [RUNNER], "C04": [RUNNER],
    "C05": [dict(RUNNER, race=[False, True])],
    "C06": [RUNNER], "C07": [RUNNER],
}
JOBS.update({"C08": [DAG], "C09": [DAG]})
JOBS.update({p: [BOOK] for p in ("C11", "C13", "C14", "C15", "C16")})
JOBS.update({p: [SHELL] for p in ("C17", "C18", "C19", "C20")})
PGNET = dict(pkg="pgnet", shards=4, **{"with": ["pgfake", "dgen", "jn"]})
JOBS.update({p: [PGNET] for p in ("C21", "C22", "C23", "C24", "C25", "C26")})
DDL = dict(pkg="ddlmon", shards=4, **{"with": ["dgen"]})
JOBS.update({p: [DDL] for p in ("C27", "C28", "C29", "C30", "C31")})
# what is hidden in real targets
JOBS["C05"] += [dict(SHELL, race=[True]), dict(PGNET, race=[True])]
JOBS.update({p: [dict(PGNET, cli=True)] for p in ("C36", "C37", "C39")})
JOBS["C38"] = [PGNET]
LOG = dict(pkg="logmon", shards=4)
JOBS.update({"C32": [LOG], "C33": [dict(LOG, race=[False, True])]})
TASKS = dict(pkg="tasks", shards=4)
JOBS.update({"C34": [dict(TASKS, race=[False, True])], "C35": [TASKS]})
# multiples of the quick number of cases
SCALE = dict(C01=12, C02=12, C03=12, C04=12, C05=4, C06=10, C07=12, C08=12, C09=3, C11=6, C13=7, C14=7, C15=8, C16=6, C17=6, C18=7,
             C19=4, C20=6, C21=12, C23=9, C24=5, C25=5, C26=9, C27=3, C28=3, C29=5, C30=40, C31=40, C32=25, C33=4, C34=6,
             C35=8, C36=7, C37=2, C38=8, C39=4)
from props import P  # noqa: E402
RULES = {p["id"]: p["rule"] for p in P}
ASSUMPTIONS = {p["id"]: p["assume"] for p in P}
