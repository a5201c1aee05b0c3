"""What each check runs: package of /verif/harness, test name, build flavour."""

# id: dict(pkg, test, race, shim, crawler, mem_gb, fuzz, fuzztime)
CHECKS = {}


def c(pid, pkg, race=False, shim=False, crawler=False, mem_gb=0, fuzz=None, fuzztime=0, timeout=700):
    CHECKS[pid] = dict(pkg=pkg, test="Test" + pid, race=race, shim=shim, crawler=crawler, mem_gb=mem_gb,
                       fuzz=fuzz, fuzztime=fuzztime, timeout=timeout)


c("C01", "misct", race=True)
c("C02", "misct", fuzz="FuzzC02", fuzztime=120)
c("C03", "misct")
c("C04", "misct")
c("C20", "misct", race=True)
c("C21", "misct", race=True)
c("C22", "misct", race=True)
c("C23", "misct", race=True)
c("C28", "misct", race=True)
c("C36", "misct")
c("C12", "shimt", shim=True)
c("C13", "dhtt")
c("C14", "dhtt", race=True)
c("C15", "dhtt")
c("C08", "krpct", race=True)
c("C09", "krpct", race=True)
c("C10", "krpct", race=True)
c("C34", "krpct", race=True)
c("C29", "krpct", race=True)
c("C05", "nodet", crawler=True)
c("C06", "nodet", crawler=True)
c("C07", "nodet", crawler=True, mem_gb=8)
c("C11", "nodet", crawler=True)
c("C16", "shimt", crawler=True, shim=True)
c("C17", "peert", mem_gb=8)
c("C18", "peert", race=True)
c("C19", "shimt", shim=True)
c("C24", "nodet", crawler=True)
c("C30", "nodet", crawler=True)
c("C25", "nodet", crawler=True)
c("C31", "nodet", crawler=True)
c("C32", "nodet", crawler=True)
c("C33", "nodet", crawler=True)
c("C35", "nodet", crawler=True)
c("C26", "conft", crawler=True)
c("C27", "conft", crawler=True)
