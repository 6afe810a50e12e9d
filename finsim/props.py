"""The checks, one per property."""
from . import registry
from .props_base import Prop
from .ranks import Ranks
from .persist import Persist
from .runtab import Runtab
from .optpkg import OptPkg


class RegistryProp(Prop):
    def warm(self, tier):
        registry.builtin()


MIX = "Plans: shared objects from the catalogue, 1-4 callers with seeded request lists, a schedule policy, an address layout and faults, all drawn from Rng(seed, property, index); the leading element is taken round-robin so every catalogue entry is reached. "

PROPS = {p.id: p for p in [
    Prop("C01", 1000, 20000, MIX + "Non-trivial: at least one tabulation, layout or point evaluation of a leaf element was judged."),
    Prop("C02", 2400, 20000, MIX + "Non-trivial: at least one answer of a composite was judged against its factors."),
    Prop("C03", 500, 9000, MIX + "Non-trivial: at least one mapped basis was judged for a caller's own geometry."),
    Prop("C04", 1300, 5000, MIX + "Non-trivial: at least one direct serendipity basis was judged on a caller's own quadrilateral."),
    Prop("C05", 3000, 20000, MIX + "Non-trivial: at least one dual evaluation was judged."),
    Prop("C06", 2600, 20000, MIX + "Non-trivial: at least one rule, point set or mass matrix was judged."),
    Prop("C07", 1800, 16000, MIX + "Non-trivial: at least one layout answer was judged."),
    Prop("C08", 1000, 20000, MIX + "Non-trivial: at least one request was made; three quarters of the requests carry a fault plan."),
    Prop("C09", 1100, 20000, MIX + "Non-trivial: at least one kept answer or passed-in object was compared with its state before."),
    Ranks("C10", 500, 12000, "Plans: the same requests made in 2-3 processes, each with its own hash seed, address layout, unrelated objects, other threads and faults on unrelated objects. Non-trivial: at least one answer was compared between processes."),
    Persist("C11", 800, 12000, "Plans: 2-5 process lifetimes over one simulated disk, each with its own hash seed, threads, faults and possibly a crash; kinds and families of elements round-robin, elements easily confused with each other. Non-trivial: at least one answer was judged."),
    RegistryProp("C12", 9000, 120000, "Plans: 1-4 callers registering families and aliases, looking them up, showing the table and checking it, with faults. Non-trivial: at least one registry request was made."),
    Prop("C13", 1400, 24000, "Plans: requests from the committed list of refused requests, mixed with valid requests on the same shared objects; groups of reasons round-robin. Non-trivial: at least one request was refused."),
    OptPkg("C14", 400, 8000, "Plans: what an import of each optional package finds at each attempt, loads that fail or are interrupted and are tried again, packages switched while callers work; then requests as for C01-C04 and constructions of cited elements, judged by the same references. Non-trivial: at least one answer was judged."),
    Runtab("C15", 700, 12000, "Plans: 2-4 process lifetimes: compilers asking for placeholder tables (threads, faults, crashes) and recording the names on a simulated disk, and runtimes that fill the tables from the names alone. Non-trivial: at least one table was judged."),
]}
