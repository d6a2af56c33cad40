from .rng import Rng
from .sim import Sim, Violation, SimCrash, HarnessError, ProcResult
