"""The single source of randomness of the simulator.

Every decision (workload, configuration, schedule, fault plan) is drawn from one
`random.Random` seeded from a string; string seeding hashes with SHA-512, so it does
not depend on PYTHONHASHSEED, on the platform or on numpy.
"""
import random


def make(*parts):
    return random.Random("|".join(str(p) for p in parts))


class Pick(random.Random):
    pass
