"""Quick self test of the simulator: boots the package and shows that one seed is one execution."""
import sys

from . import boot, core


def main():
    n = boot.boot()

    def run(seed):
        log = []

        def work(tag):
            from cyclic_boosting import utils
            import numpy as np

            for i in range(5):
                utils.regularize_to_prior_expectation(np.array([1.0, 2.0]), np.array([0.1, 0.2]), 1.0)
                log.append((tag, i))

        sim = core.Sim({"kind": "walk", "p": 0.3, "seed": seed}, "line")
        for t in "xyz":
            sim.task(t, [(t, lambda t=t: work(t))])
        sim.run()
        return sim.trace, log

    a, b, c = run(1), run(1), run(2)
    if a != b or a == c:
        print("self test failed: schedules are not determined by the seed")
        return 1
    print("self test ok: %d instrumented functions, %d switches" % (n, len(a[0])))
    return 0


if __name__ == "__main__":
    sys.exit(main())
