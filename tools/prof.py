"""profile one instance: python3-vt tools/prof.py P23 'both[16,list]' [seconds]"""
import cProfile, os, pstats, queue, signal, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symx import runner
pid, name, secs = sys.argv[1], sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 60
m = runner.load_prop(pid)
idx = [i for i, x in enumerate(m.instances('quick')) if x.name == name][0]


class Q(object):
    def put(self, x):
        print(str(x)[:1500])


def stop(*a):
    raise KeyboardInterrupt()


signal.signal(signal.SIGALRM, stop)
signal.alarm(secs)
pr = cProfile.Profile()
pr.enable()
runner.worker(pid, 'quick', idx, Q())
pr.disable()
pstats.Stats(pr).sort_stats('cumtime').print_stats(40)
