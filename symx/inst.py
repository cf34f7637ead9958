class Inst(object):
    """one harness with fixed parameters; opts: time_s, max_paths, alts, oracle, ..."""
    def __init__(self, name, fn, params=None, **opts):
        self.name, self.fn, self.params, self.opts = name, fn, params or {}, opts
