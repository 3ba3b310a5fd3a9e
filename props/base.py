"""Scenario container."""


class Scenario:
    def __init__(self, name, fn, weight=1.0, witnesses=6, max_paths=0, timeout_ms=5000):
        self.name, self.fn, self.weight = name, fn, weight
        self.witnesses, self.max_paths, self.timeout_ms = witnesses, max_paths, timeout_ms
