"""Control-flow exceptions (no z3 import: the replay process does not need the solver)."""


class Steer(BaseException):
    """Base of engine control-flow exceptions (BaseException: code under test must not catch them)."""


class PathDone(Steer):
    """The current path is finished early (assumption violated, or branch truncated)."""


class Budget(Steer):
    """Exploration budget exhausted."""


class Unsupported(Steer):
    """The engine cannot follow the code any further on this path."""


class Violation(Steer):
    """A `require` failed."""

    def __init__(self, msg, inputs=None):
        super().__init__(msg)
        self.msg = msg
        self.inputs = inputs
