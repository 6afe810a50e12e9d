"""Shared by everything that performs or judges operations."""


class Bad(Exception):
    """The oracle rejects an answer."""
    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind


class Out:
    """An answer with whatever is needed to judge it later."""
    def __init__(self, **k):
        self.__dict__.update(k)
