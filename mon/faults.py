"""Stand-ins that pass everything on and fail at a chosen point."""

from __future__ import annotations

import sqlite3


class InjectedFault(Exception):
    """The storage failed."""


class Trigger:
    """Counts operations and fails at one of them.

    when: "before" (the operation isn't done) or "after" (it's done, but
    its caller gets an error)."""

    def __init__(self):
        self.armed = None
        self.when = "before"
        self.count = 0
        self.fired = None
        self.error = InjectedFault

    def arm(self, at, when="before"):
        self.armed = at
        self.when = when
        self.count = 0
        self.fired = None

    def disarm(self):
        self.armed = None

    def __call__(self, name, operation):
        if self.armed is None:
            return operation()
        index = self.count
        self.count += 1
        if index != self.armed:
            return operation()
        self.fired = name
        self.armed = None
        if self.when == "after":
            operation()
        raise self.error(f"injected at {name}")


class FaultyConnection:
    """An sqlite3 connection whose statements and commits can fail."""

    def __init__(self, connection, trigger):
        self._connection = connection
        self._trigger = trigger

    def cursor(self):
        return FaultyCursor(self._connection.cursor(), self._trigger)

    def execute(self, statement, parameters=()):
        return self._trigger(
            "statement " + " ".join(statement.split()[:3]), lambda: self._connection.execute(statement, parameters)
        )

    def executemany(self, statement, parameters):
        parameters = list(parameters)
        return self._trigger(
            "statement " + " ".join(statement.split()[:3]), lambda: self._connection.executemany(statement, parameters)
        )

    def commit(self):
        return self._trigger("commit", self._connection.commit)

    def rollback(self):
        return self._connection.rollback()

    def close(self):
        return self._connection.close()

    def __enter__(self):
        self._connection.__enter__()
        return self

    def __exit__(self, kind, value, traceback):
        if kind is None and self._connection.in_transaction:
            try:
                self._trigger("commit", self._connection.commit)
            except BaseException:
                self._connection.rollback()
                raise
            return False
        return self._connection.__exit__(kind, value, traceback)

    def __getattr__(self, name):
        return getattr(self._connection, name)


class FaultyCursor:
    def __init__(self, cursor, trigger):
        self._cursor = cursor
        self._trigger = trigger

    def execute(self, statement, parameters=()):
        self._trigger(
            "statement " + " ".join(statement.split()[:3]), lambda: self._cursor.execute(statement, parameters)
        )
        return self

    def executemany(self, statement, parameters):
        parameters = list(parameters)
        self._trigger(
            "statement " + " ".join(statement.split()[:3]), lambda: self._cursor.executemany(statement, parameters)
        )
        return self

    def __iter__(self):
        return iter(self._cursor)

    def __getattr__(self, name):
        return getattr(self._cursor, name)


def database_error(message):
    return sqlite3.OperationalError(message)
