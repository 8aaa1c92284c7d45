"""Connections to scratch databases, made by gaspra's own default connection factory."""

from __future__ import annotations

import os
import sqlite3

from gaspra import db_connections


def connect(path):
    """What the library's default factory connects to, if its database were at `path`.

    A library which keeps that elsewhere than in the module's DATABASE gets a plain connection.
    """
    if not (hasattr(db_connections, "DATABASE") and hasattr(db_connections, "connection")):
        return sqlite3.connect(path)
    old = db_connections.DATABASE, db_connections.connection
    db_connections.DATABASE, db_connections.connection = path, None
    try:
        connection = db_connections.connection_factory()
    finally:
        db_connections.DATABASE, db_connections.connection = old
    if isinstance(connection, sqlite3.Connection):
        file = sqlite3.Connection.execute(connection, "PRAGMA database_list").fetchall()[0][2]
        if file == "" if path == ":memory:" else os.path.realpath(file) == os.path.realpath(path):
            return connection
        connection.close()
    return sqlite3.connect(path)
