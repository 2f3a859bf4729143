"""Contracts of the migration of the database: which scripts are run, in which order, on which connection."""
import argparse
import os
from pyulog.db import DatabaseULog
from pyulog import migrate_db as M
from pv.contract import Contract
from pv import schema as S
from pv.tools import traced

C = []
TEXT = S.Str()


def version_of(db_path, force):
    """of the schema; a file that was not made by this tool is refused"""
    if not os.path.isfile(db_path):
        print('Database file %s not found, creating it from scratch.' % db_path)
        return 0
    print('Found database file %s.' % db_path)
    with DatabaseULog.get_db_handle(db_path)() as con:
        (v,) = con.cursor().execute('PRAGMA user_version').fetchone()
    if v == 0 and not force:
        raise FileExistsError()
    if v < 0:
        raise ValueError()
    return v


def script(migration_id, sql_dir):
    """the statements of one file, in one transaction together with the version number"""
    name = os.path.join(sql_dir, 'pyulog.' + str(migration_id) + '.sql')
    if not os.path.exists(name):
        raise FileNotFoundError()
    with open(name, 'r', encoding='utf8') as f:
        text = f.read()
    text = text.strip()
    if not text.startswith('BEGIN;'):
        raise ValueError()
    if not text.endswith('COMMIT;'):
        raise ValueError()
    return name, text[:-7] + 'PRAGMA user_version = ' + str(migration_id) + ';\nCOMMIT;'


def migrate(db_path, sql_dir=None, noop=False, force=False):
    if sql_dir is None:
        sql_dir = os.path.join(os.path.dirname(os.path.realpath(os.path.abspath(M.__file__))), 'sql')
    if not os.path.isdir(sql_dir):
        raise NotADirectoryError()
    print('Using migration files in ' + sql_dir + '.')
    have = version_of(db_path, force)
    print('Current schema version: %d (database) and %d (code).' % (have, DatabaseULog.SCHEMA_VERSION))
    with DatabaseULog.get_db_handle(db_path)() as con:
        con.cursor().execute('PRAGMA foreign_keys=off')
        for n in range(have + 1, DatabaseULog.SCHEMA_VERSION + 1):
            name, text = script(n, sql_dir)
            print('Executing ' + name + '.')
            if noop:
                print(text)
            else:
                con.cursor().executescript(text)
        print('Migration done.')
    return db_path


def migrate_main():
    p = argparse.ArgumentParser()
    p.add_argument('-d', '--database', dest='db_path', default='pyulog.sqlite3')
    p.add_argument('-n', '--noop', dest='noop', action='store_true', default=False)
    p.add_argument('-s', '--sql', dest='sql_dir', default=None)
    p.add_argument('-f', '--force', dest='force', action='store_true', default=False)
    a = p.parse_args()
    M.migrate_db(a.db_path, sql_dir=a.sql_dir, noop=a.noop, force=a.force)


RAISES = (FileExistsError, FileNotFoundError, NotADirectoryError, ValueError)
c = lambda n, *a, **k: C.append(Contract('pyulog.migrate_db:' + n, *a, name='migrate_db.' + n, options=dict(io=True, db={}), **k))
c('_read_db_schema_version', dict(db_path=TEXT, force=S.Bool()), version_of)
c('_read_migration_file', dict(migration_id=S.Nat, sql_dir=TEXT), script)
c('migrate_db', dict(db_path=TEXT, sql_dir=S.OneOf(S.Const(None), TEXT), noop=S.Bool(), force=S.Bool()), migrate,
  opaque=traced(result=TEXT, raises=RAISES))
c('main', dict(), migrate_main)
