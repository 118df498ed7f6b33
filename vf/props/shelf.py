"""Files below the working directory, kept in memory: for harnesses that do not look at files, or only at what is put into them.
Which functions of the code do the writing, and by which of the usual means, does not matter."""
import builtins
import csv
import io
import json
import os
import pickle

NULL = []


class Doc(str):
    """A JSON text, with the data it stands for"""


class Sheet:
    """A file in memory; symbolic numbers stay what they are"""

    def __init__(self, path):
        self.path = self.name = path
        self.opened = 0
        self.items = []
        self.binary = self.reading = self.closed = False

    # what was put into it
    def add(self, kind, data):
        self.items.append((kind, data))

    def text(self):
        return ''.join(x for kind, x in self.items if kind == 'text')

    def rows(self):
        rows = [x for kind, x in self.items if kind == 'row']
        return rows or list(csv.reader(io.StringIO(self.text())))

    def data(self):
        for kind, x in reversed(self.items):
            if kind == 'data':
                return x
        try:
            return PLAIN['loads'](self.text())
        except ValueError:
            return None

    # a file object
    def write(self, x):
        if isinstance(x, Doc):
            self.add('data', x.data)
        else:
            self.add('bytes' if isinstance(x, (bytes, bytearray, memoryview)) else 'text', x)
        return len(x)

    def writelines(self, lines):
        for x in lines:
            self.write(x)

    def read(self, n=-1):
        if n == 0 or self.reading:
            return ''
        self.reading = True
        return self.text()

    def readline(self, *a):
        for line in self:
            return line
        return ''

    def readlines(self, *a):
        return list(self)

    def __iter__(self):
        if self.reading:
            return iter(())
        self.reading = True
        return iter(self.text().splitlines(True))

    def tell(self):
        return len(self.items)

    def seek(self, offset, whence=0):
        self.reading = whence == 2
        return len(self.items) if whence == 2 else 0

    def truncate(self, *a):
        self.items.clear()

    def fileno(self):
        if not NULL:
            NULL.append(os.open(os.devnull, os.O_RDWR))
        return NULL[0]

    def flush(self):
        pass

    def isatty(self):
        return False

    def readable(self):
        return True

    writable = seekable = readable

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


class Rows:
    def __init__(self, sheet):
        self.sheet = sheet

    def writerow(self, row):
        self.sheet.add('row', list(row))

    def writerows(self, rows):
        for row in rows:
            self.writerow(row)


PLAIN = dict(loads=json.loads)


class Shelf:
    def __init__(self, ctx):
        self.home = os.path.realpath(os.getcwd())
        self.sheets, self.folders = {}, set()
        opened, stat, mkdir = builtins.open, os.stat, os.mkdir

        def open_(file, mode='r', *a, **k):
            if not self.here(file):
                return opened(file, mode, *a, **k)
            path = self.path(file)
            if not set(mode) & set('wax+') and path not in self.sheets:
                return opened(file, mode, *a, **k)
            if 'x' in mode and path in self.sheets:
                raise FileExistsError(path)
            if 'r' in mode and path not in self.sheets:
                raise FileNotFoundError(path)
            if 'w' in mode or path not in self.sheets:
                last = self.sheets.get(path)
                self.sheets[path] = Sheet(path)
                self.sheets[path].opened = last.opened if last else 0
            sheet = self.sheets[path]
            sheet.opened += set(mode) & set('wax+') != set()
            sheet.reading = 'a' in mode
            sheet.closed = False
            return sheet
        ctx.patch(builtins, 'open', open_)
        ctx.patch(io, 'open', open_)

        def stat_(path, *a, **k):
            if self.here(path):
                if self.path(path) in self.sheets:
                    return stat(os.devnull)
                if self.path(path) in self.folders:
                    return stat(self.home)
            return stat(path, *a, **k)
        ctx.patch(os, 'stat', stat_)

        def mkdir_(path, *a, **k):
            if not self.here(path):
                return mkdir(path, *a, **k)
            self.folders.add(self.path(path))
        ctx.patch(os, 'mkdir', mkdir_)
        for name in ('replace', 'rename', 'link'):
            self.moving(ctx, name)
        for name in ('remove', 'unlink'):
            self.removing(ctx, name)
        import fcntl
        for name in ('flock', 'lockf'):
            self.skip(ctx, fcntl, name, lambda f, *a: isinstance(f, Sheet) or f in NULL)
        self.skip(ctx, os, 'fsync', lambda fd: fd in NULL or isinstance(fd, Sheet))
        dump, dumps, writer = json.dump, json.dumps, csv.writer

        def dump_(data, f, *a, **k):
            if not isinstance(f, Sheet):
                return dump(data, f, *a, **k)
            f.add('data', copied(data))
        ctx.patch(json, 'dump', dump_)

        def dumps_(data, *a, **k):
            try:
                doc = Doc(dumps(data, *a, **k))
            except Exception:  # noqa
                doc = Doc('{}')
            doc.data = copied(data)
            return doc
        ctx.patch(json, 'dumps', dumps_)
        ctx.patch(csv, 'writer', lambda f, *a, **k: Rows(f) if isinstance(f, Sheet) else writer(f, *a, **k))
        ctx.patch(pickle, 'dump', lambda obj, f, *a, **k: None)
        ctx.patch(pickle, 'dumps', lambda *a, **k: b'')
        import pandas
        ctx.patch(pandas.DataFrame, 'to_csv', lambda df, *a, **k: self.frame(df, *a, **k))

    def here(self, path):
        return isinstance(path, (str, os.PathLike)) and os.path.abspath(os.fspath(path)).startswith((self.home + os.sep, os.path.abspath(os.getcwd()) + os.sep))

    def path(self, path):
        return os.path.relpath(os.path.abspath(os.fspath(path)), os.getcwd())

    def frame(self, df, path=None, *a, **k):
        if path is None and 'path_or_buf' not in k:
            return ''
        if isinstance(path, Sheet):
            path.add('frame', df)
            return
        with builtins.open(path or k.get('path_or_buf'), k.get('mode', 'w')) as sheet:
            if isinstance(sheet, Sheet):
                sheet.add('frame', df)

    def moving(self, ctx, name):
        original = getattr(os, name)

        def move(a, b, *x, **k):
            if not (self.here(a) and self.path(a) in self.sheets):
                return original(a, b, *x, **k)
            old = self.sheets.get(self.path(b))
            if name == 'link' and old is not None:
                raise FileExistsError(b)
            sheet = self.sheets[self.path(a)]
            if name != 'link':
                del self.sheets[self.path(a)]
            self.sheets[self.path(b)] = sheet
            sheet.opened += old.opened if old else 0
            sheet.path = self.path(b)
        ctx.patch(os, name, move)

    def removing(self, ctx, name):
        original = getattr(os, name)

        def remove(path, *a, **k):
            if not (self.here(path) and self.path(path) in self.sheets):
                return original(path, *a, **k)
            del self.sheets[self.path(path)]
        ctx.patch(os, name, remove)

    def skip(self, ctx, module, name, when):
        original = getattr(module, name)
        ctx.patch(module, name, lambda f, *a, **k: None if when(f) else original(f, *a, **k))

    # what there is
    def named(self, part):
        return [s for path, s in sorted(self.sheets.items()) if part in os.path.basename(path)]

    def documents(self):
        """The JSON files, with the data they hold"""
        return [(s, s.data()) for _, s in sorted(self.sheets.items()) if isinstance(s.data(), dict)]


def copied(data):
    if isinstance(data, dict):
        return {k: copied(v) for k, v in data.items()}
    return [copied(v) for v in data] if isinstance(data, list) else data


def shelf(ctx):
    """The shelf of this path"""
    if getattr(ctx, 'shelf_', None) is None:
        ctx.shelf_ = Shelf(ctx)
    return ctx.shelf_
