"""a stand-in for the few pandas features used to read a table: the table's numbers may be symbolic"""
import csv
import types

from .values import Unsupported

TOKENS = {}  # text in the file -> symbolic number


def number(x):
    """the number written in a cell, or None"""
    if x in TOKENS:
        return TOKENS[x]
    try:
        return int(x)
    except ValueError:
        pass
    try:
        return float(x)
    except ValueError:
        return None


class Index(list):
    @property
    def str(self):
        return self

    def lower(self):
        return Index(x.lower() for x in self)

    def strip(self):
        return Index(x.strip() for x in self)

    def tolist(self):
        return list(self)


class Column(list):
    @property
    def iloc(self):
        return self

    @property
    def values(self):
        return self

    def tolist(self):
        return list(self)


class Row(dict):
    pass


class Frame:
    def __init__(self, names, cols):
        self._n = Index(names)
        self._c = cols

    @property
    def columns(self):
        return self._n

    @columns.setter
    def columns(self, v):
        self._n = Index(v)

    @property
    def empty(self):
        return len(self) == 0

    @property
    def shape(self):
        return (len(self), len(self._n))

    @property
    def index(self):
        return range(len(self))

    def rename(self, mapper=None, axis=None, columns=None, **k):
        if columns is None and axis in ("columns", 1):
            columns = mapper
        if columns is None or k:
            raise Unsupported("DataFrame.rename")
        f = columns if callable(columns) else (lambda n: columns.get(n, n))
        return Frame([f(n) for n in self._n], self._c)

    def __contains__(self, n):
        return n in self._n

    def __len__(self):
        return len(self._c[0]) if self._c else 0

    def __iter__(self):
        return iter(self._n)

    def __getitem__(self, n):
        if not isinstance(n, str) or n not in self._n:
            raise KeyError(n)
        return self._c[self._n.index(n)]

    def _row(self, i):
        return Row((n, c[i]) for n, c in zip(self._n, self._c))

    def iterrows(self):
        return ((i, self._row(i)) for i in range(len(self)))

    def to_dict(self, orient="dict"):
        if orient != "records":
            raise Unsupported("DataFrame.to_dict")
        return [dict(self._row(i)) for i in range(len(self))]

    def __getattr__(self, n):
        raise Unsupported("DataFrame." + n)


def read_csv(filename, keep_default_na=True, **k):
    if k or keep_default_na:
        raise Unsupported("read_csv options")
    with open(filename, newline="") as f:
        rows = list(csv.reader(f))
    head, rows = rows[0], rows[1:]
    cols = []
    for j in range(len(head)):
        c = [r[j] if j < len(r) else "" for r in rows]
        nums = [number(x) for x in c]
        cols.append(Column(nums if c and all(x is not None for x in nums) else c))
    return Frame(head, cols)


class Module(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("pandas." + n)


PANDAS = Module("pandas")
PANDAS.read_csv = read_csv
PANDAS.DataFrame = Frame
