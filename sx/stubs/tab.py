"""pandas.DataFrame: records the table it is given (installed in both worlds; pandas is not among the tools here).

Accepts the constructions that give a table of columns: a dict of columns, a list of dicts, a list of rows with
column names; columns of different lengths are refused as pandas does."""


class DataFrame:
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        self.cols = []          # [name, list of values]
        self.given = index
        if data is None:
            for c in columns or ():
                self.cols.append([c, []])
        elif hasattr(data, "items"):
            for k, v in data.items():
                self[k] = v
            if columns is not None:
                self.cols = [[c, self.column(c)] for c in columns]
        else:
            rows = [r for r in data]
            if rows and hasattr(rows[0], "items"):
                names = [c for c in columns] if columns is not None else []
                if columns is None:
                    for r in rows:
                        for k in r:
                            if k not in names:
                                names.append(k)
                for c in names:
                    self.cols.append([c, [r.get(c) for r in rows]])
            else:
                names = [c for c in columns] if columns is not None else list(range(len(rows[0]) if rows else 0))
                for r in rows:
                    if len(r) != len(names):
                        raise ValueError("%d columns passed, data had %d columns" % (len(names), len(r)))
                for i, c in enumerate(names):
                    self.cols.append([c, [r[i] for r in rows]])

    @classmethod
    def from_dict(cls, data, orient="columns", dtype=None, columns=None):
        return cls(data, columns=columns)

    @classmethod
    def from_records(cls, data, index=None, columns=None, **kw):
        return cls(data, columns=columns)

    def column(self, name):
        for c, v in self.cols:
            if c == name:
                return v
        raise KeyError(name)

    __getitem__ = column

    def __setitem__(self, name, values):
        values = [v for v in values]
        for c, v in self.cols:
            if len(v) != len(values):
                raise ValueError("All arrays must be of the same length")
        for cv in self.cols:
            if cv[0] == name:
                cv[1] = values
                return
        self.cols.append([name, values])

    def insert(self, loc, column, value, allow_duplicates=False):
        self[column] = value
        self.cols.insert(loc, self.cols.pop())

    def assign(self, **kw):
        d = DataFrame({c: v for c, v in self.cols})
        for k, v in kw.items():
            d[k] = v() if callable(v) else v
        return d

    @property
    def columns(self):
        return [c for c, v in self.cols]

    def __len__(self):
        return len(self.cols[0][1]) if self.cols else 0


def install(world, out, resets, module):
    out["pandas"] = module("pandas", DataFrame=DataFrame)
