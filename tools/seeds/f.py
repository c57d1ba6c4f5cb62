SEEDS = []


def S(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


S("C28-indices-unique", "C28", [("model.py", '''NodeList(iter(getter(self, int(indx)) for indx in item), fieldtypes=self.fieldtypes)''',
 '''NodeList(iter(getter(self, int(indx)) for indx in dict.fromkeys(item)), fieldtypes=self.fieldtypes)''')],
 "a list of indices that names one index twice", "the node is in the resulting list only once",
 """
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", v=T.int32())
a, b = l.add(v=1), l.add(v=2)
assert [n["v"] for n in l.to_list()[[1, 0, 1]]] == [2, 1, 2]
""")

S("C28-getter-falsy", "C28", [("algorithm.py", '''        return default if prop not in n else n[prop]
''', '''        return n.get(prop, default) or default
''')],
 "get_prop with a default value on a node whose value is 0 or empty", "the default is returned instead of the value",
 """
from docria.algorithm import get_prop
from docria.model import Node
assert get_prop("v", 7)(Node(v=0)) == 0 and get_prop("v", 7)(Node()) == 7
""")

S("C28-delete-refs", "C28", [("model.py", '''        return self.remove_layer(name=key)
''', '''        return self.remove_layer(key, len(self.layers) == 2)
''')],
 "del doc[name] on one of exactly two layers that refer to each other", "the referring field of the other layer is removed",
 """
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", v=T.int32()); r = d.add_layer("r", to=T.noderef("t"))
try:
    del d["t"]
except Exception:
    pass
assert "to" in d["r"].schema.fields and "t" in d
""")

S("C28-member-none", "C28", [("model.py", '''        if key == "__data__":
            super().__setattr__(key, value)
        else:
            self.__data__[key] = value
''', '''        if key == "__data__":
            super().__setattr__(key, value)
        elif value != "" or key in self.__data__:
            self.__data__[key] = value
''')],
 "setting an unset field to the empty string through fld", "the field stays unset",
 """
from docria.model import Node
n = Node(); n.fld.x = ""
assert "x" in n and n["x"] == ""
""")

S("C28-default-shared", "C28", [("model.py", '''        if default == 0:
            return DataTypes._int64
''', '''        if default is not None and abs(default) < 1:
            return DataTypes._int64
        elif default == -1:
            return DataTypes._int64_raw
''')],
 "an int64 field with default value -1", "nodes get no default value",
 """
from docria import Document, DataTypes as T
d = Document(); l = d.add_layer("t", v=T.int64(-1))
assert l.add().get("v") == -1
""")
