"""The command registry: ghost objects, and a plain model of it for the native search."""


class Named:
    """a class"""


class Command:
    """an object of a class"""


class Sorted:
    """a list of commands, strictly sorted by the names of their classes"""
    def __len__(self):
        raise NotImplementedError

    def __getitem__(self, i):
        raise NotImplementedError

    def __setitem__(self, i, x):
        raise NotImplementedError

    def append(self, x):
        raise NotImplementedError

    def insert(self, i, x):
        raise NotImplementedError


class Order:
    """priority -> sorted list"""
    def __contains__(self, p):
        raise NotImplementedError

    def __getitem__(self, p):
        raise NotImplementedError

    def __setitem__(self, p, v):
        raise NotImplementedError

    def get(self, p, default=None):
        raise NotImplementedError

    def setdefault(self, p, default):
        raise NotImplementedError


def attribute(class_name):
    """F20_AutoPart -> autopart"""
    if "_" in class_name:
        return class_name.split("_", 1)[1].lower()
    return class_name.lower()


class Registry:
    """model: names -> [class, serial number of the object]"""
    def __init__(self):
        self.names = {}
        self.attrs = {}
        self.serial = 0

    def new(self, cls):
        self.serial += 1
        obj = (cls, self.serial)
        self.attrs[attribute(cls.__name__)] = obj
        return obj

    def register(self, name, cls):
        for o in self.names.values():
            if o is not None and o[0].__name__ == cls.__name__:
                obj = o
                break
        else:
            obj = self.new(cls)
        self.names[name] = obj

    def reset(self, name):
        old = self.names.get(name)
        if old is None:
            raise KeyError(name)
        obj = self.new(old[0])
        for n, o in list(self.names.items()):
            if o == old:
                self.names[n] = obj

    def written(self):
        objs = {o for o in self.names.values() if o is not None}
        return sorted((o for o in objs if o[0]().writePriority is not None), key=lambda o: (o[0]().writePriority, o[0].__name__))


def lower(s):
    return s.lower()
