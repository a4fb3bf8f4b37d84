# target: pybbn/graph/variable.py
class Variable(object):
    def __copy__(self):
        cls = type(self)
        result = cls.__new__(cls)
        result.__dict__.update(self.__dict__)
        return result

    def __deepcopy__(self, memodict={}):
        cls = type(self)
        result = cls.__new__(cls)
        memodict[id(self)] = result
        for key, value in self.__dict__.items():
            copied = deepcopy(value, memodict)
            setattr(result, key, copied)
        return result

    def __str__(self):
        return f"{self.id}|{self.name}|{self.values}"

    def to_dict(self):
        return dict(id=self.id, name=self.name, values=self.values)
