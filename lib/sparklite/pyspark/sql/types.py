class DataType:
    def __repr__(self):
        return type(self).__name__ + "()"
    def __eq__(self, o):
        return type(self) is type(o)
    def __hash__(self):
        return hash(type(self))
class StringType(DataType): pass
class IntegerType(DataType): pass
class LongType(DataType): pass
class DoubleType(DataType): pass
class BooleanType(DataType): pass
class TimestampType(DataType): pass
class ArrayType(DataType):
    def __init__(self, e=None, n=True): self.e = e
class StructField:
    def __init__(self, name, t, nullable=True): self.name, self.t = name, t
class StructType(DataType):
    def __init__(self, fields=()): self.fields = list(fields)
