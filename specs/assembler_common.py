"""Shared assembler machinery: instance cache, sub-field addressing, class tests."""
from hwtypes import AbstractBitVector, AbstractBit
from hwtypes.adt_meta import AttrSyntax, GetitemSyntax
from peak.assembler.assembler_abc import Sub
from peak.assembler.assembler_util import _issubclass


@spec(actual='peak.assembler.assembler_util:_issubclass', props=['A01', 'A06'])
def issubclass_(sub, parent):
    try:
        return issubclass(sub, parent)
    except TypeError:
        return False


@spec(actual='peak.assembler.assembler_abc:AssemblerMeta.__call__', props=['C03'])
def meta_call(cls, *args, **kwargs):
    """one instance per class and constructor arguments"""
    cache = type(cls)._cache[cls]
    if cache is None:
        return super().__call__(*args, **kwargs)
    key = (args, tuple(kwargs.items()))
    if key in cache:
        return cache[key]
    obj = super().__call__(*args, **kwargs)
    cache[key] = obj
    return obj


@spec(actual='peak.assembler.assembler_abc:AssemblerMeta.__init__', props=['C03'])
def meta_init(cls, name, bases, namespace, cache=True, **kwargs):
    """every class owns its own cache"""
    type(cls)._cache[cls] = {} if cache else None
    return super().__init__(name, bases, namespace, **kwargs)


def scn_sub(assembler):
    s = Sub(assembler)
    return s.idx, s.tag_idx, s.asm


@spec(actual='scn:scn_sub', inline=['peak.assembler.assembler_abc.Sub'], props=['A07'])
def sub_root(assembler):
    isa = assembler.isa
    if not isinstance(isa, AttrSyntax) and not (isinstance(isa, GetitemSyntax)
                                                or _issubclass(isa, (AbstractBit, AbstractBitVector))):
        raise TypeError()
    return (slice(0, assembler.width),
            slice(assembler.tag_layout[0], assembler.tag_layout[1]),
            assembler)


def scn_sub_at(assembler, offset):
    s = Sub(assembler, offset, [])
    return s.idx, s.tag_idx


@spec(actual='scn:scn_sub_at', inline=['peak.assembler.assembler_abc.Sub'], props=['A07'])
def sub_at(assembler, offset):
    isa = assembler.isa
    if not isinstance(isa, AttrSyntax) and not (isinstance(isa, GetitemSyntax)
                                                or _issubclass(isa, (AbstractBit, AbstractBitVector))):
        raise TypeError()
    return (slice(offset, offset + assembler.width),
            slice(offset + assembler.tag_layout[0], offset + assembler.tag_layout[1]))


@spec(actual='peak.assembler.assembler_abc:Sub._get', props=['A07', 'A06'])
def sub_get(self, attr, Error):
    """the field's assembler, at the sum of the enclosing offsets"""
    isa = self.asm.isa
    if attr not in isa.field_dict:
        raise Error
    return type(self)(type(self.asm)(isa.field_dict[attr]),
                      self._offset + self.asm.layout[attr][0],
                      self._path + [attr])


@spec(actual='peak.assembler.assembler_abc:Sub.__getattr__', props=['A07', 'A06'], opaque=['peak.assembler.assembler_abc.Sub._get'])
def sub_getattr(self, attr):
    return self._get(attr, AttributeError)


def sub_descend(self, path):
    """the same, one key after the other"""
    if not isinstance(path, tuple):
        path = (path,)
    at = self
    for key in path:
        at = at._get(key, KeyError)
    return at


@spec(actual='peak.assembler.assembler_abc:Sub.__getitem__', props=['A07', 'A06'], opaque=['peak.assembler.assembler_abc.Sub._get'], orelse=['sub_descend'])
def sub_getitem(self, path):
    if not isinstance(path, tuple):
        path = (path,)
    elif not path:
        return self
    return self._get(path[0], KeyError)[path[1:]]


@spec(actual='peak.assembler.assembler_abc:Sub.__iter__', props=['A07'])
def sub_iter(self):
    for name in self.asm.isa.field_dict:
        yield name


@spec(actual='peak.assembler.assembler_abc:Sub.__len__', props=['A07'])
def sub_len(self):
    return len(self.asm.isa.fields)


@spec(actual='peak.assembler.assembler_abc:AbstractAssembler.sub', props=['A07'])
def asm_sub(self):
    return Sub(self)
