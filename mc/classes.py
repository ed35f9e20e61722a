"""Subclasses of numbers with uncertainties, at the module level (pickling)."""
from uncertainties import core


class Dict(core.Variable):
    pass


class SlotsTuple(core.Variable):
    __slots__ = ('attr',)


class SlotsList(core.Variable):
    __slots__ = ['attr', 'other']


class SlotsStr(core.Variable):
    __slots__ = 'attr'


class SlotsEmpty(core.Variable):
    __slots__ = ()


class SlotsDict(core.Variable):
    __slots__ = {'attr': 'documentation', 'other': None}


class DictThenSlots(Dict):
    __slots__ = ('slot',)


class SlotsThenDict(SlotsTuple):
    pass


class SlotsThenSlots(SlotsTuple):
    __slots__ = ('deep',)


class DictSlot(core.Variable):
    __slots__ = ('__dict__', 'attr')


class WeakSlot(core.Variable):
    __slots__ = ('__weakref__', 'attr')


class Private(core.Variable):
    __slots__ = ('__hidden',)

    def get_hidden(self):
        return self.__hidden

    def set_hidden(self, value):
        self.__hidden = value
    hidden = property(get_hidden, set_hidden)


class _Hidden(core.Variable):
    """The attribute is mangled as _Hidden__value (no double underscore)."""
    __slots__ = ('__value', '__odd__', '_one', 'end__')

    def get_hidden(self):
        return self.__value

    def set_hidden(self, value):
        self.__value = value
    hidden = property(get_hidden, set_hidden)


class __(core.Variable):
    """No mangling at all."""
    __slots__ = ('__value',)

    def get_hidden(self):
        return self.__value

    def set_hidden(self, value):
        self.__value = value
    hidden = property(get_hidden, set_hidden)


class Mixin(object):
    __slots__ = ()


class Diamond(Mixin, SlotsTuple):
    __slots__ = ('deep',)


# Class -> attributes that can be set (instances may have them in a slot or in
# their dictionary)
ATTRS = {Dict: ['attr', 'other'], SlotsTuple: ['attr'],
         SlotsList: ['attr', 'other'], SlotsStr: ['attr'], SlotsEmpty: [],
         SlotsDict: ['attr', 'other'], DictThenSlots: ['slot', 'free'],
         SlotsThenDict: ['attr', 'free'], SlotsThenSlots: ['attr', 'deep'],
         DictSlot: ['attr', 'free'], WeakSlot: ['attr'], Private: ['hidden'],
         _Hidden: ['hidden', '__odd__', '_one', 'end__'], __: ['hidden'],
         Diamond: ['attr', 'deep']}
