"""Black boxes: recording calls, presetting outputs, finding them in a hierarchy."""
from peak.black_box import BlackBox, get_black_boxes


@spec(actual='peak.black_box:get_black_boxes', props=['F01', 'F02'])
def find_all(obj, path=()):
    """every black box below obj exactly once, under the attribute path leading to it"""
    from peak.peak import Peak
    if not isinstance(obj, Peak):
        raise ValueError()
    if isinstance(obj, BlackBox):
        return {path: obj}
    found = {}
    for name, child in obj.__dict__.items():
        if isinstance(child, Peak):
            found.update(get_black_boxes(child, path + (name,)))
    return found


@spec(actual='peak.black_box:get_black_box', props=['F01', 'A06'])
def find_one(obj, path):
    """follows the path, every step must be a circuit"""
    from peak.peak import Peak
    at = obj
    for name in path:
        at = getattr(at, name, None)
        if at is None:
            raise ValueError()
        if not isinstance(at, Peak):
            raise ValueError()
    return at


@spec(actual='peak.black_box:BlackBox.__init__', props=['F01'])
def init(self):
    """nothing recorded, nothing preset"""
    self._input_vals = None
    self._output_vals = None


@spec(actual='peak.black_box:BlackBox.create_call', props=['F01', 'A06'])
def create_call(cls):
    """the call records its inputs in interface order and returns the preset outputs"""
    old = cls.__call__

    def __call__(self, *args, **kwargs):
        T = type(self).input_t
        if self._output_vals is None:
            raise ValueError()
        if (len(args) > 0) == (len(kwargs) > 0):
            raise ValueError()
        if len(args) > 0:
            if len(args) != len(T.field_dict):
                raise ValueError()
            self._input_vals = tuple(args)
        else:
            if kwargs.keys() != T.field_dict.keys():
                raise ValueError()
            self._input_vals = tuple([kwargs[name] for name in T.field_dict])
        return self._output_vals
    if hasattr(old, '_input_t'):
        __call__._input_t = old._input_t
        __call__._output_t = old._output_t
    cls.__call__ = __call__


@spec(actual='peak.black_box:BlackBox._get_inputs', props=['F01', 'A06'])
def get_inputs(self):
    """what the last call was given"""
    if self._input_vals is None:
        raise ValueError()
    return self._input_vals


@spec(actual='peak.black_box:BlackBox._set_outputs', props=['F01', 'A06'])
def set_outputs(self, *args):
    """one value per declared output; a single one is returned bare"""
    T = type(self).output_t
    if len(args) != len(T.field_dict):
        raise ValueError()
    if len(args) == 1:
        self._output_vals = args[0]
    else:
        self._output_vals = args
