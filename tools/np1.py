import sys,os
root=sys.argv[1]
def R(f,*pairs):
    p=os.path.join(root,f); s=open(p).read()
    for a,b in pairs:
        assert s.count(a)>=1,(f,a)
        s=s.replace(a,b)
    open(p,'w').write(s)
TS='sympl/_components/timesteppers.py'
R(TS,
("""        return_state[key] = state[key] + timestep.total_seconds() * (
            1.5*tendencies_list[-1][key] - 0.5*tendencies_list[-2][key]
        )""","""        return_state[key] = _bashforth(state[key], [t[key] for t in tendencies_list[-2:]], (-0.5, 1.5), timestep)"""),
("""        return_state[key] = state[key] + timestep.total_seconds() * (
            23./12*tendencies_list[-1][key] - 4./3*tendencies_list[-2][key] +
            5./12*tendencies_list[-3][key]
        )""","""        return_state[key] = _bashforth(state[key], [t[key] for t in tendencies_list[-3:]], (5./12, -16./12, 23./12), timestep)"""),
("""        return_state[key] = state[key] + timestep.total_seconds() * (
            55./24*tendencies_list[-1][key] - 59./24*tendencies_list[-2][key] +
            37./24*tendencies_list[-3][key] - 3./8*tendencies_list[-4][key]
        )""","""        return_state[key] = _bashforth(state[key], [t[key] for t in tendencies_list[-4:]], np.array([-9., 37., -59., 55.]) / 24., timestep)"""),
("""def step_forward_euler(state, tendencies, timestep):
    return_state = {}
    for key in tendencies.keys():
        return_state[key] = state[key] + tendencies[key]*timestep.total_seconds()
    return return_state""","""def _bashforth(value, tendencies, coefficients, timestep):
    dt = timestep / timedelta(seconds=1)
    return value + dt * sum(c * t for c, t in zip(coefficients, tendencies))


def step_forward_euler(state, tendencies, timestep):
    dt = timestep.days * 86400. + timestep.seconds + timestep.microseconds * 1e-6
    return {key: state[key] + dt * tendency for key, tendency in tendencies.items()}"""),
("        if self._stages == 2:\n","        dt = timestep\n        if self._stages == 2:\n"),
("self._timestep is not None and self._timestep != timestep","self._timestep is not None and not (timestep == self._timestep)"),
)
p=os.path.join(root,TS); s=open(p).read(); open(p,'w').write("from datetime import timedelta\nimport numpy as np\n"+s)
R('sympl/_core/state.py',
("""            out_state[key] = scalar * state[key]
""","""            value = state[key]
            if hasattr(value, 'attrs'):
                out_state[key] = value.copy(data=np.multiply(value.values, scalar))
            else:
                out_state[key] = np.multiply(value, scalar)
"""),
("def add(","import numpy as np\n\n\ndef add("))
R('sympl/_core/backend.py',
("""                out_array = np.empty(out_shape, dtype=numpy_array.dtype)
                out_array[:] = numpy_array""","""                out_array = np.array(np.broadcast_to(numpy_array, out_shape))"""),
("""            new_shape = (1,) * len(missing_dims) + values.shape
            values = values.reshape(new_shape)
""","""            for _ in missing_dims:
                values = np.expand_dims(values, 0)
"""),
("numpy_array = values.transpose(axes)","numpy_array = np.moveaxis(values, axes, range(len(axes)))"))
R('sympl/_core/wildcard.py',
("""        target_shape = []
        wildcard_length = 1
        for i, length in enumerate(array.shape):
            if i_start <= i < i_end:
                wildcard_length *= length
            else:
                target_shape.append(length)
            if i == i_end - 1:
                target_shape.append(wildcard_length)
""","""        shape = tuple(array.shape)
        target_shape = shape[:i_start] + (int(np.prod(shape[i_start:i_end])),) + shape[i_end:]
"""),
("""        out_array = np.reshape(raw_array, target_shape)""","""        out_array = raw_array.reshape(tuple(target_shape))"""),
)
R('sympl/_core/tracers.py',
("""        array = np.empty(shape, dtype=np.float64)
        for i, name in enumerate(self.tracer_names):
            tracer_slice = [slice(0, d) for d in shape]
            tracer_slice[self._tracer_index] = i
            array[tuple(tracer_slice)] = raw_state[name]
        return array
""","""        if len(self.tracer_names) == 0:
            return np.zeros(shape)
        arrays = [np.asarray(raw_state[name]) for name in self.tracer_names]
        return np.stack(arrays, axis=self._tracer_index).astype(np.float64)
"""),
("""            tracer_slice = [slice(0, d) for d in tracer_array.shape]
            tracer_slice[self._tracer_index] = i
            raw_state[name] = tracer_array[tuple(tracer_slice)]
""","""            raw_state[name] = np.take(tracer_array, i, axis=self._tracer_index)
"""))
R('sympl/_core/init_np_arrays.py',
("out_dict[name] = np.zeros(out_shape, dtype=dtype)","out_dict[name] = np.full(tuple(out_shape), 0, dtype=dtype)"),
("out_dict['tracers'] = np.zeros(out_shape, dtype=np.float64)","out_dict['tracers'] = np.zeros(shape=tuple(dim_lengths[dim] for dim in tracer_dims))"))
R('sympl/_core/wrappers.py',
("""                (state['time'] >= self._last_update_time +
                 self._update_timedelta)):""","""                not (state['time'] - self._last_update_time < self._update_timedelta)):"""),
)
R('sympl/_components/basic.py',
("data_array.values.copy()","np.array(data_array.values)"))
p=os.path.join(root,'sympl/_components/basic.py'); s=open(p).read(); open(p,'w').write("import numpy as np\n"+s)
R('sympl/_core/tendencystepper.py',
("""                (new_state[name].to_units(base_units) - state[name].to_units(base_units)) /
                timestep.total_seconds() * self.time_unit_timedelta.total_seconds()
""","""                (new_state[name].to_units(base_units) - state[name].to_units(base_units)) *
                (self.time_unit_timedelta / timestep)
"""))
